package main

// What the analyses of single utilities share: running a main package, operands, ghost cells.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// runMain initialises a program's packages abstractly and runs its main function.
func runMain(e *Engine, path string, prep func(st *State)) {
	pkg := e.P.Pkgs[repoModule+"/"+path]
	if pkg == nil {
		panic(giveUp{"package " + path + " not found"})
	}
	st := e.newState()
	for _, s := range e.runInit(st, pkg) {
		if prep != nil {
			prep(s)
		}
		m := pkg.Func("main")
		if m == nil {
			panic(giveUp{"no main in " + path})
		}
		for _, r := range e.call(s, m, nil, nil, nil) {
			e.exit(r.St, K(0), lastInstr(m))
		}
	}
}

func lastInstr(fn *ssa.Function) ssa.Instruction {
	for i := len(fn.Blocks) - 1; i >= 0; i-- {
		b := fn.Blocks[i]
		if n := len(b.Instrs); n > 0 {
			if r, ok := b.Instrs[n-1].(*ssa.Return); ok {
				return r
			}
		}
	}
	return nil
}

// runInit runs the package initialisers (the repository's own ones).
func (e *Engine) runInit(st *State, pkg *ssa.Package) []*State {
	in := pkg.Func("init")
	var out []*State
	oe, ow, op := e.onEvent, e.onWrite, e.onPanic
	e.onEvent, e.onWrite, e.onPanic = nil, nil, nil
	for _, r := range e.call(st, in, nil, nil, nil) {
		out = append(out, r.St)
	}
	e.onEvent, e.onWrite, e.onPanic = oe, ow, op
	return out
}

func isBoolT(b Val) bool {
	x, ok := b.(BoolV)
	return ok && x.E.K == 'T'
}

var strType = types.Typ[types.String]

// proveEq is an obligation: l == 0 in st.
func (e *Engine) proveEq(st *State, l Lin) bool {
	e.nObl++
	return e.entailsEq(st, e.n(st, l))
}

func isBoolF(b Val) bool {
	x, ok := b.(BoolV)
	return ok && x.E.K == 'F'
}
