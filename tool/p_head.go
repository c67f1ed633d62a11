package main

// head: what is written is followed through the operands.
//
//   k    the operand being written (-1: none yet)
//   src  its contents; wr bytes of it have been written, lines whole lines; the newline looked for
//        is the first from ls on, and part says that part of its line has been written
//   exp  what is still to be written of its header
//   done it has been written as far as it has to be

import (
	"golang.org/x/tools/go/ssa"
)

func headTask(e *Engine) {
	e.wantOut = true
	a := &argScan{e: e, opts: []string{"-n"}, valOpts: map[string]bool{"-n": true}}
	a.onVal = func(st *State, o string, v StrV) { st.Ghost["N"] = e.intTerm("atoi", v) }
	e.argLoad = a.load
	stdin := SA(e.fnAtom("stdin", 's'))
	nl := K('\n')
	e.termHook = func(fn string, args []Val) Val {
		if fn == "input" {
			if s, ok := args[0].(StrV).Const(); ok {
				if s == "-" {
					return stdin
				}
				return e.strTerm("content", SC(s))
			}
		}
		return nil
	}
	g := func(st *State, k string) Lin { return e.n(st, st.Ghost[k].(Lin)) }
	str := func(st *State, k string) StrV { return e.normStr(st, st.Ghost[k].(StrV)) }
	complete := func(st *State) bool {
		if isBoolT(st.Ghost["done"]) {
			return true
		}
		if len(str(st, "exp").P) > 0 {
			return false
		}
		wr := g(st, "wr")
		return e.proveEq(st, wr.Sub(e.strLen(str(st, "src")))) ||
			isBoolF(st.Ghost["part"]) && e.proveEq(st, wr.Sub(g(st, "ls"))) && e.entails(st, e.n(st, g(st, "lines").Sub(g(st, "N"))))
	}
	collapse := func(st *State) {
		if !isBoolT(st.Ghost["done"]) && complete(st) {
			st.Ghost["done"] = BoolV{bTrue}
			st.Ghost["src"], st.Ghost["wr"], st.Ghost["ls"], st.Ghost["lines"] = StrV{}, K(0), K(0), K(0)
			st.Ghost["part"] = BoolV{bFalse}
		}
	}
	// begin opens the next operand in the ghost run.
	begin := func(st *State) {
		k := e.n(st, g(st, "k").AddK(1))
		st.Ghost["k"] = k
		st.Ghost["insrc"] = BoolV{bFalse}
		st.Ghost["done"] = BoolV{bFalse}
		st.Ghost["wr"], st.Ghost["ls"], st.Ghost["lines"], st.Ghost["part"] = K(0), K(0), K(0), BoolV{bFalse}
		st.Ghost["src"] = e.normStr(st, e.strTerm("input", e.normStr(st, a.opd(k))))
		if e.entailsEq(st, e.n(st, a.nops())) {
			st.Ghost["src"] = stdin
		}
	}
	// resolve: "-" is standard input, any other name a file; false: not judged further
	// (standard input named twice).
	resolve := func(st *State) bool {
		src := str(st, "src")
		if at, ok := src.Atom(); ok && e.atoms[at].Fn == "input" {
			nm := e.atoms[at].Args[0].(StrV)
			if e.strKnown(st, nm, SC("-")) == 0 {
				st.Ghost["src"] = e.normStr(st, e.strTerm("content", nm))
			}
		}
		if e.strKnown(st, src, stdin) == 1 && !isBoolT(st.Ghost["insrc"]) {
			if isBoolT(st.Ghost["instd"]) {
				return false
			}
			st.Ghost["instd"], st.Ghost["insrc"] = BoolV{bTrue}, BoolV{bTrue}
		}
		return true
	}
	single := func(st *State) *BExpr { return bGe(K(1).Sub(e.n(st, a.nops()))) }
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		if isFail(ev) {
			st.Ghost["fail"] = BoolV{bTrue}
		}
		if isRead(ev) && !isBoolT(st.Ghost["fail"]) {
			if _, ok := a.fin(st); !ok {
				return nil
			}
			if e.evalB(st, single(st)) == 1 && e.proveEq(st, g(st, "k").AddK(1)) {
				begin(st)
			}
			if !resolve(st) {
				return nil
			}
			collapse(st)
		}
		return []*State{st}
	}
	var write func(st *State, d StrV, at ssa.Instruction) []*State
	write = func(st *State, d StrV, at ssa.Instruction) []*State {
		if len(d.P) == 0 || e.entailsEq(st, e.n(st, e.strLen(d))) {
			return []*State{st}
		}
		e.nObl++
		if x := str(st, "exp"); len(x.P) > 0 {
			if rest, ok := e.cutPrefix(st, x, d); ok {
				st.Ghost["exp"] = rest
				collapse(st)
				return []*State{st}
			}
			// the header and more in one go
			if rest, ok := e.cutPrefix(st, d, x); ok {
				st.Ghost["exp"] = StrV{}
				return write(st, rest, at)
			}

			e.dataAlarm(st, d, "header", at, "writes %s where the header %s is due", e.valString(d), e.valString(x))
			return nil
		}
		if !resolve(st) {
			return nil
		}
		if complete(st) {
			// the next operand
			var out []*State
			for _, s := range e.assume(st.clone(), single(st), true) {
				if !e.proveEq(s, g(s, "k").AddK(1)) {
					e.dataAlarm(s, d, "excess", at, "writes %s after everything that has to be written", e.valString(d))
					continue
				}
				begin(s)
				out = append(out, write(s, d, at)...)
			}
			for _, s := range e.assume(st, single(st), false) {
				if !e.entails(s, e.n(s, a.nops().Sub(g(s, "k")).AddK(-2))) {
					e.dataAlarm(s, d, "excess", at, "writes %s after everything that has to be written", e.valString(d))
					continue
				}
				h := SCat(SC("==> "), a.opd(e.n(s, g(s, "k").AddK(1))), SC(" <==\n"))
				first := e.evalB(s, bEq0(g(s, "k").AddK(1)))
				if first == -1 {
					e.dataAlarm(s, d, "header", at, "writes %s where a header is due", e.valString(d))
					continue
				}
				if first == 0 {
					h = SCat(SC("\n"), h)
				}
				begin(s)
				s.Ghost["exp"] = e.normStr(s, h)
				out = append(out, write(s, d, at)...)
			}
			return out
		}
		src, wr := str(st, "src"), g(st, "wr")
		to := e.n(st, wr.Add(e.strLen(d)))
		switch {
		case g(st, "k").Eq(K(-1)):
			e.dataAlarm(st, d, "data", at, "writes %s before the first operand", e.valString(d))
			return nil
		case !e.entails(st, e.n(st, g(st, "N").Sub(g(st, "lines")).AddK(-1))):
			e.dataAlarm(st, d, "excess", at, "writes %s although %s lines have been written already and N is %s", e.valString(d), e.linString(g(st, "lines")), e.linString(g(st, "N")))
			return nil
		case !e.entails(st, e.n(st, e.strLen(src).Sub(to))) || e.strKnown(st, d, e.subStr(src, wr, to)) != 1:
			e.dataAlarm(st, d, "data", at, "writes %s, but the next data are those of %s from %s", e.valString(d), e.valString(src), e.linString(wr))
			return nil
		}
		st.Ghost["wr"] = to
		ls := g(st, "ls")
		nx := LA(e.fnAtom("next", 'i', src, ls, nl))
		has := e.evalB(st, e.boolTerm("hasdelim", src, ls, nl))
		switch {
		case has == 1 && e.proveEq(st, e.n(st, to.Sub(nx).AddK(-1))):
			st.Ghost["lines"] = e.n(st, g(st, "lines").AddK(1))
			st.Ghost["ls"], st.Ghost["part"] = to, BoolV{bFalse}
		case has == 1 && e.entails(st, e.n(st, nx.Sub(to))), has == 0:
			// part of a line: the first newline from here is the first one from there
			ss := e.assume(st, e.boolTerm("hasdelim", src, to, nl), has == 1)
			if len(ss) != 1 {
				return nil
			}
			st = ss[0]
			if has == 1 && !e.addEq(st, nx.Sub(LA(e.fnAtom("next", 'i', src, to, nl)))) {
				return nil
			}
			st.Ghost["ls"], st.Ghost["part"] = to, BoolV{bTrue}
		default:
			e.dataAlarm(st, d, "data", at, "writes %s, of which it is not known how many lines it holds", e.valString(d))
			return nil
		}
		collapse(st)
		return []*State{st}
	}
	e.onWrite = func(st *State, w WriteEv) []*State {
		if w.Kind != "stdout" || isBoolT(st.Ghost["fail"]) {
			return []*State{st}
		}
		if fin, ok := a.fin(st); !ok {
			return nil
		} else if !fin {
			e.alarm(st, "args", w.At, "writes before looking at every argument")
			return nil
		}
		return write(st, e.normStr(st, w.Data), w.At)
	}
	e.onExit = func(st *State, code Val, at ssa.Instruction) {
		if isBoolT(st.Ghost["fail"]) {
			return
		}
		cl := e.n(st, e.asLin(code))
		fin, ok := a.fin(st)
		if !ok {
			return
		}
		if !e.entailsEq(st, cl) {
			// wrong arguments: nothing was written
			if e.entailsEq(st, g(st, "k").AddK(1)) {
				return
			}
			e.alarm(st, "status", at, "exits with %s although every operand could be read", e.linString(cl))
			return
		}
		if !fin {
			e.alarm(st, "args", at, "exits before looking at every argument")
			return
		}
		e.nObl++
		if !resolve(st) {
			return
		}
		if !complete(st) {
			e.alarm(st, "incomplete", at, "exits although operand %s has not been written as far as line %s or its end (lines %s, bytes %s)", e.linString(g(st, "k")), e.linString(g(st, "N")), e.linString(g(st, "lines")), e.linString(g(st, "wr")))
			return
		}
		for _, s := range e.assume(st.clone(), single(st), true) {
			if e.proveEq(s, g(s, "k")) {
				continue
			}
			begin(s)
			if resolve(s) && !complete(s) {
				e.alarm(s, "incomplete", at, "exits although the only operand has not been written")
			}
		}
		for _, s := range e.assume(st, single(st), false) {
			if !e.proveEq(s, e.n(s, g(s, "k").AddK(1).Sub(a.nops()))) {
				e.alarm(s, "incomplete", at, "exits after operand %s of %s", e.linString(g(s, "k").AddK(1)), e.linString(e.n(s, a.nops())))
			}
		}
	}
	runMain(e, "cmd/head", func(st *State) {
		a.prep(st)
		st.Ghost["k"] = K(-1)
		st.Ghost["N"] = K(10)
		st.Ghost["src"], st.Ghost["exp"] = StrV{}, StrV{}
		st.Ghost["wr"], st.Ghost["ls"], st.Ghost["lines"] = K(0), K(0), K(0)
		st.Ghost["fail"], st.Ghost["instd"] = BoolV{bFalse}, BoolV{bFalse}
		st.Ghost["insrc"], st.Ghost["part"] = BoolV{bFalse}, BoolV{bFalse}
		st.Ghost["done"] = BoolV{bTrue}
	})
}

func init() {
	register(&Prop{
		ID:   "C10",
		Pats: []string{"./cmd/head"},
		Rule: "A ghost run follows what head writes: the header of each operand where there are several, then the operand's bytes from its start, line by line, up to N newline-terminated lines or its end; every write has to continue it and it has to be at its end when head exits without a failed open or read.",
		Tasks: func(p *Program) []Task {
			return []Task{{Strict: true, Name: "head", Run: headTask, MergeCap: 64}}
		},
	})
}
