package main

// Reachability over the repository's functions: what is called, referred to, or may be called
// through an interface from a program's main function and package initialisers.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

var ifaceNames = map[string]bool{"String": true, "Error": true, "Write": true, "Read": true, "ReadAt": true, "Close": true, "Len": true, "Less": true, "Swap": true, "Format": true, "GoString": true, "WriteString": true, "WriteTo": true, "ReadFrom": true}

// reach gives the repository functions reachable from the given ones, in a fixed order.
func (p *Program) reach(roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil && f.Parent() == nil && f.Object() == nil {
			return
		}
		if !isRepoFn(f) {
			return
		}
		seen[f] = true
		order = append(order, f)
	}
	for _, r := range roots {
		add(r)
	}
	invoked := map[string]bool{}
	conv := map[types.Type]bool{}
	addMethods := func() {
		for t := range conv {
			ms := p.Prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i)
				n := m.Obj().Name()
				if ifaceNames[n] || invoked[n] {
					add(p.Prog.MethodValue(m))
				}
			}
		}
	}
	for i := 0; ; i++ {
		if i == len(order) {
			n := len(order)
			addMethods()
			if len(order) == n {
				break
			}
		}
		f := order[i]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				switch in := in.(type) {
				case ssa.CallInstruction:
					if c := in.Common(); c.IsInvoke() {
						invoked[c.Method.Name()] = true
					}
				case *ssa.MakeInterface:
					conv[in.X.Type()] = true
				}
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	return order
}

func isRepoFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return isRepoPath(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return isRepoPath(o.Pkg().Path())
	}
	return false
}

// mainReach gives the functions reachable in a program.
func (p *Program) mainReach(path string) []*ssa.Function {
	pkg := p.Pkgs[repoModule+"/"+path]
	if pkg == nil {
		panic(giveUp{"package " + path + " not found"})
	}
	roots := []*ssa.Function{pkg.Func("main"), pkg.Func("init")}
	return p.reach(roots...)
}

// callee gives the full name of a statically called function, "" if it is not known.
func callee(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return ""
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}
