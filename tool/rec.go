package main

// Recursive functions: induction on the depth of the recursion, with the weakest contract.

import (
	"golang.org/x/tools/go/ssa"
)

// recursive reports whether fn can reach itself through static calls within the repository.
func (e *Engine) recursive(fn *ssa.Function) bool {
	if r, ok := e.recMemo[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || len(g.Blocks) == 0 || g.Pkg == nil || !isRepoPath(g.Pkg.Pkg.Path()) {
					continue
				}
				if g == fn {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	r := walk(fn)
	if e.recMemo == nil {
		e.recMemo = map[*ssa.Function]bool{}
	}
	e.recMemo[fn] = r
	return r
}

// localStores reports whether fn and what it calls write only to memory of their own.
func (e *Engine) localStores(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !ownMemory(x.Addr, map[ssa.Value]bool{}) {
					return false
				}
			case *ssa.MapUpdate:
				if !ownMemory(x.Map, map[ssa.Value]bool{}) {
					return false
				}
			case *ssa.Go, *ssa.Send, *ssa.Select:
				return false
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.Pkg != nil && isRepoPath(g.Pkg.Pkg.Path()) && len(g.Blocks) > 0 && !e.localStores(g, seen) {
					return false
				}
			}
		}
	}
	return true
}

func ownMemory(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.IndexAddr:
		return ownMemory(x.X, seen)
	case *ssa.FieldAddr:
		return ownMemory(x.X, seen)
	case *ssa.Slice:
		return ownMemory(x.X, seen)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !ownMemory(y, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// recCall treats a call of a recursive function: the outermost call is analysed for arbitrary
// arguments (the induction step), inner calls return anything.
func (e *Engine) recCall(st *State, fn *ssa.Function, args []Val, bind []Val, at ssa.Instruction) ([]SV, bool) {
	if e.unroll > 0 || !e.recursive(fn) {
		return nil, false
	}
	if e.depthOf(st, fn) > 0 {
		st.Lossy = "recursion"
		rt := resultType(fn.Signature)
		if rt == nil {
			return one(st, nil), true
		}
		return one(st, e.havoc(st, rt, fn.Name())), true
	}
	if !e.localStores(fn, map[*ssa.Function]bool{}) {
		panic(giveUp{"recursion with side effects: " + fn.String()})
	}
	if _, done := e.recDone[fn]; !done {
		if e.recDone == nil {
			e.recDone = map[*ssa.Function]bool{}
		}
		e.recDone[fn] = true
		s := st.clone()
		s.Frames = nil
		g := s.Ghost
		s.Ghost = map[string]Val{}
		e.gc(s)
		s.Ghost = g
		e.project(s)
		var hs []Val
		for _, p := range fn.Params {
			hs = append(hs, e.havoc(s, p.Type(), p.Name()))
		}
		s.Lossy = "arbitrary arguments"
		n := e.nEvents
		e.call(s, fn, hs, bind, at)
		e.recDone[fn] = e.nEvents == n
	}
	if e.recDone[fn] { // no effects: the induction covers this call as well
		st.Lossy = "recursion"
		rt := resultType(fn.Signature)
		if rt == nil {
			return one(st, nil), true
		}
		return one(st, e.havoc(st, rt, fn.Name())), true
	}
	return nil, false
}
