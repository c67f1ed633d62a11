package main

// Abstract states: facts, heap, call stack and ghost cells; substitution, assumption, entailment.

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Facts struct {
	Ge    []Lin
	Ne    []Lin
	Sne   []StrNe
	Preds map[Atom]bool
	Bits  map[BitVar]bool
}

func newFacts() *Facts {
	return &Facts{Preds: map[Atom]bool{}, Bits: map[BitVar]bool{}}
}
func (f *Facts) clone() *Facts {
	g := &Facts{
		Ge:    f.Ge[:len(f.Ge):len(f.Ge)],
		Ne:    f.Ne[:len(f.Ne):len(f.Ne)],
		Sne:   f.Sne[:len(f.Sne):len(f.Sne)],
		Preds: make(map[Atom]bool, len(f.Preds)),
		Bits:  make(map[BitVar]bool, len(f.Bits)),
	}
	for k, v := range f.Preds {
		g.Preds[k] = v
	}
	for k, v := range f.Bits {
		g.Bits[k] = v
	}
	return g
}

type Deferred struct {
	Call ssa.CallCommon
	Fn   Val
	Args []Val
	Pos  ssa.Instruction
}

type Frame struct {
	Fn     *ssa.Function
	Regs   map[ssa.Value]Val
	Defers []Deferred
	Site   ssa.Instruction // call site in the caller
}

type State struct {
	F      *Facts
	Heap   map[ObjID]*Obj
	Frames []*Frame
	Ghost  map[string]Val
	Trace  *TraceN
	Iter   int
	Sub    *Subst // solved equalities; shared between clones, never modified
	Lossy  string // why the state may describe more than the program can reach ("": it does not)
}

// TraceN is a persistent list of notes on the path that led to a state.
type TraceN struct {
	S    string
	Prev *TraceN
	N    int
}

func (st *State) clone() *State {
	n := &State{F: st.F.clone(), Trace: st.Trace, Iter: st.Iter, Sub: st.Sub, Lossy: st.Lossy}
	n.Heap = make(map[ObjID]*Obj, len(st.Heap)+2)
	for k, v := range st.Heap {
		n.Heap[k] = v
	}
	n.Ghost = make(map[string]Val, len(st.Ghost))
	for k, v := range st.Ghost {
		n.Ghost[k] = v
	}
	n.Frames = append([]*Frame(nil), st.Frames...)
	if k := len(n.Frames); k > 0 {
		n.Frames[k-1] = n.Frames[k-1].clone()
	}
	return n
}

func (f *Frame) clone() *Frame {
	r := &Frame{Fn: f.Fn, Site: f.Site, Defers: f.Defers[:len(f.Defers):len(f.Defers)]}
	r.Regs = make(map[ssa.Value]Val, len(f.Regs)+4)
	for k, v := range f.Regs {
		r.Regs[k] = v
	}
	return r
}

func (st *State) top() *Frame { return st.Frames[len(st.Frames)-1] }

func (st *State) note(format string, args ...interface{}) {
	n := 0
	if st.Trace != nil {
		n = st.Trace.N
	}
	if n > 60 {
		return
	}
	st.Trace = &TraceN{S: fmt.Sprintf(format, args...), Prev: st.Trace, N: n + 1}
}

func (st *State) traceStrings() []string {
	var r []string
	for t := st.Trace; t != nil; t = t.Prev {
		r = append(r, t.S)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- atoms in values

func (e *Engine) eachAtom(v Val, f func(Atom)) {
	switch v := v.(type) {
	case Lin:
		for _, t := range v.T {
			e.atomDeep(t.A, f)
		}
	case StrV:
		for _, p := range v.P {
			if p.V {
				e.atomDeep(p.A, f)
			}
		}
	case BoolV:
		e.eachAtomB(v.E, f)
	case PtrV:
		for _, p := range v.Path {
			if p.IsI {
				e.eachAtom(p.Idx, f)
			}
		}
	case NodeV:
		e.eachAtom(v.K, f)
		for _, p := range v.Path {
			if p.IsI {
				e.eachAtom(p.Idx, f)
			}
		}
	case SliceV:
		e.eachAtom(v.Off, f)
		e.eachAtom(v.Len, f)
	case StructV:
		for _, x := range v.F {
			e.eachAtom(x, f)
		}
	case IfaceV:
		if v.T != nil {
			e.eachAtom(v.V, f)
		}
	case FuncV:
		for _, x := range v.Bind {
			e.eachAtom(x, f)
		}
	case OpqV:
		e.atomDeep(v.A, f)
	case TupleV:
		for _, x := range v {
			e.eachAtom(x, f)
		}
	case ModelV:
		for _, k := range sortedKeys(v.F) {
			e.eachAtom(v.F[k], f)
		}
	case ErrV:
		e.eachAtom(v.Msg, f)
	case BVV:
		for _, b := range v.Bits {
			for _, x := range b.V {
				e.atomDeep(x.A, f)
			}
		}
	case *MapIter:
		e.eachAtom(v.Str, f)
		e.eachAtom(v.Pos, f)
	}
}
func (e *Engine) eachAtomB(b *BExpr, f func(Atom)) {
	e.eachAtom(b.L, f)
	e.eachAtom(b.A, f)
	e.eachAtom(b.B, f)
	for _, s := range b.Sub {
		e.eachAtomB(s, f)
	}
	if b.K == 'p' {
		e.atomDeep(b.P, f)
	}
	for _, x := range b.X.V {
		e.atomDeep(x.A, f)
	}
}
func (e *Engine) atomDeep(a Atom, f func(Atom)) {
	f(a)
	for _, x := range e.atoms[a].Args {
		e.eachAtom(x, f)
	}
}

// ---- substitution

type Subst struct {
	M    map[Atom]Val
	memo map[Atom]Val
	obj  map[ObjID]ObjID
}

func newSubst() *Subst { return &Subst{M: map[Atom]Val{}, memo: map[Atom]Val{}} }

// atomVal returns the replacement of atom a, or nil if it is unchanged.
func (e *Engine) atomVal(a Atom, s *Subst) Val {
	if v, ok := s.M[a]; ok {
		return v
	}
	ai := e.atoms[a]
	if ai.Fn == "" {
		return nil
	}
	if v, ok := s.memo[a]; ok {
		return v
	}
	changed := false
	args := make([]Val, len(ai.Args))
	for i, x := range ai.Args {
		args[i] = e.subst(x, s)
		if !changed && keyOf(args[i]) != keyOf(x) {
			changed = true
		}
	}
	var r Val
	if changed {
		r = e.term(ai.Fn, ai.Sort, args...)
		if l, ok := r.(Lin); ok {
			if b, ok := l.IsAtom(); ok && ai.HasB && !e.atoms[b].HasB {
				e.atoms[b].HasB, e.atoms[b].Lo, e.atoms[b].Hi = true, ai.Lo, ai.Hi
			}
		}
	}
	s.memo[a] = r
	return r
}

func (e *Engine) substLin(l Lin, s *Subst) Lin {
	var out Lin
	changed := false
	for i, t := range l.T {
		v := e.atomVal(t.A, s)
		if v == nil {
			if changed {
				out = combine(out, 1, LA(t.A), t.K)
			}
			continue
		}
		if !changed {
			changed = true
			out = Lin{C: l.C, T: append([]LT(nil), l.T[:i]...)}
		}
		switch v := v.(type) {
		case Lin:
			out = combine(out, 1, v, t.K)
		case BVV:
			out = combine(out, 1, e.bvToLin(v), t.K)
		default:
			panic(fmt.Sprintf("substLin %T", v))
		}
	}
	if !changed {
		return l
	}
	return out
}

func (e *Engine) substStr(v StrV, s *Subst) StrV {
	changed := false
	for _, p := range v.P {
		if p.V && e.atomVal(p.A, s) != nil {
			changed = true
			break
		}
	}
	if !changed {
		return v
	}
	var parts []StrV
	for _, p := range v.P {
		if p.V {
			if r := e.atomVal(p.A, s); r != nil {
				parts = append(parts, r.(StrV))
				continue
			}
		}
		parts = append(parts, StrV{[]SPart{p}})
	}
	return SCat(parts...)
}

func (e *Engine) substPath(p []PE, s *Subst) []PE {
	for i, x := range p {
		if x.IsI {
			n := e.substLin(x.Idx, s)
			if !n.Eq(x.Idx) {
				q := append([]PE(nil), p...)
				for j := i; j < len(q); j++ {
					if q[j].IsI {
						q[j].Idx = e.substLin(q[j].Idx, s)
					}
				}
				return q
			}
		}
	}
	return p
}

func (e *Engine) substB(b *BExpr, s *Subst) *BExpr {
	switch b.K {
	case 'T', 'F':
		return b
	case 'g':
		return bGe(e.substLin(b.L, s))
	case 'z':
		return bEq0(e.substLin(b.L, s))
	case 's':
		return e.strEq(e.substStr(b.A, s), e.substStr(b.B, s))
	case '!':
		return bNot(e.substB(b.Sub[0], s))
	case '&':
		var n []*BExpr
		for _, x := range b.Sub {
			n = append(n, e.substB(x, s))
		}
		return bAnd(n...)
	case 'p':
		if v := e.atomVal(b.P, s); v != nil {
			return v.(BoolV).E
		}
		return b
	case 'x':
		return bBit(e.substBit(b.X, s))
	}
	return b
}

func (e *Engine) substBit(x BitX, s *Subst) BitX {
	changed := false
	for _, v := range x.V {
		if e.atomVal(v.A, s) != nil {
			changed = true
		}
	}
	if !changed {
		return x
	}
	r := BitX{C: x.C}
	for _, v := range x.V {
		nv := e.atomVal(v.A, s)
		if nv == nil {
			r = bxXor(r, BitX{V: []BitVar{v}})
			continue
		}
		r = bxXor(r, e.bitOf(nv, v.I))
	}
	return r
}

func (e *Engine) bitOf(v Val, i int) BitX {
	switch v := v.(type) {
	case Lin:
		if v.IsK() {
			return BitX{C: uint64(v.C)>>uint(i)&1 == 1}
		}
		if a, ok := v.IsAtom(); ok {
			return BitX{V: []BitVar{{a, i}}}
		}
		return BitX{V: []BitVar{{e.fnAtom("lin", 'i', v), i}}}
	case BVV:
		if i < len(v.Bits) {
			return v.Bits[i]
		}
		return BitX{}
	}
	panic("bitOf")
}

func (e *Engine) subst(v Val, s *Subst) Val {
	switch v := v.(type) {
	case Lin:
		return e.substLin(v, s)
	case StrV:
		return e.substStr(v, s)
	case BoolV:
		return BoolV{e.substB(v.E, s)}
	case PtrV:
		return PtrV{s.objOf(v.Obj), e.substPath(v.Path, s)}
	case NodeV:
		return NodeV{s.objOf(v.List), e.substLin(v.K, s), e.substPath(v.Path, s)}
	case SliceV:
		return SliceV{s.objOf(v.Arr), e.substLin(v.Off, s), e.substLin(v.Len, s), v.Max}
	case MapV:
		return MapV{s.objOf(v.Obj)}
	case ChanV:
		return ChanV{s.objOf(v.Obj)}
	case StructV:
		n := make([]Val, len(v.F))
		for i, x := range v.F {
			n[i] = e.subst(x, s)
		}
		return StructV{n}
	case IfaceV:
		if v.T == nil {
			return v
		}
		return IfaceV{v.T, e.subst(v.V, s)}
	case FuncV:
		if len(v.Bind) == 0 {
			return v
		}
		n := make([]Val, len(v.Bind))
		for i, x := range v.Bind {
			n[i] = e.subst(x, s)
		}
		return FuncV{v.Fn, n, v.Ext}
	case OpqV:
		if r := e.atomVal(v.A, s); r != nil {
			if o, ok := r.(OpqV); ok {
				return OpqV{o.A, v.T}
			}
			return r
		}
		return v
	case TupleV:
		n := make(TupleV, len(v))
		for i, x := range v {
			n[i] = e.subst(x, s)
		}
		return n
	case ModelV:
		n := make(map[string]Val, len(v.F))
		for k, x := range v.F {
			n[k] = e.subst(x, s)
		}
		return ModelV{v.Kind, n}
	case ErrV:
		return ErrV{v.Kind, e.substStr(v.Msg, s)}
	case BVV:
		n := make([]BitX, len(v.Bits))
		for i, x := range v.Bits {
			n[i] = e.substBit(x, s)
		}
		return BVV{n}
	case *MapIter:
		n := *v
		n.Map = s.objOf(v.Map)
		n.Str = e.substStr(v.Str, s)
		n.Pos = e.substLin(v.Pos, s)
		return &n
	case nil:
		return nil
	}
	panic(fmt.Sprintf("subst %T", v))
}

func (s *Subst) objOf(o ObjID) ObjID {
	if s.obj == nil {
		return o
	}
	if n, ok := s.obj[o]; ok {
		return n
	}
	return o
}

func (e *Engine) substSum(m *Summary, s *Subst) *Summary {
	if m == nil {
		return nil
	}
	n := &Summary{Idx: m.Idx, Atoms: m.Atoms, Bot: m.Bot}
	if len(m.Objs) > 0 {
		n.Objs = map[ObjID]*Obj{}
		for id, o := range m.Objs {
			n.Objs[s.objOf(id)] = e.substObj(o, s)
		}
	}
	n.K = e.subst(m.K, s)
	n.V = e.subst(m.V, s)
	for _, l := range m.Ge {
		n.Ge = append(n.Ge, e.substLin(l, s))
	}
	for _, l := range m.Ne {
		n.Ne = append(n.Ne, e.substLin(l, s))
	}
	for _, l := range m.Sne {
		n.Sne = append(n.Sne, StrNe{e.substStr(l.A, s), e.substStr(l.B, s)})
	}
	for _, p := range m.Preds {
		if v := e.atomVal(p.A, s); v != nil {
			b := v.(BoolV).E
			want := p.V
			if b.K == '!' {
				b, want = b.Sub[0], !want
			}
			if b.K == 'p' {
				n.Preds = append(n.Preds, PredF{b.P, want})
			}
			continue
		}
		n.Preds = append(n.Preds, p)
	}
	return n
}

func (e *Engine) substObj(o *Obj, s *Subst) *Obj {
	n := &Obj{Typ: o.Typ, Site: o.Site, Rep: o.Rep, MayNil: o.MayNil}
	if o.Arr != nil {
		a := &ArrC{Elem: o.Arr.Elem}
		for _, g := range o.Arr.Segs {
			g.Len = e.substLin(g.Len, s)
			g.From = e.substLin(g.From, s)
			g.V = e.subst(g.V, s)
			g.Sum = e.substSum(g.Sum, s)
			a.Segs = append(a.Segs, g)
		}
		n.Arr = a
	}
	if o.Map != nil {
		m := *o.Map
		m.N = e.substLin(m.N, s)
		m.Known = nil
		for _, k := range o.Map.Known {
			m.Known = append(m.Known, MEntry{e.subst(k.K, s), e.subst(k.V, s), k.Wit})
		}
		m.Rest = e.substSum(m.Rest, s)
		n.Map = &m
	}
	if o.List != nil {
		l := *o.List
		l.Count = e.substLin(l.Count, s)
		l.Over = nil
		for _, w := range o.List.Over {
			l.Over = append(l.Over, NodeW{e.substLin(w.K, s), e.subst(w.V, s)})
		}
		n.List = &l
	}
	if o.V != nil {
		n.V = e.subst(o.V, s)
	}
	return n
}

// flush rewrites the whole state with its solved equalities, keeping only those on function terms.
func (e *Engine) flush(st *State) {
	if st.Sub == nil {
		return
	}
	s := st.Sub
	for i, f := range st.Frames {
		n := &Frame{Fn: f.Fn, Site: f.Site, Regs: make(map[ssa.Value]Val, len(f.Regs))}
		for k, v := range f.Regs {
			n.Regs[k] = e.subst(v, s)
		}
		for _, d := range f.Defers {
			nd := Deferred{Call: d.Call, Fn: e.subst(d.Fn, s), Pos: d.Pos}
			for _, a := range d.Args {
				nd.Args = append(nd.Args, e.subst(a, s))
			}
			n.Defers = append(n.Defers, nd)
		}
		st.Frames[i] = n
	}
	for k, o := range st.Heap {
		st.Heap[k] = e.substObj(o, s)
	}
	for k, v := range st.Ghost {
		st.Ghost[k] = e.subst(v, s)
	}
	n := newSubst()
	for a, v := range s.M {
		if e.atoms[a].Fn != "" {
			n.M[a] = v
		}
	}
	st.Sub = nil
	if len(n.M) > 0 {
		st.Sub = n
	}
}

func (e *Engine) substFacts(st *State, s *Subst) bool {
	f := st.F
	st.F = newFacts()
	for _, l := range f.Ge {
		n := e.substLin(l, s)
		if n.IsK() {
			if n.C < 0 {
				return false
			}
			continue
		}
		st.F.Ge = append(st.F.Ge, n)
	}
	st.F.Ge = dedupGe(st.F.Ge)
	for _, l := range f.Ne {
		n := e.substLin(l, s)
		if n.IsK() {
			if n.C == 0 {
				return false
			}
			continue
		}
		st.F.Ne = append(st.F.Ne, n)
	}
	for _, n := range f.Sne {
		a, b := e.substStr(n.A, s), e.substStr(n.B, s)
		ok, keep := e.sneCheck(a, b)
		if !ok {
			return false
		}
		if keep {
			st.F.Sne = append(st.F.Sne, StrNe{a, b})
		}
	}
	for a, v := range f.Preds {
		if nv := e.atomVal(a, s); nv != nil {
			b, want := nv.(BoolV).E, v
			if b.K == '!' {
				b, want = b.Sub[0], !want
			}
			switch b.K {
			case 'T':
				if !want {
					return false
				}
			case 'F':
				if want {
					return false
				}
			case 'p':
				if old, ok := st.F.Preds[b.P]; ok && old != want {
					return false
				}
				st.F.Preds[b.P] = want
			}
			continue
		}
		if old, ok := st.F.Preds[a]; ok && old != v {
			return false
		}
		st.F.Preds[a] = v
	}
	for b, v := range f.Bits {
		if nv := e.atomVal(b.A, s); nv != nil {
			x := e.bitOf(nv, b.I)
			if len(x.V) == 0 {
				if x.C != v {
					return false
				}
			} else if len(x.V) == 1 {
				st.F.Bits[x.V[0]] = v != x.C
			}
			continue
		}
		st.F.Bits[b] = v
	}
	return true
}

func dedupGe(ls []Lin) []Lin {
	best := map[string]int{}
	var out []Lin
	for _, l := range ls {
		l = tighten(l)
		k := termKey(l)
		if i, ok := best[k]; ok {
			if l.C < out[i].C {
				out[i] = l
			}
			continue
		}
		best[k] = len(out)
		out = append(out, l)
	}
	return out
}

// sneCheck: ok false when the strings are certainly equal; keep false when certainly different.
func (e *Engine) sneCheck(a, b StrV) (ok, keep bool) {
	q := e.strEq(a, b)
	switch q.K {
	case 'T':
		return false, false
	case 'F':
		return true, false
	}
	return true, true
}

// ---- linear reasoning

// axioms yields what is always true of an atom.
func (e *Engine) axioms(a Atom) []Lin {
	ai := &e.atoms[a]
	if ai.Sort != 'i' {
		return nil
	}
	var r []Lin
	if ai.HasB {
		r = append(r, LA(a).AddK(-ai.Lo), LA(a).Neg().AddK(ai.Hi))
	}
	switch ai.Fn {
	case "len":
		r = append(r, LA(a))
		if b, ok := ai.Args[0].(StrV).Atom(); ok {
			switch e.atoms[b].Fn {
			case "itoa", "oct", "utoa", "quote":
				r = append(r, LA(a).AddK(-1))
			}
		}
	case "nrunes":
		l := e.strLen(ai.Args[0].(StrV))
		r = append(r, LA(a), l.Sub(LA(a)), LA(a).Mul(4).Sub(l))
	case "runelen":
		r = append(r, LA(a).AddK(-1), LA(a).Neg().AddK(4))
	case "strindex":
		r = append(r, LA(a).AddK(1), e.strLen(ai.Args[0].(StrV)).Sub(LA(a)).Sub(e.strLen(ai.Args[1].(StrV))).Add(bigIfNeg(a)))
	}
	if e.axiomHook != nil {
		r = append(r, e.axiomHook(a, ai)...)
	}
	return r
}

func bigIfNeg(a Atom) Lin { return K(1 << 40) }

// relevant collects the facts connected to the atoms of l.
func (e *Engine) relevant(st *State, l Lin, extra []Lin) []Lin {
	seen := map[Atom]bool{}
	var queue []Atom
	push := func(x Lin) {
		for _, t := range x.T {
			if !seen[t.A] {
				seen[t.A] = true
				queue = append(queue, t.A)
			}
		}
	}
	push(l)
	used := make([]bool, len(st.F.Ge))
	usedX := make([]bool, len(extra))
	var out []Lin
	byAtom := st.geIndex()
	for len(queue) > 0 {
		a := queue[0]
		queue = queue[1:]
		for _, ax := range e.axioms(a) {
			out = append(out, ax)
			push(ax)
		}
		for _, i := range byAtom[a] {
			if !used[i] {
				used[i] = true
				out = append(out, st.F.Ge[i])
				push(st.F.Ge[i])
			}
		}
		for i, x := range extra {
			if !usedX[i] && x.Has(a) {
				usedX[i] = true
				out = append(out, x)
				push(x)
			}
		}
	}
	return out
}

func (st *State) geIndex() map[Atom][]int {
	m := make(map[Atom][]int)
	for i, l := range st.F.Ge {
		for _, t := range l.T {
			m[t.A] = append(m[t.A], i)
		}
	}
	return m
}

// entails reports whether l >= 0 follows from the facts.
func (e *Engine) entails(st *State, l Lin) bool { return e.entailsX(st, l, nil) }

func (e *Engine) entailsX(st *State, l Lin, extra []Lin) bool {
	l = e.n(st, l)
	if l.IsK() {
		return l.C >= 0
	}
	l = tighten(l)
	// quick syntactic check
	for _, g := range st.F.Ge {
		if sameTerms(g, l) && g.C <= l.C {
			return true
		}
	}
	e.nEntail++
	cs := e.relevant(st, l, extra)
	cs = append(cs, l.Neg().AddK(-1))
	return e.infeasible(cs)
}

func (e *Engine) infeasible(cs []Lin) bool {
	k := setHash(cs, 1)
	if r, ok := e.memoInf[k]; ok {
		return r
	}
	r := infeasible(cs)
	e.memoInf[k] = r
	return r
}

func sameTerms(a, b Lin) bool {
	if len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func (e *Engine) entailsEq(st *State, l Lin) bool {
	l = e.n(st, l)
	if l.IsK() {
		return l.C == 0
	}
	return e.entails(st, l) && e.entails(st, l.Neg())
}

func (e *Engine) entailsNe(st *State, l Lin) bool {
	l = e.n(st, l)
	if l.IsK() {
		return l.C != 0
	}
	for _, n := range st.F.Ne {
		if n.Eq(l) || n.Neg().Eq(l) {
			return true
		}
	}
	return e.entails(st, l.AddK(-1)) || e.entails(st, l.Neg().AddK(-1))
}

// boundsOf returns the range of l under the facts.
func (e *Engine) boundsOf(st *State, l Lin, extra []Lin) (lo, hi int64, hasLo, hasHi bool) {
	l = e.n(st, l)
	if l.IsK() {
		return l.C, l.C, true, true
	}
	if e.scratchAtom == 0 {
		e.scratchAtom = e.newAtom("scratch", 'i')
	}
	t := e.scratchAtom
	cs := e.relevant(st, l, extra)
	d := LA(t).Sub(l)
	cs = append(cs, d, d.Neg())
	k := setHash(cs, 2)
	if r, ok := e.memoBnd[k]; ok {
		return r.lo, r.hi, r.hasLo, r.hasHi
	}
	lo, hi, hasLo, hasHi = bounds(cs, t)
	e.memoBnd[k] = bnd{lo, hi, hasLo, hasHi}
	return
}

// addGe assumes l >= 0; false if that is impossible.
func (e *Engine) addGe(st *State, l Lin) bool {
	if e.nAdd++; e.nAdd&1023 == 0 {
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			panic(giveUp{"time budget exhausted"})
		}
		if memHigh.Load() {
			panic(giveUp{"memory budget exhausted"})
		}
	}
	l = e.n(st, l)
	if l.IsK() {
		return l.C >= 0
	}
	l = tighten(l)
	for _, g := range st.F.Ge {
		if sameTerms(g, l) && g.C <= l.C {
			return true
		}
	}
	cs := e.relevant(st, l, nil)
	cs = append(cs, l)
	if e.infeasible(cs) {
		return false
	}
	// drop weaker versions
	var out []Lin
	for _, g := range st.F.Ge {
		if !sameTerms(g, l) {
			out = append(out, g)
		}
	}
	st.F.Ge = append(out, l)
	// l >= 0 with -l >= 0 known is an equality
	if e.entails(st, l.Neg()) {
		return e.solveEq(st, l)
	}
	return e.tightenNe(st, l)
}

// addGes assumes several inequalities at once.
func (e *Engine) addGes(st *State, ls []Lin) bool {
	if len(ls) < 3 {
		for _, l := range ls {
			if !e.addGe(st, l) {
				return false
			}
		}
		return true
	}
	var all Lin
	var eqs []Lin
	seen := map[Atom]bool{}
	for _, l := range ls {
		l = e.n(st, l)
		if l.IsK() {
			if l.C < 0 {
				return false
			}
			continue
		}
		l = tighten(l)
		known := false
		for _, g := range st.F.Ge {
			if sameTerms(g, l) && g.C <= l.C {
				known = true
				break
			}
			if oppositeTerms(g, l) && g.C+l.C <= 0 {
				eqs = append(eqs, l)
			}
		}
		if known {
			continue
		}
		st.F.Ge = append(append([]Lin(nil), st.F.Ge...), l)
		for _, t := range l.T {
			if !seen[t.A] {
				seen[t.A] = true
				all.T = append(all.T, LT{t.A, 1})
			}
		}
	}
	if len(all.T) == 0 {
		return true
	}
	if e.infeasible(e.relevant(st, all, nil)) {
		return false
	}
	for _, l := range eqs {
		l = e.n(st, l)
		if l.IsK() {
			if l.C != 0 {
				return false
			}
			continue
		}
		if !e.addEq(st, l) {
			return false
		}
	}
	return true
}

func shares(a, b Lin) bool {
	for _, t := range a.T {
		if b.Has(t.A) {
			return true
		}
	}
	return false
}

func (e *Engine) tightenNe(st *State, l Lin) bool {
	for again := true; again; {
		again = false
		for i, n := range st.F.Ne {
			if !shares(n, l) {
				continue
			}
			var t Lin
			if e.entails(st, n) {
				t = n.AddK(-1)
			} else if e.entails(st, n.Neg()) {
				t = n.Neg().AddK(-1)
			} else {
				continue
			}
			ne := append([]Lin(nil), st.F.Ne[:i]...)
			st.F.Ne = append(ne, st.F.Ne[i+1:]...)
			if !e.addGe(st, t) {
				return false
			}
			again = true
			break
		}
	}
	return true
}

// solveEq eliminates a variable using l == 0, which already follows from the facts.
func (e *Engine) solveEq(st *State, l Lin) bool {
	// prefer the newest variable with a unit coefficient
	for i := len(l.T) - 1; i >= 0; i-- {
		t := l.T[i]
		ai := e.atoms[t.A]
		if ai.Fn != "" && !(ai.Fn == "next" && e.unroll > 0) || e.fixed[t.A] || (t.K != 1 && t.K != -1) {
			continue
		}
		var rest Lin
		if t.K == 1 {
			rest = combine(l, -1, LA(t.A), 1)
		} else {
			rest = combine(l, 1, LA(t.A), 1)
		}
		occurs := false
		e.eachAtom(rest, func(a Atom) {
			if a == t.A {
				occurs = true
			}
		})
		if occurs {
			continue
		}
		if !e.addSub(st, t.A, rest) {
			return false
		}
		if ai.HasB {
			if !e.addGe(st, rest.AddK(-ai.Lo)) || !e.addGe(st, rest.Neg().AddK(ai.Hi)) {
				return false
			}
		}
		return e.recheckNe(st)
	}
	return true
}

func (e *Engine) recheckNe(st *State) bool {
	for _, n := range st.F.Ne {
		if e.entailsEq(st, n) {
			return false
		}
	}
	return true
}

func (e *Engine) addEq(st *State, l Lin) bool {
	l = e.n(st, l)
	if l.IsK() {
		return l.C == 0
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g > 1 && l.C%g != 0 {
		return false
	}
	cs := e.relevant(st, l, nil)
	cs = append(cs, l, l.Neg())
	if e.infeasible(cs) {
		return false
	}
	for _, n := range st.F.Ne {
		if n.Eq(l) || n.Neg().Eq(l) {
			return false
		}
	}
	st.F.Ge = append(st.F.Ge[:len(st.F.Ge):len(st.F.Ge)], l, l.Neg())
	return e.solveEq(st, l)
}

func (e *Engine) addNe(st *State, l Lin) bool {
	l = e.n(st, l)
	if l.IsK() {
		return l.C != 0
	}
	if e.entails(st, l) {
		return e.addGe(st, l.AddK(-1))
	}
	if e.entails(st, l.Neg()) {
		return e.addGe(st, l.Neg().AddK(-1))
	}
	for _, n := range st.F.Ne {
		if n.Eq(l) || n.Neg().Eq(l) {
			return true
		}
	}
	st.F.Ne = append(st.F.Ne[:len(st.F.Ne):len(st.F.Ne)], l)
	return true
}

// ---- strings

// strEq builds the equality of two strings, decided when it can be from the structure alone.
func (e *Engine) strEq(a, b StrV) *BExpr {
	a, b = stripCommon(a, b)
	ca, oka := a.Const()
	cb, okb := b.Const()
	if oka && okb {
		return bConst(ca == cb)
	}
	if keyOf(a) == keyOf(b) {
		return bTrue
	}
	// constant prefixes or suffixes that clash
	if len(a.P) > 0 && len(b.P) > 0 {
		p, q := a.P[0], b.P[0]
		if !p.V && !q.V && p.C != "" && q.C != "" && p.C[0] != q.C[0] {
			return bFalse
		}
		p, q = a.P[len(a.P)-1], b.P[len(b.P)-1]
		if !p.V && !q.V && p.C[len(p.C)-1] != q.C[len(q.C)-1] {
			return bFalse
		}
	}
	la, lb := e.strLen(a), e.strLen(b)
	if d := la.Sub(lb); d.IsK() && d.C != 0 {
		return bFalse
	}
	if len(b.P) == 0 { // a == ""
		return bEq0(la)
	}
	if len(a.P) == 0 {
		return bEq0(lb)
	}
	// decimal numerals
	if x, ok := a.Atom(); ok && e.atoms[x].Fn == "itoa" && okb {
		if v := parseItoa(cb); v == nil {
			return bFalse
		} else {
			return bEq0(e.atoms[x].Args[0].(Lin).AddK(-*v))
		}
	}
	if x, ok := b.Atom(); ok && e.atoms[x].Fn == "itoa" && oka {
		return e.strEq(b, a)
	}
	if x, ok := a.Atom(); ok {
		if y, ok := b.Atom(); ok && e.atoms[x].Fn == "itoa" && e.atoms[y].Fn == "itoa" {
			return bEq0(e.atoms[x].Args[0].(Lin).Sub(e.atoms[y].Args[0].(Lin)))
		}
	}
	if okb && !oka { // atoms first, for a canonical form
		return &BExpr{K: 's', A: a, B: b}
	}
	if oka {
		return &BExpr{K: 's', A: b, B: a}
	}
	if keyOf(a) > keyOf(b) {
		a, b = b, a
	}
	return &BExpr{K: 's', A: a, B: b}
}

func parseItoa(s string) *int64 {
	var n int64
	if _, err := fmt.Sscanf(s, "%d", &n); err != nil || fmt.Sprint(n) != s {
		return nil
	}
	return &n
}

func stripCommon(a, b StrV) (StrV, StrV) {
	for len(a.P) > 0 && len(b.P) > 0 {
		p, q := a.P[0], b.P[0]
		if p.V && q.V && p.A == q.A {
			a, b = StrV{a.P[1:]}, StrV{b.P[1:]}
			continue
		}
		if !p.V && !q.V {
			n := 0
			for n < len(p.C) && n < len(q.C) && p.C[n] == q.C[n] {
				n++
			}
			if n == 0 {
				break
			}
			a, b = dropFront(a, n), dropFront(b, n)
			continue
		}
		break
	}
	for len(a.P) > 0 && len(b.P) > 0 {
		p, q := a.P[len(a.P)-1], b.P[len(b.P)-1]
		if p.V && q.V && p.A == q.A {
			a, b = StrV{a.P[:len(a.P)-1]}, StrV{b.P[:len(b.P)-1]}
			continue
		}
		if !p.V && !q.V {
			n := 0
			for n < len(p.C) && n < len(q.C) && p.C[len(p.C)-1-n] == q.C[len(q.C)-1-n] {
				n++
			}
			if n == 0 {
				break
			}
			a, b = dropBack(a, n), dropBack(b, n)
			continue
		}
		break
	}
	return a, b
}
func dropFront(a StrV, n int) StrV {
	c := a.P[0].C[n:]
	if c == "" {
		return StrV{a.P[1:]}
	}
	return StrV{append([]SPart{{C: c}}, a.P[1:]...)}
}
func dropBack(a StrV, n int) StrV {
	k := len(a.P) - 1
	c := a.P[k].C
	c = c[:len(c)-n]
	if c == "" {
		return StrV{a.P[:k]}
	}
	return StrV{append(append([]SPart(nil), a.P[:k]...), SPart{C: c})}
}

func (e *Engine) normStr(st *State, s StrV) StrV {
	if st.Sub == nil {
		return s
	}
	return e.substStr(s, st.Sub)
}

// n normalises a linear form under the state's solved equalities.
func (e *Engine) n(st *State, l Lin) Lin {
	if st.Sub == nil || len(l.T) == 0 {
		return l
	}
	return e.substLin(l, st.Sub)
}

// nv normalises any value.
func (e *Engine) nv(st *State, v Val) Val {
	if st.Sub == nil || v == nil {
		return v
	}
	return e.subst(v, st.Sub)
}

// addSub records that atom x equals v, and rewrites the facts.
func (e *Engine) addSub(st *State, x Atom, v Val) bool {
	one := newSubst()
	one.M[x] = v
	n := newSubst()
	if st.Sub != nil {
		for a, w := range st.Sub.M {
			n.M[a] = e.subst(w, one)
		}
	}
	n.M[x] = v
	st.Sub = n
	return e.substFacts(st, n)
}

// strKnown decides a == b under the facts: 1 yes, 0 no, -1 unknown.
func (e *Engine) strKnown(st *State, a, b StrV) int {
	a, b = e.normStr(st, a), e.normStr(st, b)
	q := e.strEq(a, b)
	switch q.K {
	case 'T':
		return 1
	case 'F':
		return 0
	case 'z':
		if e.entailsEq(st, q.L) {
			return 1
		}
		if e.entailsNe(st, q.L) {
			return 0
		}
		return -1
	}
	a, b = q.A, q.B
	ca := e.strClass(st, keyOf(a))
	cb := ca
	if !ca[keyOf(b)] {
		cb = e.strClass(st, keyOf(b))
	} else {
		return 1
	}
	for _, n := range st.F.Sne {
		na, nb := keyOf(n.A), keyOf(n.B)
		if (ca[na] && cb[nb]) || (cb[na] && ca[nb]) {
			return 0
		}
	}
	d := e.strLen(a).Sub(e.strLen(b))
	if e.entailsNe(st, d) {
		return 0
	}
	if c, ok := b.Const(); ok && len(c) <= 8 {
		if _, ok := a.Atom(); ok {
			all := e.entailsEq(st, d)
			for i := 0; i < len(c); i++ {
				x := e.byteAt(a, K(int64(i))).AddK(-int64(c[i]))
				if e.entailsNe(st, x) {
					return 0
				}
				if all && !e.entailsEq(st, x) {
					all = false
				}
			}
			if all {
				return 1
			}
		}
	}
	return -1
}

// strClass is the set of terms known to be equal to the one of the given key.
func (e *Engine) strClass(st *State, k string) map[string]bool {
	cl := map[string]bool{k: true}
	var eqs [][2]string
	for p, v := range st.F.Preds {
		if v && e.atoms[p].Fn == "streq" {
			ar := e.atoms[p].Args
			eqs = append(eqs, [2]string{keyOf(ar[0]), keyOf(ar[1])})
		}
	}
	for again := true; again; {
		again = false
		for _, q := range eqs {
			if cl[q[0]] != cl[q[1]] {
				cl[q[0]], cl[q[1]] = true, true
				again = true
			}
		}
	}
	return cl
}

func (e *Engine) addStrEq(st *State, a, b StrV) bool {
	a, b = e.normStr(st, a), e.normStr(st, b)
	if e.strKnown(st, a, b) == 0 {
		return false
	}
	q := e.strEq(a, b)
	switch q.K {
	case 'T':
		return true
	case 'F':
		return false
	case 'z':
		if !e.addEq(st, q.L) {
			return false
		}
		for _, x := range []StrV{a, b} { // an empty string: replace its atoms
			for _, p := range x.P {
				if p.V && e.atoms[p.A].Fn != "itoa" && e.entailsEq(st, e.strLen(SA(p.A))) {
					if !e.addSub(st, p.A, StrV{}) {
						return false
					}
				}
			}
		}
		return true
	}
	a, b = q.A, q.B
	if !e.addEq(st, e.strLen(a).Sub(e.strLen(b))) {
		return false
	}
	a, b = e.normStr(st, a), e.normStr(st, b)
	solve := func(x, y StrV) (bool, bool) {
		at, ok := x.Atom()
		if !ok || e.occursStr(at, y) || e.fixed[at] {
			return false, false
		}
		_, isC := y.Const()
		if e.atoms[at].Fn == "" || isC {
			return true, e.addSub(st, at, y)
		}
		return false, false
	}
	if done, ok := solve(a, b); done {
		return ok
	}
	if done, ok := solve(b, a); done {
		return ok
	}
	q = e.strEq(a, b)
	if q.K == 's' {
		st.F.Preds[e.fnAtom("streq", 'b', q.A, q.B)] = true
	}
	return q.K != 'F'
}

func (e *Engine) occursStr(x Atom, b StrV) bool {
	found := false
	e.eachAtom(b, func(a Atom) {
		if a == x {
			found = true
		}
	})
	return found
}

func (e *Engine) addStrNe(st *State, a, b StrV) bool {
	a, b = e.normStr(st, a), e.normStr(st, b)
	switch e.strKnown(st, a, b) {
	case 1:
		return false
	case 0:
		return true
	}
	q := e.strEq(a, b)
	if q.K == 'z' {
		return e.addNe(st, q.L)
	}
	if q.K == 'T' {
		return false
	}
	if q.K == 'F' {
		return true
	}
	p := e.fnAtom("streq", 'b', q.A, q.B)
	if st.F.Preds[p] {
		return false
	}
	st.F.Sne = append(st.F.Sne[:len(st.F.Sne):len(st.F.Sne)], StrNe{q.A, q.B})
	return true
}

// ---- booleans

// evalB: 1 true, 0 false, -1 unknown.
func (e *Engine) evalB(st *State, b *BExpr) int {
	if st.Sub != nil {
		b = e.substB(b, st.Sub)
	}
	switch b.K {
	case 'T':
		return 1
	case 'F':
		return 0
	case 'g':
		if e.entails(st, b.L) {
			return 1
		}
		if e.entails(st, b.L.Neg().AddK(-1)) {
			return 0
		}
	case 'z':
		if e.entailsNe(st, b.L) {
			return 0
		}
		if e.entailsEq(st, b.L) {
			return 1
		}
	case 's':
		r := e.strKnown(st, b.A, b.B)
		if r == -1 && st.F.Preds[e.fnAtom("streq", 'b', b.A, b.B)] {
			return 1
		}
		return r
	case '!':
		r := e.evalB(st, b.Sub[0])
		if r >= 0 {
			return 1 - r
		}
	case '&':
		all := 1
		for _, x := range b.Sub {
			switch e.evalB(st, x) {
			case 0:
				return 0
			case -1:
				all = -1
			}
		}
		return all
	case 'p':
		if v, ok := st.F.Preds[b.P]; ok {
			if v {
				return 1
			}
			return 0
		}
	case 'x':
		return e.evalBit(st, b.X)
	}
	return -1
}

func (e *Engine) evalBit(st *State, x BitX) int {
	r := x.C
	for _, v := range x.V {
		b, ok := st.F.Bits[v]
		if !ok {
			return -1
		}
		r = r != b
	}
	if r {
		return 1
	}
	return 0
}

// assume returns the states in which b has value want. st may be modified and reused.
func (e *Engine) assume(st *State, b *BExpr, want bool) []*State {
	if st.Sub != nil {
		b = e.substB(b, st.Sub)
	}
	switch e.evalB(st, b) {
	case 1:
		if want {
			return []*State{st}
		}
		return nil
	case 0:
		if want {
			return nil
		}
		return []*State{st}
	}
	one := func(ok bool) []*State {
		if ok {
			return []*State{st}
		}
		return nil
	}
	switch b.K {
	case 'g':
		if want {
			return one(e.addGe(st, b.L))
		}
		return one(e.addGe(st, b.L.Neg().AddK(-1)))
	case 'z':
		if want {
			return one(e.addEq(st, b.L))
		}
		return one(e.addNe(st, b.L))
	case 's':
		if want {
			return one(e.addStrEq(st, b.A, b.B))
		}
		return one(e.addStrNe(st, b.A, b.B))
	case '!':
		return e.assume(st, b.Sub[0], !want)
	case '&':
		if want {
			sts := []*State{st}
			for _, x := range b.Sub {
				var n []*State
				for _, s := range sts {
					n = append(n, e.assume(s, x, true)...)
				}
				sts = n
			}
			return sts
		}
		var out []*State
		cur := []*State{st}
		for _, x := range b.Sub {
			var next []*State
			for _, s := range cur {
				out = append(out, e.assume(s.clone(), x, false)...)
				next = append(next, e.assume(s, x, true)...)
			}
			cur = next
		}
		return out
	case 'p':
		st.F.Preds[b.P] = want
		ai := e.atoms[b.P]
		if e.predHook != nil {
			return e.predHook(st, b.P, ai, want)
		}
		return []*State{st}
	case 'x':
		if len(b.X.V) == 1 {
			st.F.Bits[b.X.V[0]] = want != b.X.C
			return []*State{st}
		}
		// an exclusive or: split on its first unknown bit
		for _, v := range b.X.V {
			if _, ok := st.F.Bits[v]; !ok {
				s2 := st.clone()
				st.F.Bits[v] = true
				s2.F.Bits[v] = false
				return append(e.assume(st, b, want), e.assume(s2, b, want)...)
			}
		}
	}
	return []*State{st}
}

// feasible checks the linear facts as a whole.
func (e *Engine) feasible(st *State) bool {
	var all Lin
	seen := map[Atom]bool{}
	for _, g := range st.F.Ge {
		for _, t := range g.T {
			if !seen[t.A] {
				seen[t.A] = true
				all = combine(all, 1, LA(t.A), 1)
			}
		}
	}
	return !e.infeasible(e.relevant(st, all, nil))
}

func (e *Engine) factsString(st *State) string {
	var r []string
	for _, l := range st.F.Ge {
		r = append(r, e.linString(l)+" >= 0")
	}
	for _, l := range st.F.Ne {
		r = append(r, e.linString(l)+" != 0")
	}
	if st.Sub != nil {
		for a, v := range st.Sub.M {
			r = append(r, fmt.Sprintf("%s == %s", e.atomName(a), e.valString(v)))
		}
	}
	for _, n := range st.F.Sne {
		r = append(r, e.valString(n.A)+" != "+e.valString(n.B))
	}
	for a, v := range st.F.Preds {
		r = append(r, fmt.Sprintf("%s is %v", e.atomName(a), v))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

type bnd struct {
	lo, hi       int64
	hasLo, hasHi bool
}
