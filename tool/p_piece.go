package main

// C17: the piece table against a plain byte sequence. The harness makes a table over a symbolic
// text, applies a history of insertions and deletions with symbolic positions, lengths and
// texts, and compares what String gives with the term the same edits give on the text.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// splitAt divides a text at a position; a state for every part the position can fall in.
func (e *Engine) splitAt(st *State, text StrV, at Lin) []SV {
	var out []SV
	text = e.normStr(st, text)
	pre := K(0)
	cur := st
	for i, p := range text.P {
		part := StrV{[]SPart{p}}
		n := e.strLen(part)
		in := bGe(pre.Add(n).Sub(at))
		for _, s := range e.assume(cur.clone(), in, true) {
			k := e.n(s, at.Sub(pre))
			l := SCat(StrV{text.P[:i]}, e.subStr(part, K(0), k))
			r := SCat(e.subStr(part, k, n), StrV{text.P[i+1:]})
			out = append(out, SV{s, TupleV{e.normStr(s, l), e.normStr(s, r)}})
		}
		ss := e.assume(cur, in, false)
		if len(ss) != 1 {
			return out
		}
		cur = ss[0]
		pre = pre.Add(n)
	}
	if e.addEq(cur, e.n(cur, at.Sub(pre))) {
		out = append(out, SV{cur, TupleV{text, StrV{}}})
	}
	return out
}

func (p *Program) extType(pkg, name string) types.Type {
	q := p.Prog.ImportedPackage(pkg)
	if q == nil {
		panic(giveUp{"package " + pkg + " is not loaded"})
	}
	t := q.Type(name)
	if t == nil {
		panic(giveUp{"no type " + pkg + "." + name})
	}
	return t.Type()
}

func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, u := range []types.Type{types.NewPointer(t), t} {
		ms := p.Prog.MethodSets.MethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// pieceHistory runs every history of n edits.
func pieceHistory(n int, zero, between bool) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 10
		pkg := e.P.Pkgs[repoModule+"/pkg/txt"]
		if pkg == nil {
			panic(giveUp{"package pkg/txt not found"})
		}
		mk, ty := pkg.Func("NewPieceTable"), pkg.Type("PieceTable")
		if mk == nil || ty == nil {
			panic(giveUp{"the piece table is not there"})
		}
		ins, del, str := e.P.method(ty.Type(), "Insert"), e.P.method(ty.Type(), "Delete"), e.P.method(ty.Type(), "String")
		if ins == nil || del == nil || str == nil {
			panic(giveUp{"the piece table's methods are not there"})
		}
		st0 := e.newState()
		for _, st := range e.runInit(st0, pkg) {
			var text StrV
			var pts []SV
			if zero {
				id := e.alloc(st, &Obj{V: e.zero(st, ty.Type()), Typ: ty.Type()})
				pts = one(st, PtrV{Obj: id})
			} else {
				text = SA(e.fnAtom("text", 's'))
				rid := e.alloc(st, &Obj{V: ModelV{"strings.Reader", map[string]Val{"content": text, "pos": K(0), "kind": SC("mem"), "name": StrV{}}}})
				rd := IfaceV{types.NewPointer(e.P.extType("strings", "Reader")), PtrV{Obj: rid}}
				for _, r := range e.call(st, mk, []Val{rd, e.strLen(text)}, nil, nil) {
					id := e.alloc(r.St, &Obj{V: r.V, Typ: ty.Type()})
					pts = append(pts, SV{r.St, PtrV{Obj: id}})
				}
			}
			var work []*State
			for _, r := range pts {
				r.St.Ghost["pt"], r.St.Ghost["text"] = r.V, text
				work = append(work, r.St)
			}
			for i := 0; i <= n; i++ {
				var next []*State
				for _, s := range work {
					if !between {
						e.pieceCheck(s.clone(), str)
						if i < n {
							next = append(next, e.pieceStep(s, ins, del, i)...)
						}
						continue
					}
					for _, t := range e.pieceCheck(s, str) {
						if i < n {
							next = append(next, e.pieceStep(t, ins, del, i)...)
						}
					}
				}
				work = next
			}
		}
	}
}

func (e *Engine) pieceStep(st *State, ins, del *ssa.Function, i int) []*State {
	text := e.normStr(st, st.Ghost["text"].(StrV))
	n := e.strLen(text)
	at := LA(e.fnAtom("at", 'i', K(int64(i))))
	if !e.addGe(st, at) || !e.addGe(st, e.n(st, n.Sub(at))) {
		return nil
	}
	var out []*State
	d := st.clone()
	// insertion
	new := SA(e.fnAtom("ins", 's', K(int64(i))))
	for _, r := range e.splitAt(st, text, at) {
		lr := r.V.(TupleV)
		s := r.St
		s.note("Insert(t%d, at%d)", i, i)
		s.Ghost["text"] = SCat(lr[0].(StrV), new, lr[1].(StrV))
		sl := e.bytesOf(s, new)
		for _, q := range e.call(s, ins, []Val{s.Ghost["pt"], sl, e.n(s, at)}, nil, nil) {
			// the caller may reuse what it gave
			if x, ok := sl.(SliceV); ok && q.St.Heap[x.Arr] != nil {
				o := *q.St.Heap[x.Arr]
				o.Arr = &ArrC{Elem: o.Arr.Elem, Segs: []Seg{{Kind: 'b', V: SA(e.fnAtom("reused", 's', K(int64(i)))), Len: e.strLen(new)}}}
				q.St.Heap[x.Arr] = &o
			}
			out = append(out, q.St)
		}
	}
	// deletion
	k := LA(e.fnAtom("dlen", 'i', K(int64(i))))
	if !e.addGe(d, k) {
		return out
	}
	for _, r := range e.splitAt(d, text, at) {
		lr := r.V.(TupleV)
		right := lr[1].(StrV)
		past := bGe(k.Sub(e.strLen(right)))
		for _, s := range e.assume(r.St.clone(), past, true) {
			s.Ghost["text"] = lr[0]
			s.note("Delete(%d bytes or more, at%d)", i, i)
			for _, q := range e.call(s, del, []Val{s.Ghost["pt"], e.n(s, k), e.n(s, at)}, nil, nil) {
				out = append(out, q.St)
			}
		}
		for _, s := range e.assume(r.St, past, false) {
			for _, x := range e.splitAt(s, right, k) {
				t := x.St
				t.note("Delete(n%d, at%d)", i, i)
				t.Ghost["text"] = e.normStr(t, SCat(lr[0].(StrV), x.V.(TupleV)[1].(StrV)))
				for _, q := range e.call(t, del, []Val{t.Ghost["pt"], e.n(t, k), e.n(t, at)}, nil, nil) {
					out = append(out, q.St)
				}
			}
		}
	}
	return out
}

// canonText leaves out parts known to be empty and joins neighbouring parts of the same string.
func (e *Engine) canonText(st *State, s StrV) StrV {
	s = e.normStr(st, s)
	type cut struct {
		base   StrV
		lo, hi Lin
	}
	var cs []cut
	for _, p := range s.P {
		part := StrV{[]SPart{p}}
		n := e.strLen(part)
		if e.entailsEq(st, e.n(st, n)) {
			continue
		}
		c := cut{part, K(0), n}
		if a, ok := part.Atom(); ok {
			if ai := e.atoms[a]; ai.Fn == "sub" {
				c = cut{ai.Args[0].(StrV), ai.Args[1].(Lin), ai.Args[2].(Lin)}
				for len(c.base.P) > 1 {
					l := e.strLen(StrV{c.base.P[:1]})
					if !e.entails(st, e.n(st, c.lo.Sub(l))) {
						break
					}
					c = cut{StrV{c.base.P[1:]}, c.lo.Sub(l), c.hi.Sub(l)}
				}
				for n := len(c.base.P); n > 1; n-- {
					if !e.entails(st, e.n(st, e.strLen(StrV{c.base.P[:n-1]}).Sub(c.hi))) {
						break
					}
					c.base = StrV{c.base.P[:n-1]}
				}
			}
		}
		if k := len(cs); k > 0 && keyOf(cs[k-1].base) == keyOf(c.base) && e.entailsEq(st, e.n(st, cs[k-1].hi.Sub(c.lo))) {
			cs[k-1].hi = c.hi
			continue
		}
		cs = append(cs, c)
	}
	var out StrV
	for _, c := range cs {
		if e.entailsEq(st, e.n(st, c.lo)) && e.entailsEq(st, e.n(st, c.hi.Sub(e.strLen(c.base)))) {
			out = SCat(out, c.base)
		} else {
			out = SCat(out, e.subStr(c.base, c.lo, c.hi))
		}
	}
	return out
}

// sameText tells whether two strings are known to be equal.
func (e *Engine) sameText(st *State, a, b StrV) bool {
	a, b = e.canonText(st, a), e.canonText(st, b)
	if e.strKnown(st, a, b) == 1 {
		return true
	}
	if len(a.P) != len(b.P) {
		return false
	}
	for i := range a.P {
		x, y := StrV{a.P[i : i+1]}, StrV{b.P[i : i+1]}
		if e.strKnown(st, x, y) == 1 {
			continue
		}
		p, ok := x.Atom()
		q, ok2 := y.Atom()
		if !ok || !ok2 || e.atoms[p].Fn != "sub" || e.atoms[q].Fn != "sub" {
			return false
		}
		u, v := e.atoms[p].Args, e.atoms[q].Args
		if keyOf(u[0]) != keyOf(v[0]) || !e.entailsEq(st, e.n(st, u[1].(Lin).Sub(v[1].(Lin)))) || !e.entailsEq(st, e.n(st, u[2].(Lin).Sub(v[2].(Lin)))) {
			return false
		}
	}
	return true
}

func (e *Engine) pieceCheck(st *State, str *ssa.Function) (out []*State) {
	arg := st.Ghost["pt"]
	if _, ptr := str.Signature.Recv().Type().(*types.Pointer); !ptr {
		rs := e.load(st, arg.(PtrV))
		st, arg = rs[0].St, rs[0].V
	}
	for _, r := range e.call(st, str, []Val{arg}, nil, nil) {
		e.nObl++
		out = append(out, r.St)
		e.sites["text compared"]++
		want := e.normStr(r.St, r.St.Ghost["text"].(StrV))
		got, ok := r.V.(StrV)
		if ok && e.sameText(r.St, got, want) {
			continue
		}
		e.alarm(r.St, "text", lastInstr(str), "the table holds %s; the edits give %s", e.valString(e.nv(r.St, r.V)), e.valString(want))
	}
	return out
}

func init() {
	register(&Prop{
		ID:    "C17",
		Pats:  []string{"./pkg/txt"},
		Rule:  "Every history of up to three insertions and deletions, with symbolic text, positions within bounds and lengths, of a piece table over a symbolic text (and of a zero table) is interpreted abstractly; the term that String yields after each edit must equal the term that the edits denote on a plain byte sequence, and no index, slice, dereference or panic site may be reachable with a failing condition.",
		Trust: []string{"the models of bytes.Buffer, bytes.Reader and strings.Reader; the original's io.ReaderAt returns the bytes of one fixed text"},
		Tasks: func(p *Program) []Task {
			return []Task{
				{Name: "edits", Peeled: true, Levels: []int{16}, PeelCap: 3000, Run: pieceHistory(3+deeper(), false, false)},
				{Name: "edits of a zero table", Peeled: true, Levels: []int{16}, PeelCap: 3000, Run: pieceHistory(3, true, false)},
				{Name: "edits, read in between", Peeled: true, Levels: []int{16}, PeelCap: 3000, Run: pieceHistory(2, false, true)},
			}
		},
	})
}
