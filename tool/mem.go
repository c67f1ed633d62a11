package main

// The abstract heap: cells, segmented arrays, maps.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// SV is a state with the value an operation produced in it.
type SV struct {
	St *State
	V  Val
}

func one(st *State, v Val) []SV { return []SV{{st, v}} }

func (e *Engine) alloc(st *State, o *Obj) ObjID {
	e.nextObj++
	st.Heap[e.nextObj] = o
	return e.nextObj
}

func isRepoPath(p string) bool { return strings.HasPrefix(p, repoModule) }

// externalStruct reports whether t is a struct type defined outside the repository.
func externalStruct(t types.Type) (string, bool) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok && n.Obj().Pkg() != nil && !isRepoPath(n.Obj().Pkg().Path()) {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name(), true
		}
	}
	return "", false
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -(1 << 31), 1<<31 - 1, true
	}
	return 0, 0, false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	}
	return 64
}

func (e *Engine) zero(st *State, t types.Type) Val {
	if k, ok := externalStruct(t); ok {
		return ModelV{Kind: k, F: map[string]Val{}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{bFalse}
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Info()&types.IsInteger != 0:
			return K(0)
		case u.Kind() == types.UntypedNil:
			return PtrV{}
		case u.Kind() == types.UnsafePointer:
			return PtrV{}
		default:
			return OpqV{A: e.fnAtom("zerofloat", 'o'), T: t}
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Struct:
		s := StructV{make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.zero(st, u.Field(i).Type())
		}
		return s
	case *types.Array:
		id := e.alloc(st, &Obj{Typ: t, Arr: &ArrC{Elem: u.Elem(), Segs: []Seg{{Kind: 'z', Len: K(u.Len())}}}})
		return SliceV{Arr: id, Len: K(u.Len())}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = e.zero(st, u.At(i).Type())
		}
		return r
	}
	panic(fmt.Sprintf("zero %v", t))
}

// havoc makes an unconstrained value of a type.
func (e *Engine) havoc(st *State, t types.Type, name string) Val {
	if k, ok := externalStruct(t); ok {
		return ModelV{Kind: k, F: map[string]Val{"unknown": BoolV{bTrue}}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{e.newBool(name)}
		case u.Info()&types.IsString != 0:
			return e.newStr(name)
		case u.Info()&types.IsInteger != 0:
			if lo, hi, ok := intRange(t); ok {
				return e.newIntIn(name, lo, hi)
			}
			l := e.newInt(name)
			if isUnsigned(t) {
				st.F.Ge = append(st.F.Ge[:len(st.F.Ge):len(st.F.Ge)], l)
			}
			return l
		}
		return OpqV{A: e.newAtom(name, 'o'), T: t}
	case *types.Slice:
		n := e.newInt("len_" + name)
		st.F.Ge = append(st.F.Ge[:len(st.F.Ge):len(st.F.Ge)], n)
		id := e.alloc(st, &Obj{Typ: t, Arr: &ArrC{Elem: u.Elem(), Segs: []Seg{{Kind: 'u', Len: n}}}})
		return SliceV{Arr: id, Len: n}
	case *types.Struct:
		s := StructV{make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.havoc(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return s
	case *types.Array:
		id := e.alloc(st, &Obj{Typ: t, Arr: &ArrC{Elem: u.Elem(), Segs: []Seg{{Kind: 'u', Len: K(u.Len())}}}})
		return SliceV{Arr: id, Len: K(u.Len())}
	case *types.Map:
		n := e.newInt("size_" + name)
		st.F.Ge = append(st.F.Ge[:len(st.F.Ge):len(st.F.Ge)], n)
		id := e.alloc(st, &Obj{Typ: t, Map: &MapC{Key: u.Key(), Val: u.Elem(), N: n, Rest: &Summary{Idx: -1, K: nil, V: nil}}})
		return MapV{id}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = e.havoc(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i))
		}
		return r
	}
	return OpqV{A: e.newAtom(name, 'o'), T: t}
}

// ---- arrays

// elemTerm is the idx-th element of an input array.
func (e *Engine) elemTerm(st *State, name string, t types.Type, idx Lin) Val {
	if _, ok := externalStruct(t); ok {
		return OpqV{A: e.fnAtom("elem:"+name, 'o', idx), T: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.normStr(st, e.term("elem:"+name, 's', idx).(StrV))
		case u.Info()&types.IsInteger != 0:
			v := e.term("elem:"+name, 'i', idx)
			if l, ok := v.(Lin); ok {
				if a, ok := l.IsAtom(); ok {
					if lo, hi, ok := intRange(t); ok && !e.atoms[a].HasB {
						e.atoms[a].Lo, e.atoms[a].Hi, e.atoms[a].HasB = lo, hi, true
					}
				}
			}
			return v
		case u.Info()&types.IsBoolean != 0:
			return e.term("elem:"+name, 'b', idx)
		}
	case *types.Struct:
		s := StructV{make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.elemTerm(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), idx)
		}
		return s
	case *types.Slice:
		// a slice-valued field of an input element: its own input array
		n := e.term("elemlen:"+name, 'i', idx).(Lin)
		key := "inputobj:" + name + "/" + idx.Key()
		id, ok := e.inputObjs[key]
		if !ok {
			e.nextObj++
			id = e.nextObj
			e.inputObjs[key] = id
		}
		if _, ok := st.Heap[id]; !ok {
			st.Heap[id] = &Obj{Typ: t, Arr: &ArrC{Elem: u.Elem(), Segs: []Seg{{Kind: 'i', Name: name + "[" + idx.Key() + "]", Len: n}}}}
		}
		e.addGe(st, n)
		return SliceV{Arr: id, Len: n}
	}
	return OpqV{A: e.fnAtom("elem:"+name, 'o', idx), T: t}
}

// instantiate makes a fresh copy of a summarised element. ok is false if no such element can exist.
func (e *Engine) instantiate(st *State, m *Summary, idx Lin, elem types.Type, keyT types.Type) (k, v Val, ok bool) {
	if m.Bot {
		return nil, nil, false
	}
	if m.V == nil {
		if keyT != nil {
			k = e.havoc(st, keyT, "key")
		}
		return k, e.havoc(st, elem, "elem"), true
	}
	n := e.freshen(m, idx)
	if !e.addGes(st, n.Ge) {
		return nil, nil, false
	}
	for _, l := range n.Ne {
		if !e.addNe(st, l) {
			return nil, nil, false
		}
	}
	for _, x := range n.Sne {
		if !e.addStrNe(st, x.A, x.B) {
			return nil, nil, false
		}
	}
	for _, p := range n.Preds {
		r := e.assume(st, &BExpr{K: 'p', P: p.A}, p.V)
		if len(r) == 0 {
			return nil, nil, false
		}
	}
	for id, o := range n.Objs {
		o.Rep = true
		st.Heap[id] = o
	}
	return n.K, n.V, true
}

// freshen renames the schematic atoms of a summary.
func (e *Engine) freshen(m *Summary, idx Lin) *Summary {
	s := newSubst()
	if m.Idx >= 0 {
		s.M[m.Idx] = idx
	}
	if len(m.Objs) > 0 {
		s.obj = map[ObjID]ObjID{}
		var ids []int
		for id := range m.Objs {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		for _, id := range ids {
			e.nextObj++
			s.obj[ObjID(id)] = e.nextObj
		}
	}
	for _, a := range m.Atoms {
		ai := e.atoms[a]
		n := e.newAtom(ai.Name, ai.Sort)
		e.atoms[n].HasB, e.atoms[n].Lo, e.atoms[n].Hi = ai.HasB, ai.Lo, ai.Hi
		switch ai.Sort {
		case 'i':
			s.M[a] = LA(n)
		case 's':
			s.M[a] = SA(n)
		case 'b':
			s.M[a] = BoolV{&BExpr{K: 'p', P: n}}
		default:
			s.M[a] = OpqV{A: n}
		}
	}
	return e.substSum(m, s)
}

func (e *Engine) segValue(st *State, a *ArrC, g Seg, rel Lin) (Val, bool) {
	switch g.Kind {
	case 'e':
		return g.V, true
	case 'i':
		return e.elemTerm(st, g.Name, a.Elem, rel.Add(g.From)), true
	case 'z':
		return e.zero(st, a.Elem), true
	case 's':
		_, v, ok := e.instantiate(st, g.Sum, rel, a.Elem, nil)
		return v, ok
	case 'b':
		return e.byteAt(e.normStr(st, g.V.(StrV)), rel.Add(g.From)), true
	case 'r':
		x := e.fnAtom("rune", 'i', g.V, rel.Add(g.From))
		e.atoms[x].HasB, e.atoms[x].Lo, e.atoms[x].Hi = true, 0, 0x10FFFF
		return LA(x), true
	}
	return e.havoc(st, a.Elem, "elem"), true
}

// readElem reads arr[idx]; the bounds have been checked.
func (e *Engine) readElem(st *State, arr ObjID, idx Lin) []SV {
	var out []SV
	segs := st.Heap[arr].Arr.Segs
	if idx.IsK() && len(segs) > 8 { // a table
		for i, g := range segs {
			if g.Kind != 'e' {
				break
			}
			if int64(i) == idx.C {
				return one(st, g.V)
			}
		}
	}
	if v, ok := e.affineTable(segs, idx); ok {
		return one(st, v)
	}
	for _, p := range e.locate(st, arr, idx) {
		pos := p.V.(TupleV)
		i := int(pos[0].(Lin).C)
		if i >= len(segs) {
			continue
		}
		if g := segs[i]; g.Kind == 'i' && g.Name == "args" && e.argLoad != nil {
			if vs := e.argLoad(p.St, e.n(p.St, pos[1].(Lin).Add(g.From))); vs != nil {
				out = append(out, vs...)
				continue
			}
		}
		if v, ok := e.segValue(p.St, p.St.Heap[arr].Arr, segs[i], pos[1].(Lin)); ok {
			out = append(out, SV{p.St, v})
		}
	}
	return out
}

// cutSeg returns the part of g from relative position lo, of length n.
func (e *Engine) cutSeg(g Seg, lo, n Lin) Seg {
	r := g
	r.Len = n
	switch g.Kind {
	case 'i', 'b', 'r':
		r.From = g.From.Add(lo)
	case 's':
		if !lo.Is0() && g.Sum.Idx >= 0 && !g.Sum.Bot {
			s := newSubst()
			s.M[g.Sum.Idx] = LA(g.Sum.Idx).Add(lo)
			r.Sum = e.substSum(g.Sum, s)
		}
	}
	return r
}

// locate finds the segment holding position idx (0 <= idx <= total), forking when unclear.
// It returns, per state, the segment number and the position inside it. idx may be the end.
func (e *Engine) locate(st *State, arr ObjID, idx Lin) []SV {
	var out []SV
	cur := st
	segs := cur.Heap[arr].Arr.Segs
	start := K(0)
	for i, g := range segs {
		end := start.Add(g.Len)
		if e.n(cur, idx.Sub(start)).Is0() {
			// skip empty segments, so that the element found is really there
			if e.entails(cur, g.Len.AddK(-1)) {
				return append(out, SV{cur, TupleV{K(int64(i)), K(0)}})
			}
		}
		in := end.Sub(idx).AddK(-1)
		if e.entails(cur, in) {
			return append(out, SV{cur, TupleV{K(int64(i)), idx.Sub(start)}})
		}
		if !e.entails(cur, in.Neg().AddK(-1)) {
			hit := cur.clone()
			if e.addGe(hit, in) {
				out = append(out, SV{hit, TupleV{K(int64(i)), idx.Sub(start)}})
			}
			if !e.addGe(cur, in.Neg().AddK(-1)) {
				return out
			}
		}
		start = end
	}
	return append(out, SV{cur, TupleV{K(int64(len(segs))), K(0)}})
}

// ViewR is a state with the segments of a slice in it.
type ViewR struct {
	St   *State
	Segs []Seg
}

// view returns the segments of s.
func (e *Engine) view(st *State, s SliceV) []ViewR {
	if s.Arr == 0 {
		return []ViewR{{st, nil}}
	}
	a := st.Heap[s.Arr].Arr
	total := K(0)
	for _, g := range a.Segs {
		total = total.Add(g.Len)
	}
	if s.Off.Is0() && (s.Len.Eq(total) || e.entailsEq(st, s.Len.Sub(total))) {
		var r []Seg
		for _, g := range a.Segs {
			if len(a.Segs) < 20 && !g.Len.IsK() && e.entailsEq(st, g.Len) {
				continue
			}
			r = append(r, g)
		}
		return []ViewR{{st, r}}
	}
	var out []ViewR
	segs := a.Segs
	for _, p := range e.locate(st, s.Arr, s.Off) {
		lo := p.V.(TupleV)
		for _, q := range e.locate(p.St, s.Arr, s.Off.Add(s.Len)) {
			hi := q.V.(TupleV)
			i0, i1 := int(lo[0].(Lin).C), int(hi[0].(Lin).C)
			p0, p1 := lo[1].(Lin), hi[1].(Lin)
			var r []Seg
			for i := i0; i <= i1 && i < len(segs); i++ {
				from, to := K(0), segs[i].Len
				if i == i0 {
					from = p0
				}
				if i == i1 {
					to = p1
				}
				n := e.n(q.St, to.Sub(from))
				if n.Is0() || (n.IsK() && n.C <= 0) {
					continue
				}
				r = append(r, e.cutSeg(segs[i], from, n))
			}
			out = append(out, ViewR{q.St, r})
		}
	}
	return out
}

func segsLen(segs []Seg) Lin {
	n := K(0)
	for _, g := range segs {
		n = n.Add(g.Len)
	}
	return n
}

// writeElem stores v at arr[idx] (bounds checked).
func (e *Engine) writeElem(st *State, arr ObjID, idx Lin, v Val) []*State {
	var out []*State
	if st.Heap[arr].Rep {
		panic(giveUp{"store into a summarised object"})
	}
	for _, p := range e.locate(st, arr, idx) {
		s := p.St
		pos := p.V.(TupleV)
		i, rel := int(pos[0].(Lin).C), pos[1].(Lin)
		o := s.Heap[arr]
		if i >= len(o.Arr.Segs) {
			continue // out of bounds: excluded by the check
		}
		g := o.Arr.Segs[i]
		var segs []Seg
		segs = append(segs, o.Arr.Segs[:i]...)
		el := Seg{Kind: 'e', Len: K(1), V: v}
		if g.Kind == 'e' {
			segs = append(segs, el)
		} else {
			if !rel.Is0() {
				segs = append(segs, e.cutSeg(g, K(0), rel))
			}
			segs = append(segs, el)
			rest := g.Len.Sub(rel).AddK(-1)
			if !rest.Is0() {
				segs = append(segs, e.cutSeg(g, rel.AddK(1), rest))
			}
		}
		segs = append(segs, o.Arr.Segs[i+1:]...)
		n := *o
		n.Arr = &ArrC{Elem: o.Arr.Elem, Segs: segs}
		s.Heap[arr] = &n
		out = append(out, s)
	}
	return out
}

// newSlice allocates an array with the given segments.
func (e *Engine) newSlice(st *State, elem types.Type, segs []Seg) SliceV {
	id := e.alloc(st, &Obj{Arr: &ArrC{Elem: elem, Segs: segs}})
	return SliceV{Arr: id, Len: segsLen(segs)}
}

// ---- cells

// loadPath reads through a path starting from a value.
func (e *Engine) loadPath(st *State, v Val, path []PE) []SV {
	if len(path) == 0 {
		return one(st, v)
	}
	p := path[0]
	if p.IsI {
		s, ok := v.(SliceV)
		if !ok {
			return nil
		}
		var out []SV
		rest := path[1:]
		for _, r := range e.readElem(st, s.Arr, s.Off.Add(p.Idx)) {
			out = append(out, e.loadPath(r.St, r.V, rest)...)
		}
		return out
	}
	switch x := v.(type) {
	case StructV:
		return e.loadPath(st, x.F[p.F], path[1:])
	}
	return nil
}

func (e *Engine) storePath(st *State, v Val, path []PE, nv Val) (Val, bool) {
	if len(path) == 0 {
		return nv, true
	}
	p := path[0]
	if p.IsI {
		return nil, false
	}
	s, ok := v.(StructV)
	if !ok {
		return nil, false
	}
	r, ok := e.storePath(st, s.F[p.F], path[1:], nv)
	if !ok {
		return nil, false
	}
	f := append([]Val(nil), s.F...)
	f[p.F] = r
	return StructV{f}, true
}

// load reads through a non-nil pointer.
func (e *Engine) load(st *State, p PtrV) []SV {
	o := st.Heap[p.Obj]
	if o == nil {
		return nil
	}
	if o.Arr != nil {
		if len(p.Path) == 0 { // whole array value: a copy
			id := e.alloc(st, &Obj{Typ: o.Typ, Arr: o.Arr})
			return one(st, SliceV{Arr: id, Len: segsLen(o.Arr.Segs)})
		}
		var out []SV
		rest := p.Path[1:]
		for _, r := range e.readElem(st, p.Obj, p.Path[0].Idx) {
			out = append(out, e.loadPath(r.St, r.V, rest)...)
		}
		return out
	}
	return e.loadPath(st, o.V, p.Path)
}

func (e *Engine) store(st *State, p PtrV, v Val) []*State {
	o := st.Heap[p.Obj]
	if o.Rep {
		panic(giveUp{"store into a summarised object"})
	}
	if o.Arr != nil {
		if len(p.Path) == 0 {
			if s, ok := v.(SliceV); ok {
				n := *o
				n.Arr = st.Heap[s.Arr].Arr
				st.Heap[p.Obj] = &n
				return []*State{st}
			}
			return nil
		}
		if len(p.Path) == 1 {
			return e.writeElem(st, p.Obj, p.Path[0].Idx, v)
		}
		var out []*State
		for _, r := range e.readElem(st, p.Obj, p.Path[0].Idx) {
			nv, ok := e.storePath(r.St, r.V, p.Path[1:], v)
			if !ok {
				continue
			}
			out = append(out, e.writeElem(r.St, p.Obj, p.Path[0].Idx, nv)...)
		}
		return out
	}
	// an array inside a struct cell
	for i, pe := range p.Path {
		if pe.IsI {
			var out []*State
			for _, r := range e.loadPath(st, o.V, p.Path[:i]) {
				s := r.V.(SliceV)
				out = append(out, e.store(r.St, PtrV{s.Arr, p.Path[i:]}, v)...)
			}
			return out
		}
	}
	nv, ok := e.storePath(st, o.V, p.Path, v)
	if !ok {
		return nil
	}
	n := *o
	n.V = nv
	st.Heap[p.Obj] = &n
	return []*State{st}
}

// ---- maps

func (e *Engine) keyEq(a, b Val) *BExpr {
	switch x := a.(type) {
	case Lin:
		if y, ok := b.(Lin); ok {
			return bEq0(x.Sub(y))
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return e.strEq(x, y)
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			var c []*BExpr
			for i := range x.F {
				c = append(c, e.keyEq(x.F[i], y.F[i]))
			}
			return bAnd(c...)
		}
	}
	if keyOf(a) == keyOf(b) {
		return bTrue
	}
	return e.newBool("keyeq")
}

type lookR struct {
	St    *State
	V     Val
	Found bool
	I     int // index in Known, -1
}

// lookup finds key k; forks over the entries it may be.
func (e *Engine) lookup(st *State, m ObjID, k Val) []lookR {
	var out []lookR
	cur := []*State{st}
	for i, ent := range st.Heap[m].Map.Known {
		var next []*State
		for _, s := range cur {
			eq := e.keyEq(ent.K, k)
			switch e.evalB(s, eq) {
			case 1:
				out = append(out, lookR{s, ent.V, true, i})
				continue
			case 0:
				next = append(next, s)
				continue
			}
			for _, h := range e.assume(s.clone(), eq, true) {
				out = append(out, lookR{h, ent.V, true, i})
			}
			next = append(next, e.assume(s, eq, false)...)
		}
		cur = next
	}
	for _, s := range cur {
		mc := s.Heap[m].Map
		if mc.Rest != nil && !mc.Rest.Bot {
			h := s.clone()
			if kk, v, ok := e.instantiate(h, mc.Rest, Lin{}, mc.Val, mc.Key); ok {
				for _, h2 := range e.assume(h, e.keyEq(kk, k), true) {
					out = append(out, lookR{h2, v, true, -1})
				}
			}
		}
		out = append(out, lookR{s, e.zero(s, mc.Val), false, -1})
	}
	return out
}

func (e *Engine) setMap(st *State, m ObjID, mc *MapC) {
	o := *st.Heap[m]
	if o.Rep {
		panic(giveUp{"store into a summarised object"})
	}
	o.Map = mc
	st.Heap[m] = &o
}

func (e *Engine) mapUpdate(st *State, m ObjID, k, v Val) []*State {
	var out []*State
	for _, r := range e.lookup(st, m, k) {
		s := r.St
		mc := *s.Heap[m].Map
		mc.Known = append([]MEntry(nil), mc.Known...)
		if r.I >= 0 {
			mc.Known[r.I].V = v
			mc.Known[r.I].Wit = mc.Known[r.I].Wit || e.isWit(v)
		} else {
			if !r.Found {
				mc.N = mc.N.AddK(1)
			}
			mc.Known = append(mc.Known, MEntry{K: k, V: v, Wit: e.isWit(k) || e.isWit(v)})
		}
		e.setMap(s, m, &mc)
		out = append(out, s)
	}
	return out
}

func (e *Engine) mapDelete(st *State, m ObjID, k Val) []*State {
	var out []*State
	for _, r := range e.lookup(st, m, k) {
		s := r.St
		mc := *s.Heap[m].Map
		if r.I >= 0 {
			kn := append([]MEntry(nil), mc.Known[:r.I]...)
			mc.Known = append(kn, mc.Known[r.I+1:]...)
			mc.N = mc.N.AddK(-1)
			mc.Rest = e.restWithoutKey(mc.Rest, k)
		} else if r.Found {
			mc.N = mc.N.AddK(-1)
			mc.Rest = e.restWithoutKey(mc.Rest, k)
		}
		e.setMap(s, m, &mc)
		if !e.addGe(s, mc.N.AddK(-int64(len(mc.Known)))) {
			continue
		}
		out = append(out, s)
	}
	return out
}

func (e *Engine) restWithoutKey(r *Summary, k Val) *Summary {
	if r == nil || r.Bot || r.V == nil {
		return r
	}
	n := *r
	switch x := r.K.(type) {
	case Lin:
		if y, ok := k.(Lin); ok {
			n.Ne = append(n.Ne[:len(n.Ne):len(n.Ne)], x.Sub(y))
		}
	case StrV:
		if y, ok := k.(StrV); ok {
			n.Sne = append(n.Sne[:len(n.Sne):len(n.Sne)], StrNe{x, y})
		}
	}
	return &n
}

// affineTable reads a table of constants at an index of w bits whose first 2^w entries are an
// affine function of the index bits over GF(2).
func (e *Engine) affineTable(segs []Seg, idx Lin) (Val, bool) {
	at, ok := idx.IsAtom()
	if !ok || len(segs) < 16 {
		return nil, false
	}
	w := e.atomWidth(at)
	if w < 2 || w > 12 || len(segs) < 1<<uint(w) {
		return nil, false
	}
	n := 1 << uint(w)
	t := make([]uint64, n)
	for i := range t {
		if segs[i].Kind != 'e' || !segs[i].Len.Eq(K(1)) {
			return nil, false
		}
		switch v := segs[i].V.(type) {
		case Lin:
			if !v.IsK() || v.C < 0 {
				return nil, false
			}
			t[i] = uint64(v.C)
		case BVV:
			c, ok := v.Const()
			if !ok {
				return nil, false
			}
			t[i] = c
		default:
			return nil, false
		}
	}
	top := uint64(0)
	for i, x := range t {
		y := t[0]
		for b := 0; b < w; b++ {
			if i>>uint(b)&1 == 1 {
				y ^= t[1<<uint(b)] ^ t[0]
			}
		}
		top |= x
		if x != y {
			a := e.fnAtom(fmt.Sprintf("table[%d]!=affine", i), 'i', idx)
			return LA(a), true
		}
	}
	ib := e.toBV(LA(at), w)
	width := 32
	if top>>32 != 0 {
		width = 64
	}
	r := bvConst(t[0], width)
	for b := 0; b < w; b++ {
		d := t[1<<uint(b)] ^ t[0]
		for k := 0; k < width; k++ {
			if d>>uint(k)&1 == 1 {
				r.Bits[k] = bxXor(r.Bits[k], ib.Bits[b])
			}
		}
	}
	return r, true
}
