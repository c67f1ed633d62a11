package main

// Joining, widening and comparing abstract states at loop heads and merge points.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// roots visits every value of a state in a fixed order, letting f replace it.
func (e *Engine) regOrder(f *Frame) []ssa.Value {
	var r []ssa.Value
	for v := range f.Regs {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return e.valueIndex(f.Fn, r[i]) < e.valueIndex(f.Fn, r[j]) })
	return r
}

func (e *Engine) valueIndex(fn *ssa.Function, v ssa.Value) int {
	fi := e.info(fn)
	return fi.index[v]
}

func ghostKeys(st *State) []string {
	var r []string
	for k := range st.Ghost {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- reachability and garbage

func objRefs(v Val, f func(ObjID)) {
	switch v := v.(type) {
	case PtrV:
		f(v.Obj)
	case NodeV:
		f(v.List)
	case SliceV:
		f(v.Arr)
	case MapV:
		f(v.Obj)
	case ChanV:
		f(v.Obj)
	case StructV:
		for _, x := range v.F {
			objRefs(x, f)
		}
	case IfaceV:
		if v.T != nil {
			objRefs(v.V, f)
		}
	case FuncV:
		for _, x := range v.Bind {
			objRefs(x, f)
		}
	case TupleV:
		for _, x := range v {
			objRefs(x, f)
		}
	case ModelV:
		for _, x := range v.F {
			objRefs(x, f)
		}
	case *MapIter:
		f(v.Map)
	}
}

func (e *Engine) eachObjVal(o *Obj, f func(Val)) {
	if o.V != nil {
		f(o.V)
	}
	if o.Arr != nil {
		for _, g := range o.Arr.Segs {
			f(g.Len)
			f(g.From)
			if g.V != nil {
				f(g.V)
			}
			if g.Sum != nil {
				e.eachSumVal(g.Sum, f)
			}
		}
	}
	if o.Map != nil {
		f(o.Map.N)
		for _, k := range o.Map.Known {
			f(k.K)
			f(k.V)
		}
		if o.Map.Rest != nil {
			e.eachSumVal(o.Map.Rest, f)
		}
	}
	if o.List != nil {
		f(o.List.Count)
		for _, w := range o.List.Over {
			f(w.K)
			f(w.V)
		}
	}
}

func (e *Engine) eachSumVal(m *Summary, f func(Val)) {
	if m.K != nil {
		f(m.K)
	}
	if m.V != nil {
		f(m.V)
	}
	for _, l := range m.Ge {
		f(l)
	}
	for _, l := range m.Ne {
		f(l)
	}
	for _, l := range m.Sne {
		f(l.A)
		f(l.B)
	}
	for _, o := range m.Objs {
		e.eachObjVal(o, f)
	}
}

func (e *Engine) eachRoot(st *State, f func(Val)) {
	for _, fr := range st.Frames {
		for _, v := range fr.Regs {
			f(v)
		}
		for _, d := range fr.Defers {
			f(d.Fn)
			for _, a := range d.Args {
				f(a)
			}
		}
	}
	for _, v := range st.Ghost {
		f(v)
	}
}

// gc drops unreachable objects.
func (e *Engine) gc(st *State) {
	seen := map[ObjID]bool{}
	var work []ObjID
	mark := func(o ObjID) {
		if o != 0 && !seen[o] {
			seen[o] = true
			work = append(work, o)
		}
	}
	for _, id := range e.globals {
		if _, ok := st.Heap[id]; ok {
			mark(id)
		}
	}
	e.eachRoot(st, func(v Val) { objRefs(v, mark) })
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if ob := st.Heap[o]; ob != nil {
			e.eachObjVal(ob, func(v Val) { objRefs(v, mark) })
		}
	}
	for id := range st.Heap {
		if !seen[id] {
			delete(st.Heap, id)
		}
	}
}

// liveAtoms collects the atoms of all values (not of the facts).
func (e *Engine) liveAtoms(st *State) map[Atom]bool {
	live := map[Atom]bool{}
	add := func(a Atom) { live[a] = true }
	e.eachRoot(st, func(v Val) { e.eachAtom(v, add) })
	for _, o := range st.Heap {
		e.eachObjVal(o, func(v Val) { e.eachAtom(v, add) })
	}
	for a := range e.fixed {
		live[a] = true
	}
	for a := range e.keepAtoms {
		live[a] = true
	}
	return live
}

// project eliminates from the facts the atoms that no value mentions.
func (e *Engine) project(st *State) {
	live := e.liveAtoms(st)
	// function atoms over live atoms stay (lengths, bytes, elements)
	isLive := func(a Atom) bool {
		if live[a] {
			return true
		}
		ai := e.atoms[a]
		if ai.Fn == "" {
			return false
		}
		ok := true
		n := 0
		for _, x := range ai.Args {
			e.eachAtom(x, func(b Atom) {
				if e.atoms[b].Fn == "" {
					n++
					if !live[b] {
						ok = false
					}
				}
			})
		}
		return ok
	}
	for rounds := 0; rounds < 200; rounds++ {
		cnt := map[Atom][2]int{}
		for _, l := range st.F.Ge {
			for _, t := range l.T {
				if !isLive(t.A) {
					c := cnt[t.A]
					if t.K > 0 {
						c[0]++
					} else {
						c[1]++
					}
					cnt[t.A] = c
				}
			}
		}
		best, cost := Atom(-1), 1<<30
		for a, c := range cnt {
			k := c[0]*c[1] - c[0] - c[1]
			if k < cost || (k == cost && a < best) {
				best, cost = a, k
			}
		}
		if best < 0 {
			break
		}
		cs := st.F.Ge
		for _, ax := range e.axioms(best) {
			cs = append(cs[:len(cs):len(cs)], ax)
		}
		if cost > 30 {
			var rest []Lin
			for _, l := range st.F.Ge {
				if !l.Has(best) {
					rest = append(rest, l)
				}
			}
			st.F.Ge = rest
			continue
		}
		st.F.Ge = dropTrivial(dedupGe(eliminate(cs, best)))
	}
	var ne []Lin
	for _, l := range st.F.Ne {
		ok := true
		for _, t := range l.T {
			if !isLive(t.A) {
				ok = false
			}
		}
		if ok {
			ne = append(ne, l)
		}
	}
	st.F.Ne = ne
	strLive := func(s StrV) bool {
		for _, p := range s.P {
			if p.V && !isLive(p.A) {
				return false
			}
		}
		return true
	}
	var sne []StrNe
	for _, n := range st.F.Sne {
		if strLive(n.A) && strLive(n.B) {
			sne = append(sne, n)
		}
	}
	st.F.Sne = sne
	for a := range st.F.Preds {
		if !isLive(a) {
			delete(st.F.Preds, a)
		}
	}
	if st.Sub != nil {
		n := newSubst()
		for a, v := range st.Sub.M {
			if isLive(a) {
				n.M[a] = v
			}
		}
		st.Sub = n
		if len(n.M) == 0 {
			st.Sub = nil
		}
	}
}

func dropTrivial(ls []Lin) []Lin {
	var out []Lin
	for _, l := range ls {
		if l.IsK() && l.C >= 0 {
			continue
		}
		out = append(out, l)
	}
	return out
}

// ---- booleans at merge points

func boolsIn(v Val, f func(*BExpr)) {
	switch v := v.(type) {
	case BoolV:
		f(v.E)
	case StructV:
		for _, x := range v.F {
			boolsIn(x, f)
		}
	case IfaceV:
		if v.T != nil {
			boolsIn(v.V, f)
		}
	case TupleV:
		for _, x := range v {
			boolsIn(x, f)
		}
	case ModelV:
		for _, k := range sortedKeys(v.F) {
			boolsIn(v.F[k], f)
		}
	case FuncV:
		for _, x := range v.Bind {
			boolsIn(x, f)
		}
	}
}

func (e *Engine) mapBools(v Val, f func(*BExpr) *BExpr) Val {
	switch v := v.(type) {
	case BoolV:
		return BoolV{f(v.E)}
	case StructV:
		n := make([]Val, len(v.F))
		for i, x := range v.F {
			n[i] = e.mapBools(x, f)
		}
		return StructV{n}
	case IfaceV:
		if v.T != nil {
			return IfaceV{v.T, e.mapBools(v.V, f)}
		}
	case TupleV:
		n := make(TupleV, len(v))
		for i, x := range v {
			n[i] = e.mapBools(x, f)
		}
		return n
	case ModelV:
		n := make(map[string]Val, len(v.F))
		for k, x := range v.F {
			n[k] = e.mapBools(x, f)
		}
		return ModelV{v.Kind, n}
	}
	return v
}

// concretise forks the state so that its boolean cells are constants.
func (e *Engine) concretise(st *State) []*State {
	find := func(s *State) *BExpr {
		var r *BExpr
		see := func(b *BExpr) {
			if r == nil && b.K != 'T' && b.K != 'F' && !e.isWitB(b) {
				r = b
			}
		}
		for _, fr := range s.Frames {
			for _, v := range e.regOrder(fr) {
				boolsIn(fr.Regs[v], see)
			}
		}
		for _, k := range ghostKeys(s) {
			boolsIn(s.Ghost[k], see)
		}
		for _, o := range s.Heap {
			if o.V != nil {
				boolsIn(o.V, see)
			}
		}
		return r
	}
	setAll := func(s *State) {
		f := func(b *BExpr) *BExpr {
			if b.K == 'T' || b.K == 'F' {
				return b
			}
			switch e.evalB(s, b) {
			case 1:
				return bTrue
			case 0:
				return bFalse
			}
			return b
		}
		for i, fr := range s.Frames {
			n := fr.clone()
			for k, v := range n.Regs {
				n.Regs[k] = e.mapBools(v, f)
			}
			s.Frames[i] = n
		}
		for k, v := range s.Ghost {
			s.Ghost[k] = e.mapBools(v, f)
		}
		for k, o := range s.Heap {
			if o.V != nil {
				n := *o
				n.V = e.mapBools(o.V, f)
				s.Heap[k] = &n
			}
		}
	}
	work := []*State{st}
	var out []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		setAll(s)
		b := find(s)
		if b == nil {
			out = append(out, s)
			continue
		}
		t := e.assume(s.clone(), b, true)
		f := e.assume(s, b, false)
		// make sure it is decided now, whatever the assumption could record
		for _, x := range t {
			e.forceBool(x, b, true)
		}
		for _, x := range f {
			e.forceBool(x, b, false)
		}
		work = append(work, t...)
		work = append(work, f...)
	}
	return out
}

func (e *Engine) forceBool(s *State, b *BExpr, v bool) {
	key := keyOf(BoolV{b})
	f := func(x *BExpr) *BExpr {
		if keyOf(BoolV{x}) == key {
			return bConst(v)
		}
		return x
	}
	for i, fr := range s.Frames {
		n := fr.clone()
		for k, x := range n.Regs {
			n.Regs[k] = e.mapBools(x, f)
		}
		s.Frames[i] = n
	}
	for k, x := range s.Ghost {
		s.Ghost[k] = e.mapBools(x, f)
	}
	for k, o := range s.Heap {
		if o.V != nil {
			n := *o
			n.V = e.mapBools(o.V, f)
			s.Heap[k] = &n
		}
	}
}

// ---- signatures

type sigger struct {
	e      *Engine
	st     *State
	old    map[ObjID]bool
	num    map[ObjID]int
	order  []ObjID
	b      strings.Builder
	coarse bool
}

func (e *Engine) sig(st *State, old map[ObjID]bool, coarse bool) string {
	s := &sigger{e: e, st: st, old: old, num: map[ObjID]int{}, coarse: coarse}
	for i, fr := range st.Frames {
		fmt.Fprintf(&s.b, "F%d:", i)
		for _, v := range e.regOrder(fr) {
			fmt.Fprintf(&s.b, "%d=", e.valueIndex(fr.Fn, v))
			s.val(fr.Regs[v])
			s.b.WriteByte(';')
		}
		fmt.Fprintf(&s.b, "D%d", len(fr.Defers))
		for _, d := range fr.Defers {
			for _, a := range d.Args {
				s.val(a)
			}
		}
	}
	for _, k := range ghostKeys(st) {
		s.b.WriteString(k + "=")
		s.val(st.Ghost[k])
		s.b.WriteByte(';')
	}
	for _, g := range e.globalOrder {
		if _, ok := st.Heap[e.globals[g]]; ok {
			s.ref(e.globals[g])
		}
	}
	for i := 0; i < len(s.order); i++ {
		fmt.Fprintf(&s.b, "\n@%d:", i)
		s.obj(st.Heap[s.order[i]])
	}
	return s.b.String()
}

func (s *sigger) ref(o ObjID) {
	if o == 0 {
		s.b.WriteString("nil")
		return
	}
	if n, ok := s.num[o]; ok {
		fmt.Fprintf(&s.b, "^%d", n)
		return
	}
	n := len(s.order)
	s.num[o] = n
	s.order = append(s.order, o)
	if s.old[o] {
		fmt.Fprintf(&s.b, "o%d", o)
	} else {
		fmt.Fprintf(&s.b, "n%d", n)
	}
}

func (s *sigger) val(v Val) {
	b := &s.b
	switch v := v.(type) {
	case nil:
		b.WriteString("-")
	case Lin:
		b.WriteByte('#')
		if s.e.sigInts != nil {
			if t := s.e.sigInts(v); t != "" {
				b.WriteString(t)
			}
		}
	case BVV:
		b.WriteByte('#')
	case BoolV:
		if v.E.K == 'T' || v.E.K == 'F' {
			b.WriteByte(v.E.K)
		} else {
			b.WriteByte('b')
		}
	case StrV:
		if c, ok := v.Const(); ok && !s.coarse && len(c) <= 20 {
			b.WriteString(strconv.Quote(c))
		} else if s.e.isWit(v) && !s.coarse {
			b.WriteString("w")
		} else {
			b.WriteByte('s')
		}
	case PtrV:
		b.WriteByte('P')
		s.ref(v.Obj)
		for _, p := range v.Path {
			if p.IsI {
				b.WriteString("[]")
			} else {
				fmt.Fprintf(b, ".%d", p.F)
			}
		}
	case NodeV:
		b.WriteByte('N')
		s.ref(v.List)
		for _, p := range v.Path {
			if p.IsI {
				b.WriteString("[]")
			} else {
				fmt.Fprintf(b, ".%d", p.F)
			}
		}
	case SliceV:
		b.WriteByte('L')
		s.ref(v.Arr)
	case MapV:
		b.WriteByte('M')
		s.ref(v.Obj)
	case ChanV:
		b.WriteByte('C')
		s.ref(v.Obj)
	case StructV:
		b.WriteByte('{')
		for _, f := range v.F {
			s.val(f)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case IfaceV:
		if v.T == nil {
			b.WriteString("nilif")
		} else {
			b.WriteString("<" + v.T.String() + ">")
			s.val(v.V)
		}
	case FuncV:
		if v.Fn != nil {
			b.WriteString(v.Fn.String())
		}
		b.WriteString("!" + v.Ext)
		for _, x := range v.Bind {
			s.val(x)
		}
	case OpqV:
		b.WriteByte('O')
		p := s.e.fnAtom("isnil", 'b', v)
		if t, ok := s.st.F.Preds[p]; ok {
			fmt.Fprint(b, t)
		}
	case TupleV:
		b.WriteByte('(')
		for _, f := range v {
			s.val(f)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case ModelV:
		b.WriteString("$" + v.Kind)
		for _, k := range sortedKeys(v.F) {
			b.WriteString(k + "=")
			s.val(v.F[k])
			b.WriteByte(',')
		}
	case ErrV:
		b.WriteString("E" + v.Kind)
	case *MapIter:
		b.WriteString("it")
		s.ref(v.Map)
		if m := s.st.Heap[v.Map]; m != nil && m.Map != nil {
			for _, k := range m.Map.Known {
				if k.Wit {
					fmt.Fprintf(b, "%v", v.seen(k.K))
				}
			}
		}
	default:
		panic(fmt.Sprintf("sig %T", v))
	}
}

func (it *MapIter) seen(k Val) bool {
	key := keyOf(k)
	for _, v := range it.Visited {
		if v == key {
			return true
		}
	}
	return false
}

func (s *sigger) obj(o *Obj) {
	b := &s.b
	if o == nil {
		b.WriteString("?")
		return
	}
	if o.V != nil {
		s.val(o.V)
	}
	if o.Arr != nil {
		b.WriteByte('A')
		for _, g := range o.Arr.Segs {
			switch {
			case g.Kind == 'e' && s.e.isWit(g.V):
				b.WriteString("w")
				s.val(g.V)
			case g.Kind == 'e':
				// objects held by elements are folded: their identity is not tracked
			case g.Kind == 'k':
				b.WriteString("k" + g.Name)
			}
		}
	}
	if o.Map != nil {
		b.WriteByte('M')
		for _, k := range o.Map.Known {
			if k.Wit {
				b.WriteString("w")
				s.val(k.K)
				s.val(k.V)
			} else if o.Map.Rest == nil && s.constKey(k.K) {
				b.WriteString(keyOf(k.K))
				s.val(k.V)
			}
		}
	}
	if o.List != nil {
		b.WriteString("list")
		for _, w := range o.List.Over {
			s.val(w.V)
		}
	}
}

func (s *sigger) constKey(k Val) bool { return isConstKey(k) }

func isConstKey(k Val) bool {
	switch k := k.(type) {
	case Lin:
		return k.IsK()
	case StrV:
		_, ok := k.Const()
		return ok
	}
	return false
}

// ---- join

type nslot struct {
	atom Atom
	vals []Lin
}

type joiner struct {
	e     *Engine
	sts   []*State // the states being joined (two, or one per template)
	out   *State
	objs  map[string]ObjID // key of the pair -> joined object
	slots []nslot
	sidx  map[string]int
	strs  []strslot
	stidx map[string]int
	opqs  []opqslot
	opidx map[string]int
	fresh map[Atom]bool
	todo  []func()
	fail  bool
	noObj bool // template join: elements of several states
	widen int
	up    *joiner // the enclosing join of a template join
	from  []int   // the enclosing join's state of each state
	ctx   []nslot // slots of the enclosing joins
	ids   []pairObj
}

type pairObj struct {
	ids []ObjID
	out ObjID
}

// shared finds the joined object of the enclosing join that the given objects are.
func (j *joiner) shared(ids []ObjID, from []int) (ObjID, bool) {
	if j == nil {
		return 0, false
	}
	for _, p := range j.ids {
		ok := true
		for i, id := range ids {
			if p.ids[from[i]] != id {
				ok = false
			}
		}
		if ok {
			return p.out, true
		}
	}
	if j.up != nil {
		f := make([]int, len(from))
		for i := range from {
			f[i] = j.from[from[i]]
		}
		return j.up.shared(ids, f)
	}
	return 0, false
}

// freeze marks the joined objects that a summarised object is a copy of.
func (j *joiner) freeze(ids []ObjID, from []int) {
	if j == nil {
		return
	}
	for _, p := range j.ids {
		for i, id := range ids {
			if p.ids[from[i]] == id {
				if o := j.out.Heap[p.out]; o != nil && !o.Rep {
					n := *o
					n.Rep = true
					j.out.Heap[p.out] = &n
				}
			}
		}
	}
	if j.up != nil {
		f := make([]int, len(from))
		for i := range from {
			f[i] = j.from[from[i]]
		}
		j.up.freeze(ids, f)
	}
}

type strslot struct {
	atom Atom
	vals []StrV
}
type opqslot struct {
	atom Atom
	vals []Val
	sort byte
}

func (e *Engine) newJoiner(sts ...*State) *joiner {
	return &joiner{e: e, sts: sts, objs: map[string]ObjID{}, sidx: map[string]int{}, stidx: map[string]int{}, opidx: map[string]int{}, fresh: map[Atom]bool{}}
}

func keysOf(vs []Val) string {
	var b strings.Builder
	for _, v := range vs {
		writeKey(&b, v)
		b.WriteByte('~')
	}
	return b.String()
}

func allSame(vs []Val) bool {
	k := keyOf(vs[0])
	for _, v := range vs[1:] {
		if keyOf(v) != k {
			return false
		}
	}
	return true
}

func (j *joiner) lin(vs []Lin) Lin {
	same := true
	for _, v := range vs[1:] {
		if !v.Eq(vs[0]) {
			same = false
		}
	}
	if same && !j.noObj {
		return vs[0]
	}
	if same && j.noObj && !j.local(vs[0]) {
		return vs[0]
	}
	if l, ok := j.structural(vs); ok {
		return l
	}
	var b strings.Builder
	for _, v := range vs {
		v.key(&b)
		b.WriteByte('~')
	}
	k := b.String()
	if i, ok := j.sidx[k]; ok {
		return LA(j.slots[i].atom)
	}
	a := j.e.newAtom("j", 'i')
	// keep a common declared range
	all := true
	var lo, hi int64
	for i, v := range vs {
		x, ok := v.IsAtom()
		if v.IsK() {
			if i == 0 || v.C < lo {
				lo = v.C
			}
			if i == 0 || v.C > hi {
				hi = v.C
			}
			continue
		}
		if !ok || !j.e.atoms[x].HasB {
			all = false
			break
		}
		if i == 0 || j.e.atoms[x].Lo < lo {
			lo = j.e.atoms[x].Lo
		}
		if i == 0 || j.e.atoms[x].Hi > hi {
			hi = j.e.atoms[x].Hi
		}
	}
	if all && !allConst(vs) {
		j.e.atoms[a].HasB, j.e.atoms[a].Lo, j.e.atoms[a].Hi = true, lo, hi
	}
	j.fresh[a] = true
	j.sidx[k] = len(j.slots)
	j.slots = append(j.slots, nslot{a, append([]Lin(nil), vs...)})
	return LA(a)
}

// structural joins applications of one function argument by argument.
func (j *joiner) structural(vs []Lin) (Lin, bool) {
	e := j.e
	fn := ""
	as := make([]Atom, len(vs))
	if e.structFn["crc"] { // crc(d,0) is 0
		var d Val
		for _, v := range vs {
			if a, ok := v.IsAtom(); ok && e.atoms[a].Fn == "crc" {
				d = e.atoms[a].Args[0]
			}
		}
		if d != nil {
			ds, ks := make([]Val, len(vs)), make([]Lin, len(vs))
			for i, v := range vs {
				if a, ok := v.IsAtom(); ok && e.atoms[a].Fn == "crc" {
					ds[i], ks[i] = e.atoms[a].Args[0], e.atoms[a].Args[1].(Lin)
				} else if v.Is0() {
					ds[i] = d
				} else {
					return Lin{}, false
				}
			}
			return e.term("crc", 'i', j.val(ds), j.lin(ks)).(Lin), true
		}
	}
	for i, v := range vs {
		a, ok := v.IsAtom()
		if !ok || !e.structFn[e.atoms[a].Fn] || i > 0 && (e.atoms[a].Fn != fn || len(e.atoms[a].Args) != len(e.atoms[as[0]].Args)) {
			return Lin{}, false
		}
		fn, as[i] = e.atoms[a].Fn, a
	}
	args := make([]Val, len(e.atoms[as[0]].Args))
	for i := range args {
		ws := make([]Val, len(vs))
		for k, a := range as {
			ws[k] = e.atoms[a].Args[i]
		}
		args[i] = j.val(ws)
	}
	return e.term(fn, 'i', args...).(Lin), true
}

func allConst(vs []Lin) bool {
	for _, v := range vs {
		if !v.IsK() {
			return false
		}
	}
	return true
}

// local reports whether a template's value mentions its own (instantiated) atoms.
func (j *joiner) local(l Lin) bool {
	r := false
	j.e.eachAtom(l, func(a Atom) {
		if j.e.tmplAtoms[a] {
			r = true
		}
	})
	return r
}

func (j *joiner) str(vs []StrV) StrV {
	vv := make([]Val, len(vs))
	for i, v := range vs {
		vv[i] = v
	}
	if allSame(vv) {
		loc := false
		if j.noObj {
			j.e.eachAtom(vs[0], func(a Atom) {
				if j.e.tmplAtoms[a] {
					loc = true
				}
			})
		}
		if !loc {
			return vs[0]
		}
	}
	// the same shape, part by part
	n := len(vs[0].P)
	shape := n > 0
	for _, v := range vs {
		if len(v.P) != n {
			shape = false
		}
	}
	if shape {
		for i := 0; i < n && shape; i++ {
			for _, v := range vs[1:] {
				p, q := vs[0].P[i], v.P[i]
				if p.V != q.V || (!p.V && p.C != q.C) {
					shape = false
				}
			}
		}
	}
	if shape {
		var parts []StrV
		for i := 0; i < n; i++ {
			if !vs[0].P[i].V {
				parts = append(parts, StrV{vs[0].P[i : i+1]})
				continue
			}
			as := make([]Atom, len(vs))
			for k, v := range vs {
				as[k] = v.P[i].A
			}
			parts = append(parts, j.strAtom(as))
		}
		return SCat(parts...)
	}
	if r := j.unfold(vs); r != nil {
		return j.str(r)
	}
	return j.strSlot(vs)
}

// unfold undoes the normalisation of strings that are terms in other states: where one state
// has fn(args) and another a value that its facts make equal to some fn(args'), that term is
// used instead. nil: nothing of the kind.
func (j *joiner) unfold(vs []StrV) []StrV {
	e := j.e
	pat := -1
	for i, v := range vs {
		n := 0
		for _, p := range v.P {
			if p.V {
				n++
				if e.atoms[p.A].Fn == "" {
					n += 2
				}
			}
		}
		if n == 1 && pat < 0 {
			pat = i
		}
	}
	if pat < 0 {
		return nil
	}
	var pre, post string
	var at Atom
	for i, p := range vs[pat].P {
		if p.V {
			at = p.A
		} else if i == 0 {
			pre = p.C
		} else {
			post = p.C
		}
	}
	fn := e.atoms[at].Fn
	out := append([]StrV(nil), vs...)
	for i, v := range vs {
		if len(v.P) == len(vs[pat].P) {
			q := -1
			for k, p := range v.P {
				if p.V {
					q = k
				}
			}
			if q >= 0 && e.atoms[v.P[q].A].Fn == fn {
				continue
			}
		}
		c, ok := v.Const()
		if !ok || len(c) < len(pre)+len(post) || !strings.HasPrefix(c, pre) || !strings.HasSuffix(c, post) {
			return nil
		}
		mid := keyOf(SC(c[len(pre) : len(c)-len(post)]))
		if i >= len(j.sts) || j.sts[i].Sub == nil {
			return nil
		}
		var cands []Atom
		for a, w := range j.sts[i].Sub.M {
			if e.atoms[a].Fn == fn && keyOf(w) == mid {
				cands = append(cands, a)
			}
		}
		if len(cands) == 0 {
			return nil
		}
		sort.Slice(cands, func(x, y int) bool { return cands[x] < cands[y] })
		best := cands[0]
		// in a template, the term at the same distance from the index
		if len(cands) > 1 && len(j.slots) > 0 && j.noObj && len(e.atoms[at].Args) == 1 {
			if l, ok := e.atoms[at].Args[0].(Lin); ok {
				d := l.Sub(j.slots[0].vals[pat])
				for _, a := range cands {
					if m, ok := e.atoms[a].Args[0].(Lin); ok && d.IsK() && m.Sub(j.slots[0].vals[i]).Eq(d) {
						best = a
					}
				}
			}
		}
		out[i] = SCat(SC(pre), SA(best), SC(post))
	}
	return out
}

func (j *joiner) strAtom(as []Atom) StrV {
	e := j.e
	fn := e.atoms[as[0]].Fn
	same := true
	for _, a := range as[1:] {
		if a != as[0] {
			same = false
		}
		if e.atoms[a].Fn != fn {
			fn = ""
		}
	}
	if same && !j.noObj {
		return SA(as[0])
	}
	if fn != "" {
		nargs := len(e.atoms[as[0]].Args)
		ok := true
		for _, a := range as {
			if len(e.atoms[a].Args) != nargs {
				ok = false
			}
		}
		if ok {
			args := make([]Val, nargs)
			for i := 0; i < nargs; i++ {
				vs := make([]Val, len(as))
				for k, a := range as {
					vs[k] = e.atoms[a].Args[i]
				}
				args[i] = j.val(vs)
			}
			return e.term(fn, 's', args...).(StrV)
		}
	}
	vs := make([]StrV, len(as))
	for k, a := range as {
		vs[k] = SA(a)
	}
	return j.strSlot(vs)
}

func (j *joiner) strSlot(vs []StrV) StrV {
	vv := make([]Val, len(vs))
	for i, v := range vs {
		vv[i] = v
	}
	k := keysOf(vv)
	if i, ok := j.stidx[k]; ok {
		return SA(j.strs[i].atom)
	}
	a := j.e.newAtom("js", 's')
	j.fresh[a] = true
	j.stidx[k] = len(j.strs)
	j.strs = append(j.strs, strslot{a, vs})
	// its length is a slot of its own
	ls := make([]Lin, len(vs))
	for i, v := range vs {
		ls[i] = j.e.strLen(v)
	}
	la := j.e.fnAtom("len", 'i', SA(a))
	j.slots = append(j.slots, nslot{la, ls})
	return SA(a)
}

func (j *joiner) opq(vs []Val, sort byte) Val {
	k := keysOf(vs)
	i, ok := j.opidx[k]
	if !ok {
		a := j.e.newAtom("jo", sort)
		j.fresh[a] = true
		i = len(j.opqs)
		j.opidx[k] = i
		j.opqs = append(j.opqs, opqslot{a, vs, sort})
	}
	if sort == 'b' {
		return BoolV{&BExpr{K: 'p', P: j.opqs[i].atom}}
	}
	return OpqV{A: j.opqs[i].atom}
}

// val joins the values, one per state.
func (j *joiner) val(vs []Val) Val {
	e := j.e
	switch v0 := vs[0].(type) {
	case nil:
		return nil
	case Lin:
		ls := make([]Lin, len(vs))
		for i, v := range vs {
			switch v := v.(type) {
			case Lin:
				ls[i] = v
			case BVV:
				return j.bv(vs)
			default:
				j.fail = true
				return v0
			}
		}
		return j.lin(ls)
	case BVV:
		return j.bv(vs)
	case StrV:
		ss := make([]StrV, len(vs))
		for i, v := range vs {
			s, ok := v.(StrV)
			if !ok {
				j.fail = true
				return v0
			}
			ss[i] = s
		}
		return j.str(ss)
	case BoolV:
		if allSame(vs) {
			return v0
		}
		return j.opq(vs, 'b')
	case PtrV:
		ids := make([]ObjID, len(vs))
		for i, v := range vs {
			p, ok := v.(PtrV)
			if !ok || len(p.Path) != len(v0.Path) {
				j.fail = true
				return v0
			}
			ids[i] = p.Obj
		}
		r := PtrV{Obj: j.obj(ids)}
		for k := range v0.Path {
			if v0.Path[k].IsI {
				ls := make([]Lin, len(vs))
				for i, v := range vs {
					ls[i] = v.(PtrV).Path[k].Idx
				}
				r.Path = append(r.Path, PE{IsI: true, Idx: j.lin(ls)})
			} else {
				r.Path = append(r.Path, v0.Path[k])
			}
		}
		return r
	case NodeV:
		ids := make([]ObjID, len(vs))
		ks := make([]Lin, len(vs))
		for i, v := range vs {
			p, ok := v.(NodeV)
			if !ok || len(p.Path) != len(v0.Path) {
				j.fail = true
				return v0
			}
			ids[i], ks[i] = p.List, p.K
		}
		return NodeV{List: j.obj(ids), K: j.lin(ks), Path: v0.Path}
	case SliceV:
		ids := make([]ObjID, len(vs))
		of := make([]Lin, len(vs))
		ln := make([]Lin, len(vs))
		for i, v := range vs {
			p, ok := v.(SliceV)
			if !ok {
				j.fail = true
				return v0
			}
			ids[i], of[i], ln[i] = p.Arr, p.Off, p.Len
		}
		if j.noObj {
			j.nilSlices(ids)
		}
		return SliceV{Arr: j.obj(ids), Off: j.lin(of), Len: j.lin(ln)}
	case MapV:
		ids := make([]ObjID, len(vs))
		for i, v := range vs {
			p, ok := v.(MapV)
			if !ok {
				j.fail = true
				return v0
			}
			ids[i] = p.Obj
		}
		return MapV{j.obj(ids)}
	case ChanV:
		ids := make([]ObjID, len(vs))
		for i, v := range vs {
			p, ok := v.(ChanV)
			if !ok {
				j.fail = true
				return v0
			}
			ids[i] = p.Obj
		}
		return ChanV{j.obj(ids)}
	case StructV:
		r := StructV{make([]Val, len(v0.F))}
		for k := range v0.F {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				s, ok := v.(StructV)
				if !ok || len(s.F) != len(v0.F) {
					j.fail = true
					return v0
				}
				xs[i] = s.F[k]
			}
			r.F[k] = j.val(xs)
		}
		return r
	case TupleV:
		r := make(TupleV, len(v0))
		for k := range v0 {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				s, ok := v.(TupleV)
				if !ok || len(s) != len(v0) {
					j.fail = true
					return v0
				}
				xs[i] = s[k]
			}
			r[k] = j.val(xs)
		}
		return r
	case IfaceV:
		xs := make([]Val, len(vs))
		for i, v := range vs {
			s, ok := v.(IfaceV)
			if !ok || (s.T == nil) != (v0.T == nil) || (s.T != nil && s.T.String() != v0.T.String()) {
				if j.noObj {
					return OpqV{A: e.newAtom("jo", 'o')}
				}
				j.fail = true
				return v0
			}
			xs[i] = s.V
		}
		if v0.T == nil {
			return v0
		}
		return IfaceV{v0.T, j.val(xs)}
	case FuncV:
		r := FuncV{Fn: v0.Fn, Ext: v0.Ext}
		for k := range v0.Bind {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				s, ok := v.(FuncV)
				if !ok || s.Fn != v0.Fn || len(s.Bind) != len(v0.Bind) {
					j.fail = true
					return v0
				}
				xs[i] = s.Bind[k]
			}
			r.Bind = append(r.Bind, j.val(xs))
		}
		for _, v := range vs {
			if s, ok := v.(FuncV); !ok || s.Fn != v0.Fn || s.Ext != v0.Ext {
				j.fail = true
				return v0
			}
		}
		return r
	case OpqV:
		if allSame(vs) && !j.noObj {
			return v0
		}
		for _, v := range vs {
			if _, ok := v.(OpqV); !ok {
				j.fail = true
				return v0
			}
		}
		r := j.opq(vs, 'o').(OpqV)
		r.T = v0.T
		return r
	case ModelV:
		r := ModelV{v0.Kind, map[string]Val{}}
		for k := range v0.F {
			xs := make([]Val, len(vs))
			for i, v := range vs {
				s, ok := v.(ModelV)
				if !ok || s.Kind != v0.Kind || len(s.F) != len(v0.F) {
					j.fail = true
					return v0
				}
				xs[i], ok = s.F[k]
				if !ok {
					j.fail = true
					return v0
				}
			}
			r.F[k] = j.val(xs)
		}
		return r
	case ErrV:
		ss := make([]StrV, len(vs))
		kind := v0.Kind
		for i, v := range vs {
			s, ok := v.(ErrV)
			if !ok {
				j.fail = true
				return v0
			}
			if s.Kind != kind {
				kind = "any"
			}
			ss[i] = s.Msg
		}
		return ErrV{kind, j.str(ss)}
	case *MapIter:
		r := *v0
		ids := make([]ObjID, len(vs))
		ps := make([]Lin, len(vs))
		ss := make([]StrV, len(vs))
		for i, v := range vs {
			s, ok := v.(*MapIter)
			if !ok {
				j.fail = true
				return v0
			}
			ids[i], ps[i], ss[i] = s.Map, s.Pos, s.Str
			r.Sum = r.Sum || s.Sum
		}
		r.Map = j.obj(ids)
		r.Pos = j.lin(ps)
		r.Str = j.str(ss)
		// visited: only entries visited in all
		r.Visited = nil
		for _, k := range v0.Visited {
			all := true
			for _, v := range vs[1:] {
				in := false
				for _, q := range v.(*MapIter).Visited {
					if q == k {
						in = true
					}
				}
				all = all && in
			}
			if all {
				r.Visited = append(r.Visited, k)
			}
		}
		return &r
	}
	panic(fmt.Sprintf("join %T", vs[0]))
}

func (j *joiner) bv(vs []Val) Val {
	if allSame(vs) {
		return vs[0]
	}
	if j.e.bvJoin != nil {
		if v := j.e.bvJoin(j, vs); v != nil {
			return v
		}
	}
	w := 0
	for _, v := range vs {
		if b, ok := v.(BVV); ok && len(b.Bits) > w {
			w = len(b.Bits)
		}
	}
	k := keysOf(vs)
	i, ok := j.opidx[k]
	if !ok {
		a := j.e.newAtom("jv", 'i')
		if w < 62 {
			j.e.atoms[a].HasB, j.e.atoms[a].Hi = true, 1<<uint(w)-1
		}
		j.fresh[a] = true
		i = len(j.opqs)
		j.opidx[k] = i
		j.opqs = append(j.opqs, opqslot{a, vs, 'v'})
	}
	return LA(j.opqs[i].atom)
}

// nilSlices gives nil slices joined with others an empty array.
func (j *joiner) nilSlices(ids []ObjID) {
	var o *Obj
	zero := false
	for i, id := range ids {
		if id == 0 {
			zero = true
		} else {
			o = j.sts[i].Heap[id]
		}
	}
	if !zero || o == nil || o.Arr == nil {
		return
	}
	for i, id := range ids {
		if id == 0 {
			ids[i] = j.e.alloc(j.sts[i], &Obj{Typ: o.Typ, Arr: &ArrC{Elem: o.Arr.Elem}, MayNil: true})
		}
	}
}

func (j *joiner) obj(ids []ObjID) ObjID {
	same := true
	for _, id := range ids[1:] {
		if id != ids[0] {
			same = false
		}
		if (id == 0) != (ids[0] == 0) {
			if j.noObj {
				// nil or not: keep a non-nil one only if it is a slice of unknown content
				j.fail = true
				return ids[0]
			}
			j.fail = true
			return ids[0]
		}
	}
	if ids[0] == 0 {
		return 0
	}
	k := fmt.Sprint(ids)
	if o, ok := j.objs[k]; ok {
		return o
	}
	if j.noObj {
		if o, ok := j.up.shared(ids, j.from); ok {
			j.objs[k] = o
			return o
		}
		j.up.freeze(ids, j.from)
	}
	id := ids[0]
	j.objs[k] = id
	os := make([]*Obj, len(ids))
	ident := same
	for i, x := range ids {
		os[i] = j.sts[i].Heap[x]
		if os[i] == nil {
			j.fail = true
			return id
		}
		if os[i] != os[0] {
			ident = false
		}
	}
	if j.noObj {
		// joined elements that hold different objects: make a fresh joined object
		j.e.nextObj++
		id = j.e.nextObj
		j.objs[k] = id
	}
	j.ids = append(j.ids, pairObj{ids, id})
	if ident && !j.noObj {
		j.out.Heap[id] = os[0]
		// still visit what it refers to
		j.todo = append(j.todo, func() {
			j.e.eachObjVal(os[0], func(v Val) {
				objRefs(v, func(o ObjID) {
					if o != 0 && j.sts[0].Heap[o] != nil {
						x := make([]ObjID, len(ids))
						for i := range x {
							x[i] = o
						}
						j.obj(x)
					}
				})
			})
		})
		return id
	}
	j.todo = append(j.todo, func() {
		n := j.joinObj(os)
		if n != nil {
			j.out.Heap[id] = n
		}
	})
	return id
}

func (j *joiner) joinObj(os []*Obj) *Obj {
	o0 := os[0]
	n := &Obj{Typ: o0.Typ, Site: o0.Site}
	for _, o := range os {
		n.Rep = n.Rep || o.Rep
		n.MayNil = n.MayNil || o.MayNil
	}
	for _, o := range os {
		if (o.Arr == nil) != (o0.Arr == nil) || (o.Map == nil) != (o0.Map == nil) || (o.List == nil) != (o0.List == nil) || (o.V == nil) != (o0.V == nil) {
			j.fail = true
			return nil
		}
	}
	if o0.V != nil {
		vs := make([]Val, len(os))
		for i, o := range os {
			vs[i] = o.V
		}
		n.V = j.val(vs)
	}
	if o0.Arr != nil {
		as := make([]*ArrC, len(os))
		for i, o := range os {
			as[i] = o.Arr
		}
		n.Arr = j.joinArr(as)
	}
	if o0.Map != nil {
		ms := make([]*MapC, len(os))
		for i, o := range os {
			ms[i] = o.Map
		}
		n.Map = j.joinMap(ms)
	}
	if o0.List != nil {
		l := &ListC{Name: o0.List.Name}
		cs := make([]Lin, len(os))
		for i, o := range os {
			cs[i] = o.List.Count
			if len(o.List.Over) != len(o0.List.Over) {
				j.fail = true
				return nil
			}
		}
		l.Count = j.lin(cs)
		for k := range o0.List.Over {
			ks := make([]Lin, len(os))
			vs := make([]Val, len(os))
			for i, o := range os {
				ks[i], vs[i] = o.List.Over[k].K, o.List.Over[k].V
			}
			l.Over = append(l.Over, NodeW{j.lin(ks), j.val(vs)})
		}
		n.List = l
	}
	return n
}

func segKey(g Seg) string {
	s := string(g.Kind) + g.Name + "/" + g.Len.Key() + "/" + g.From.Key() + "/"
	if g.V != nil {
		s += keyOf(g.V)
	}
	if g.Sum != nil {
		s += fmt.Sprintf("%p", g.Sum)
	}
	return s
}

func constTable(a *ArrC) bool {
	if len(a.Segs) <= 12 {
		return false
	}
	for _, g := range a.Segs {
		if g.Kind != 'e' || !g.Len.IsK() {
			return false
		}
		if l, ok := g.V.(Lin); !ok || !l.IsK() {
			return false
		}
	}
	return true
}

func sameTable(a, b *ArrC) bool {
	if a == b {
		return true
	}
	if len(a.Segs) != len(b.Segs) {
		return false
	}
	for i, g := range a.Segs {
		h := b.Segs[i]
		l, ok := h.V.(Lin)
		if h.Kind != 'e' || !ok || !l.Eq(g.V.(Lin)) || !g.Len.Eq(h.Len) {
			return false
		}
	}
	return true
}

func (j *joiner) joinArr(as []*ArrC) *ArrC {
	e := j.e
	n := &ArrC{Elem: as[0].Elem}
	if constTable(as[0]) { // a table of constants that nothing has changed
		same := true
		for _, a := range as[1:] {
			same = same && sameTable(as[0], a)
		}
		if same {
			return as[0]
		}
	}
	// identical segment lists, or the same shape: join piece by piece
	same := true
	for _, a := range as[1:] {
		if len(a.Segs) != len(as[0].Segs) {
			same = false
		}
	}
	if same {
		for i := range as[0].Segs {
			for _, a := range as[1:] {
				p, q := as[0].Segs[i], a.Segs[i]
				if p.Kind != q.Kind || p.Name != q.Name || (p.Kind == 'b' || p.Kind == 'r') && keyOf(p.V) != keyOf(q.V) {
					same = false
				}
				if p.Kind == 's' && p.Sum != q.Sum {
					same = false
				}
			}
		}
	}
	if same && len(as[0].Segs) <= 12 {
		for i := range as[0].Segs {
			g := as[0].Segs[i]
			ls := make([]Lin, len(as))
			fs := make([]Lin, len(as))
			vs := make([]Val, len(as))
			for k, a := range as {
				ls[k], fs[k], vs[k] = a.Segs[i].Len, a.Segs[i].From, a.Segs[i].V
			}
			g.Len, g.From = j.lin(ls), j.lin(fs)
			if g.V != nil {
				g.V = j.val(vs)
			}
			n.Segs = append(n.Segs, g)
		}
		return n
	}
	// fold the stretches between distinguished elements into summaries
	type part struct {
		segs []Seg
		at   *Seg
	}
	split := func(a *ArrC) []part {
		var ps []part
		cur := part{}
		for i := range a.Segs {
			g := a.Segs[i]
			if (g.Kind == 'e' && e.isWit(g.V)) || g.Kind == 'k' {
				cur.at = &a.Segs[i]
				ps = append(ps, cur)
				cur = part{}
				continue
			}
			cur.segs = append(cur.segs, g)
		}
		return append(ps, cur)
	}
	parts := make([][]part, len(as))
	for i, a := range as {
		parts[i] = split(a)
		if len(parts[i]) != len(parts[0]) {
			j.fail = true
			return n
		}
	}
	for k := range parts[0] {
		segs := make([][]Seg, len(as))
		ls := make([]Lin, len(as))
		allEmpty := true
		for i := range as {
			segs[i] = parts[i][k].segs
			ls[i] = segsLen(segs[i])
			if !ls[i].Is0() {
				allEmpty = false
			}
		}
		if !allEmpty {
			l := j.lin(ls)
			idx := len(n.Segs)
			n.Segs = append(n.Segs, Seg{Kind: 's', Len: l})
			elem := n.Elem
			j.later(func() {
				var ts []tmpl
				for i := range as {
					start := K(0)
					for _, g := range segs[i] {
						ts = append(ts, tmpl{st: i, seg: g, start: start, arr: as[i]})
						start = start.Add(g.Len)
					}
				}
				n.Segs[idx].Sum = j.joinTemplates(ts, elem, nil)
			})
		}
		if parts[0][k].at != nil {
			g := *parts[0][k].at
			vs := make([]Val, len(as))
			lens := make([]Lin, len(as))
			for i := range as {
				vs[i] = parts[i][k].at.V
				lens[i] = parts[i][k].at.Len
				if parts[i][k].at.Name != g.Name {
					j.fail = true
				}
			}
			if g.V != nil {
				g.V = j.val(vs)
			}
			g.Len = j.lin(lens)
			n.Segs = append(n.Segs, g)
		}
	}
	return n
}

func (j *joiner) joinMap(ms []*MapC) *MapC {
	n := &MapC{Key: ms[0].Key, Val: ms[0].Val, Nil: ms[0].Nil}
	ns := make([]Lin, len(ms))
	for i, m := range ms {
		ns[i] = m.N
	}
	n.N = j.lin(ns)
	// entries kept apart: distinguished ones and constant keys present everywhere
	used := make([][]bool, len(ms))
	for i, m := range ms {
		used[i] = make([]bool, len(m.Known))
	}
	match := func(m *MapC, used []bool, k MEntry) int {
		for x, q := range m.Known {
			if !used[x] && q.Wit == k.Wit && (keyOf(q.K) == keyOf(k.K)) {
				return x
			}
		}
		if k.Wit {
			for x, q := range m.Known {
				if !used[x] && q.Wit {
					return x
				}
			}
		}
		return -1
	}
	for x, k := range ms[0].Known {
		if !k.Wit && !isConstKey(k.K) {
			continue
		}
		at := make([]int, len(ms))
		at[0] = x
		ok := true
		for i := 1; i < len(ms); i++ {
			at[i] = match(ms[i], used[i], k)
			if at[i] < 0 {
				ok = false
			}
		}
		if !ok {
			if k.Wit {
				j.fail = true
			}
			continue
		}
		ks := make([]Val, len(ms))
		vs := make([]Val, len(ms))
		for i := range ms {
			used[i][at[i]] = true
			ks[i], vs[i] = ms[i].Known[at[i]].K, ms[i].Known[at[i]].V
		}
		n.Known = append(n.Known, MEntry{j.val(ks), j.val(vs), k.Wit})
	}
	rest := false
	sameRest := true
	for i, m := range ms {
		for x := range m.Known {
			if !used[i][x] {
				rest = true
				sameRest = false
			}
		}
		if m.Rest != ms[0].Rest {
			sameRest = false
		}
		if m.Rest != nil {
			rest = true
		}
	}
	if !rest {
		return n
	}
	if sameRest {
		n.Rest = ms[0].Rest
		return n
	}
	n.Rest = &Summary{Idx: -1, Bot: true}
	j.later(func() {
		var ts []tmpl
		for i, m := range ms {
			for x, k := range m.Known {
				if !used[i][x] {
					k := k
					ts = append(ts, tmpl{st: i, ent: &k})
				}
			}
			if m.Rest != nil {
				ts = append(ts, tmpl{st: i, rest: m.Rest})
			}
		}
		n.Rest = j.joinTemplates(ts, n.Val, ms[0].Key)
	})
	return n
}

// later runs f once the integer slots of the whole state are known.
func (j *joiner) later(f func()) { j.e.laters[j] = append(j.e.laters[j], f) }

type tmpl struct {
	st    int
	seg   Seg
	start Lin
	arr   *ArrC
	ent   *MEntry
	rest  *Summary
}

// joinTemplates joins arbitrary elements taken from several states.
func (j *joiner) joinTemplates(ts []tmpl, elem, keyT interface{ String() string }) *Summary {
	e := j.e
	var sts []*State
	var from []int
	var ks, vs []Val
	var idx []Lin
	isMap := keyT != nil
	mark := len(e.atoms)
	for _, t := range ts {
		s := j.sts[t.st].clone()
		var k, v Val
		ok := true
		var ix Lin
		switch {
		case t.ent != nil:
			k, v = t.ent.K, t.ent.V
		case t.rest != nil:
			if t.rest.Bot {
				continue
			}
			if t.rest.V == nil {
				return &Summary{Idx: -1}
			}
			k, v, ok = e.instantiate(s, t.rest, Lin{}, nil, nil)
		default:
			if t.seg.Kind == 'u' {
				return &Summary{Idx: -1}
			}
			if t.seg.Kind == 's' && !t.seg.Sum.Bot && t.seg.Sum.V == nil {
				return &Summary{Idx: -1}
			}
			rel := K(0)
			if t.seg.Kind != 'e' {
				rel = e.newInt("ix")
				ok = e.addGe(s, rel) && e.addGe(s, t.seg.Len.Sub(rel).AddK(-1))
			}
			if ok {
				v, ok = e.segValue(s, t.arr, t.seg, rel)
			}
			ix = t.start.Add(rel)
		}
		if !ok {
			continue
		}
		sts = append(sts, s)
		from = append(from, t.st)
		ks = append(ks, e.nv(s, k))
		vs = append(vs, e.nv(s, v))
		idx = append(idx, e.n(s, ix))
	}
	if len(sts) == 0 {
		return &Summary{Idx: -1, Bot: true}
	}
	for a := mark; a < len(e.atoms); a++ {
		if e.atoms[a].Fn == "" {
			e.tmplAtoms[Atom(a)] = true
		}
	}
	t := e.newJoiner(sts...)
	t.noObj = true
	t.up, t.from, t.widen = j, from, j.widen
	t.out = &State{F: newFacts(), Heap: map[ObjID]*Obj{}, Ghost: map[string]Val{}}
	// the slots of the enclosing join come first: their atoms are already chosen
	var outer []nslot
	for _, s := range append(append([]nslot(nil), j.ctx...), j.slots...) {
		o := nslot{atom: s.atom}
		for i, f := range from {
			o.vals = append(o.vals, e.n(sts[i], s.vals[f]))
		}
		outer = append(outer, o)
	}
	m := &Summary{Idx: -1}
	var idxSlot Lin
	if !isMap {
		a := e.newAtom("ix", 'i')
		m.Idx = a
		t.sidx["idx"] = 0
		t.slots = append(t.slots, nslot{a, idx})
		var b strings.Builder
		for _, v := range idx {
			v.key(&b)
			b.WriteByte('~')
		}
		t.sidx[b.String()] = 0
		idxSlot = LA(a)
		t.fresh[a] = true
	}
	_ = idxSlot
	if isMap {
		m.K = t.val(ks)
	}
	m.V = t.val(vs)
	for len(t.todo) > 0 {
		f := t.todo[0]
		t.todo = t.todo[1:]
		f()
	}
	if t.fail {
		delete(e.laters, t)
		return &Summary{Idx: -1}
	}
	t.ctx = outer
	for _, f := range e.laters[t] {
		f()
	}
	delete(e.laters, t)
	// affine relations
	all := append(append([]nslot(nil), outer...), t.slots...)
	dep := e.karr(all, len(outer))
	s := newSubst()
	for a, l := range dep {
		if a == m.Idx {
			// the index is determined by outer values: keep the relation as facts
			m.Ge = append(m.Ge, LA(a).Sub(l), l.Sub(LA(a)))
			continue
		}
		s.M[a] = l
	}
	m.K = e.subst(m.K, s)
	m.V = e.subst(m.V, s)
	if len(t.out.Heap) > 0 {
		m.Objs = map[ObjID]*Obj{}
		for id, o := range t.out.Heap {
			m.Objs[id] = e.substObj(o, s)
			m.Objs[id].Rep = true
		}
	}
	for _, sl := range t.slots {
		if sl.atom != m.Idx && e.atoms[sl.atom].Fn == "" {
			if _, d := dep[sl.atom]; !d {
				m.Atoms = append(m.Atoms, sl.atom)
			}
		}
	}
	for _, sl := range t.strs {
		m.Atoms = append(m.Atoms, sl.atom)
	}
	for _, sl := range t.opqs {
		m.Atoms = append(m.Atoms, sl.atom)
	}
	// inequalities between the element and what surrounds it
	inst := func(i int, l Lin) Lin { // the value of l in state i
		q := newSubst()
		for _, sl := range all {
			if _, d := dep[sl.atom]; !d {
				q.M[sl.atom] = sl.vals[i]
			}
		}
		return e.substLin(l, q)
	}
	var piv []Lin
	for _, sl := range t.slots {
		if _, d := dep[sl.atom]; !d {
			piv = append(piv, LA(sl.atom))
		}
	}
	var others []Lin
	for _, sl := range outer {
		if _, d := dep[sl.atom]; !d {
			others = append(others, LA(sl.atom))
		}
	}
	shared := map[Atom]bool{}
	for _, s := range j.sts {
		for _, g := range s.F.Ge {
			for _, x := range g.T {
				if !e.tmplAtoms[x.A] && !j.fresh[x.A] && j.sharedAtom(x.A) {
					shared[x.A] = true
				}
			}
		}
	}
	for _, a := range sortedAtoms(shared) {
		others = append(others, LA(a))
	}
	adj := make([]map[[2]Atom]bool, len(sts))
	for i := range sts {
		adj[i] = e.adjacent(sts[i])
	}
	// linked: a relation of p and o can follow from the facts of every state
	linked := func(p, o Lin) bool {
		for i := range sts {
			x, y := e.n(sts[i], inst(i, p)), e.n(sts[i], inst(i, o))
			if x.IsK() || y.IsK() {
				continue
			}
			ok := false
			for _, s := range x.T {
				for _, t := range y.T {
					if s.A == t.A || adj[i][[2]Atom{s.A, t.A}] {
						ok = true
					}
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	try := func(l Lin) { // the best c with l + c >= 0 in every state
		best := int64(0)
		var old int64
		hasOld := false
		for i := range sts {
			lo, _, has, _ := e.boundsOf(sts[i], inst(i, l), nil)
			if !has || lo < -64 {
				return
			}
			if i == 0 || lo < best {
				best = lo
			}
			if from[i] == 0 && (!hasOld || lo < old) {
				old, hasOld = lo, true
			}
		}
		if j.widen >= 3 && hasOld && best < old {
			return // unstable
		}
		m.Ge = append(m.Ge, l.AddK(-best))
	}
	for i, p := range piv {
		try(p)
		try(p.Neg())
		for _, o := range others {
			if !linked(p, o) {
				continue
			}
			try(p.Sub(o))
			try(o.Sub(p))
		}
		for k := i + 1; k < len(piv); k++ {
			if !linked(p, piv[k]) {
				continue
			}
			try(p.Sub(piv[k]))
			try(piv[k].Sub(p))
		}
	}
	m.Ge = dropTrivial(dedupGe(m.Ge))
	for i := 0; len(m.Ge) > 4 && i < len(m.Ge); {
		cs := []Lin{m.Ge[i].Neg().AddK(-1)}
		cs = append(cs, m.Ge[:i]...)
		cs = append(cs, m.Ge[i+1:]...)
		if infeasible(cs) {
			m.Ge = append(append([]Lin(nil), m.Ge[:i]...), m.Ge[i+1:]...)
			continue
		}
		i++
	}
	// string disequalities
	for _, sl := range t.strs {
		cands := map[string]StrV{}
		for i := range sts {
			for _, n := range sts[i].F.Sne {
				if keyOf(n.A) == keyOf(sl.vals[i]) {
					cands[keyOf(n.B)] = n.B
				}
				if keyOf(n.B) == keyOf(sl.vals[i]) {
					cands[keyOf(n.A)] = n.A
				}
			}
		}
		for w := range e.witStrs {
			cands[keyOf(SA(w))] = SA(w)
		}
		for _, k := range sortedStrKeys(cands) {
			c := cands[k]
			ok := true
			for i := range sts {
				if e.strKnown(sts[i], sl.vals[i], c) != 0 {
					ok = false
				}
			}
			if ok {
				m.Sne = append(m.Sne, StrNe{SA(sl.atom), c})
			}
		}
	}
	// element terms: disequalities with constants
	e.termSne(m, sts, t, all, dep)
	// predicates on opaque parts
	for _, sl := range t.opqs {
		if sl.sort != 'o' {
			continue
		}
		first := true
		val, agree := false, true
		for i := range sts {
			p := e.fnAtom("isnil", 'b', sl.vals[i])
			v, ok := sts[i].F.Preds[p]
			if !ok || (!first && v != val) {
				agree = false
				break
			}
			val, first = v, false
		}
		if agree {
			m.Preds = append(m.Preds, PredF{e.fnAtom("isnil", 'b', OpqV{A: sl.atom}), val})
		}
	}
	return m
}

func sortedStrKeys(m map[string]StrV) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// termSne keeps disequalities such as element(args, i) != "-u" for terms in a joined template.
func (e *Engine) termSne(m *Summary, sts []*State, t *joiner, all []nslot, dep map[Atom]Lin) {
	terms := map[Atom]bool{}
	see := func(v Val) {
		if v != nil {
			e.eachAtom(v, func(a Atom) {
				if e.atoms[a].Sort == 's' && e.atoms[a].Fn != "" {
					terms[a] = true
				}
			})
		}
	}
	see(m.K)
	see(m.V)
	for _, a := range sortedAtoms(terms) {
		cands := map[string]StrV{}
		inst := make([]StrV, len(sts))
		for i := range sts {
			q := newSubst()
			for _, sl := range all {
				if _, d := dep[sl.atom]; !d {
					q.M[sl.atom] = sl.vals[i]
				}
			}
			for _, sl := range t.strs {
				q.M[sl.atom] = sl.vals[i]
			}
			inst[i] = e.normStr(sts[i], e.substStr(SA(a), q))
			for _, n := range sts[i].F.Sne {
				if keyOf(n.A) == keyOf(inst[i]) {
					cands[keyOf(n.B)] = n.B
				}
			}
		}
		for w := range e.witStrs {
			cands[keyOf(SA(w))] = SA(w)
		}
		for _, k := range sortedStrKeys(cands) {
			if _, isC := cands[k].Const(); !isC && !e.isWit(cands[k]) {
				continue
			}
			ok := true
			for i := range sts {
				if e.strKnown(sts[i], inst[i], cands[k]) != 0 {
					ok = false
				}
			}
			if ok {
				m.Sne = append(m.Sne, StrNe{SA(a), cands[k]})
			}
		}
	}
}

// sharedAtom: an atom that means the same thing in every joined state.
func (j *joiner) sharedAtom(a Atom) bool {
	if j.e.atoms[a].Sort != 'i' {
		return false
	}
	// it must be known to all of them: mentioned in their facts or values
	for _, s := range j.sts {
		if !j.e.stateAtoms(s)[a] {
			return false
		}
	}
	return true
}

func (e *Engine) stateAtoms(s *State) map[Atom]bool {
	if m, ok := e.atomCache[s]; ok {
		return m
	}
	m := e.liveAtoms(s)
	for _, g := range s.F.Ge {
		e.eachAtom(g, func(a Atom) { m[a] = true })
	}
	e.atomCache[s] = m
	return m
}

// karr finds affine relations valid in all states: dependent slots are expressed by earlier ones.
// The first fixedN slots are never eliminated.
func (e *Engine) karr(slots []nslot, fixedN int) map[Atom]Lin {
	type row struct {
		d    []Lin // differences to state 0, one per further state
		comb map[int]rat
	}
	dep := map[Atom]Lin{}
	if len(slots) == 0 {
		return dep
	}
	nst := len(slots[0].vals)
	// dimensions: (state, atom) and (state, const)
	type dim struct {
		s int
		a Atom
	}
	dims := map[dim]int{}
	vec := func(i int) map[int]rat {
		v := map[int]rat{}
		for s := 1; s < nst; s++ {
			d := slots[i].vals[s].Sub(slots[i].vals[0])
			put := func(a Atom, k int64) {
				x := dim{s, a}
				id, ok := dims[x]
				if !ok {
					id = len(dims)
					dims[x] = id
				}
				v[id] = rat{k, 1}
			}
			for _, t := range d.T {
				put(t.A, t.K)
			}
			if d.C != 0 {
				put(-1, d.C)
			}
		}
		return v
	}
	type brow struct {
		v     map[int]rat
		comb  map[int]rat // as a combination of slots
		pivot int
	}
	var basis []brow
	for i := range slots {
		v := vec(i)
		comb := map[int]rat{i: {1, 1}}
		for _, b := range basis {
			c, ok := v[b.pivot]
			if !ok || c.n == 0 {
				continue
			}
			f := c.div(b.v[b.pivot])
			for k, x := range b.v {
				v[k] = v[k].sub(f.mul(x))
			}
			for k, x := range b.comb {
				comb[k] = comb[k].sub(f.mul(x))
			}
		}
		piv := -1
		for k, x := range v {
			if x.n != 0 && (piv < 0 || k < piv) {
				piv = k
			}
		}
		if piv >= 0 {
			basis = append(basis, brow{v, comb, piv})
			continue
		}
		// sum comb_k slot_k is the same in all states
		if i < fixedN {
			continue
		}
		expr := Lin{}
		ok := true
		cst := Lin{}
		for k, x := range comb {
			if x.n == 0 {
				continue
			}
			if x.d != 1 {
				ok = false
				break
			}
			cst = combine(cst, 1, slots[k].vals[0], x.n)
			if k == i {
				continue
			}
			expr = combine(expr, 1, LA(slots[k].atom), -x.n)
		}
		if !ok {
			continue
		}
		dep[slots[i].atom] = expr.Add(cst)
	}
	// resolve dependencies on dependents (a dependent only uses basis slots, but a basis slot may repeat)
	for pass := 0; pass < 3; pass++ {
		s := newSubst()
		for a, l := range dep {
			s.M[a] = l
		}
		changed := false
		for a, l := range dep {
			self := false
			for _, t := range l.T {
				if t.A == a {
					self = true
				}
			}
			if self {
				delete(dep, a)
				continue
			}
			n := Lin{C: l.C}
			for _, t := range l.T {
				if r, ok := dep[t.A]; ok {
					n = combine(n, 1, r, t.K)
					changed = true
				} else {
					n = combine(n, 1, LA(t.A), t.K)
				}
			}
			dep[a] = n
		}
		if !changed {
			break
		}
	}
	return dep
}

type rat struct{ n, d int64 }

func (a rat) norm() rat {
	if a.n == 0 {
		return rat{0, 1}
	}
	if a.d == 0 {
		return rat{a.n, 1}
	}
	g := gcd(a.n, a.d)
	a.n, a.d = a.n/g, a.d/g
	if a.d < 0 {
		a.n, a.d = -a.n, -a.d
	}
	return a
}
func (a rat) den() int64 {
	if a.d == 0 {
		return 1
	}
	return a.d
}
func (a rat) mul(b rat) rat { return rat{a.n * b.n, a.den() * b.den()}.norm() }
func (a rat) div(b rat) rat { return rat{a.n * b.den(), a.den() * b.n}.norm() }
func (a rat) sub(b rat) rat { return rat{a.n*b.den() - b.n*a.den(), a.den() * b.den()}.norm() }

// rename gives fresh names to the given atoms throughout a state.
func (e *Engine) rename(st *State, atoms map[Atom]bool) *State {
	s := st.clone()
	for i := range s.Frames {
		s.Frames[i] = s.Frames[i].clone()
	}
	sub := newSubst()
	for a := range atoms {
		ai := e.atoms[a]
		n := e.newAtom(ai.Name, ai.Sort)
		e.atoms[n].HasB, e.atoms[n].Lo, e.atoms[n].Hi = ai.HasB, ai.Lo, ai.Hi
		switch ai.Sort {
		case 'i':
			sub.M[a] = LA(n)
		case 's':
			sub.M[a] = SA(n)
		case 'b':
			sub.M[a] = BoolV{&BExpr{K: 'p', P: n}}
		default:
			sub.M[a] = OpqV{A: n}
		}
	}
	old := s.Sub
	s.Sub = sub
	e.substFacts(s, sub)
	e.flush(s)
	s.Sub = nil
	if old != nil {
		n := newSubst()
		for a, v := range old.M {
			nv := e.subst(v, sub)
			if r := e.atomVal(a, sub); r != nil {
				if sv, ok := r.(StrV); ok {
					if b, ok := sv.Atom(); ok {
						n.M[b] = nv
					}
				}
				continue
			}
			n.M[a] = nv
		}
		s.Sub = n
	}
	return s
}

// join computes an upper bound of a and b, which have the same signature.
// bind: the atoms of a that stand for generalised quantities. It returns the new state and its own such atoms.
func (e *Engine) join(a, b *State, bind map[Atom]bool, widen int) (*State, map[Atom]bool, bool) {
	if len(bind) > 0 {
		a = e.rename(a, bind)
	}
	defer func() { e.atomCache = map[*State]map[Atom]bool{} }()
	j := e.newJoiner(a, b)
	j.widen = widen
	out := &State{F: newFacts(), Heap: map[ObjID]*Obj{}, Ghost: map[string]Val{}, Trace: a.Trace, Iter: a.Iter, Lossy: joinLossy(a.Lossy, b.Lossy)}
	j.out = out
	for i := range a.Frames {
		fa, fb := a.Frames[i], b.Frames[i]
		f := &Frame{Fn: fa.Fn, Site: fa.Site, Regs: map[ssa.Value]Val{}}
		for _, v := range e.regOrder(fa) {
			y, ok := fb.Regs[v]
			if !ok {
				continue
			}
			f.Regs[v] = j.val([]Val{fa.Regs[v], y})
		}
		for k, d := range fa.Defers {
			if k >= len(fb.Defers) {
				j.fail = true
				break
			}
			nd := Deferred{Call: d.Call, Pos: d.Pos, Fn: j.val([]Val{d.Fn, fb.Defers[k].Fn})}
			for x := range d.Args {
				nd.Args = append(nd.Args, j.val([]Val{d.Args[x], fb.Defers[k].Args[x]}))
			}
			f.Defers = append(f.Defers, nd)
		}
		out.Frames = append(out.Frames, f)
	}
	for _, k := range ghostKeys(a) {
		y, ok := b.Ghost[k]
		if !ok {
			j.fail = true
			continue
		}
		out.Ghost[k] = j.val([]Val{a.Ghost[k], y})
	}
	for _, g := range e.globalOrder {
		id := e.globals[g]
		if a.Heap[id] != nil && b.Heap[id] != nil {
			j.obj([]ObjID{id, id})
		}
	}
	for len(j.todo) > 0 {
		f := j.todo[0]
		j.todo = j.todo[1:]
		f()
	}
	if j.fail {
		delete(e.laters, j)
		return nil, nil, false
	}
	// derived quantities (prefix sums) as candidates for relations
	plain := j.slots
	if e.derived != nil {
		extra := e.derived(j)
		j.slots = append(extra, plain...)
	}
	dep := e.karr(j.slots, 0)
	// templates
	for _, f := range e.laters[j] {
		f()
	}
	delete(e.laters, j)
	// rewrite dependents away
	sub := newSubst()
	for at, l := range dep {
		if e.atoms[at].Fn == "" {
			sub.M[at] = l
		}
	}
	out.Sub = sub
	e.flush(out)
	out.Sub = nil
	// facts
	e.joinFacts(j, out, dep, widen)
	// solved equalities on terms that hold on both sides
	if a.Sub != nil && b.Sub != nil {
		n := newSubst()
		for at, v := range a.Sub.M {
			if w, ok := b.Sub.M[at]; ok && keyOf(v) == keyOf(w) && e.atoms[at].Fn != "" {
				n.M[at] = v
			}
		}
		if len(n.M) > 0 {
			out.Sub = n
		}
	}
	nb := map[Atom]bool{}
	for at := range j.fresh {
		if _, d := dep[at]; !d {
			nb[at] = true
		}
	}
	return out, nb, true
}

func (e *Engine) joinFacts(j *joiner, out *State, dep map[Atom]Lin, widen int) {
	a, b := j.sts[0], j.sts[1]
	inst := func(i int) *Subst {
		q := newSubst()
		for _, sl := range j.slots {
			if _, d := dep[sl.atom]; !d {
				q.M[sl.atom] = sl.vals[i]
			}
		}
		for _, sl := range j.strs {
			q.M[sl.atom] = sl.vals[i]
		}
		for _, sl := range j.opqs {
			switch sl.sort {
			case 'v':
				if l, ok := sl.vals[i].(Lin); ok {
					q.M[sl.atom] = l
				} else if bv, ok := sl.vals[i].(BVV); ok {
					q.M[sl.atom] = e.bvToLin(bv)
				}
			default:
				q.M[sl.atom] = sl.vals[i]
			}
		}
		return q
	}
	qa, qb := inst(0), inst(1)
	seen := map[string]bool{}
	add := func(l Lin) {
		if l.IsK() {
			return
		}
		l = tighten(l)
		k := l.Key()
		if seen[k] {
			return
		}
		seen[k] = true
		if e.entails(a, e.substLin(l, qa)) && e.entails(b, e.substLin(l, qb)) {
			out.F.Ge = append(out.F.Ge, l)
		}
	}
	// facts on shared atoms, and facts rewritten in terms of the slots
	for i, s := range j.sts {
		inv := newSubst()
		for _, sl := range j.slots {
			if _, d := dep[sl.atom]; d {
				continue
			}
			v := sl.vals[i]
			if len(v.T) == 1 && (v.T[0].K == 1 || v.T[0].K == -1) {
				at := v.T[0].A
				if _, ok := inv.M[at]; !ok {
					// v = k*at + c  ->  at = k*(slot - c)
					inv.M[at] = LA(sl.atom).AddK(-v.C).Mul(v.T[0].K)
				}
			}
		}
		for _, g := range s.F.Ge {
			if i == 1 && widen >= 3 {
				break // only what held before survives
			}
			add(g)
			if n := e.substLin(g, inv); !n.Eq(g) {
				add(n)
			}
		}
		for _, g := range s.F.Ne {
			for _, l := range []Lin{g, e.substLin(g, inv)} {
				k := "ne" + l.Key()
				if seen[k] || l.IsK() {
					continue
				}
				seen[k] = true
				if e.entailsNe(a, e.substLin(l, qa)) && e.entailsNe(b, e.substLin(l, qb)) {
					out.F.Ne = append(out.F.Ne, l)
				}
			}
		}
	}
	// zones over the slots
	var piv, others []Lin
	for _, sl := range j.slots {
		if _, d := dep[sl.atom]; !d {
			piv = append(piv, LA(sl.atom))
		}
	}
	shared := map[Atom]bool{}
	sa, sb := e.stateAtoms(a), e.stateAtoms(b)
	for at := range sa {
		if sb[at] && e.atoms[at].Sort == 'i' && !j.fresh[at] {
			if e.atoms[at].HasB && e.atoms[at].Fn != "" {
				continue // bytes and the like
			}
			shared[at] = true
		}
	}
	for _, at := range sortedAtoms(shared) {
		others = append(others, LA(at))
	}
	try := func(l Lin) {
		k := "z" + termKey(l)
		if seen[k] {
			return
		}
		seen[k] = true
		lo1, _, h1, _ := e.boundsOf(a, e.substLin(l, qa), nil)
		if !h1 {
			return
		}
		lo2, _, h2, _ := e.boundsOf(b, e.substLin(l, qb), nil)
		if !h2 {
			return
		}
		c := lo1
		if lo2 < c {
			if widen >= 2 {
				return // unstable
			}
			c = lo2
		}
		if c < -4096 || c > 1<<40 {
			return
		}
		out.F.Ge = append(out.F.Ge, tighten(l.AddK(-c)))
	}
	if widen >= 7 {
		piv = nil // the old facts only
	}
	for i, p := range piv {
		try(p)
		try(p.Neg())
		for _, o := range others {
			try(p.Sub(o))
			try(o.Sub(p))
		}
		for k := i + 1; k < len(piv); k++ {
			try(p.Sub(piv[k]))
			try(piv[k].Sub(p))
			try(p.Add(piv[k]))
			if len(piv) <= 8 {
				for _, o := range others {
					try(o.Sub(p).Sub(piv[k]))
					try(p.Sub(piv[k]).Sub(o))
					try(p.Sub(piv[k]).Add(o))
				}
				for x := k + 1; x < len(piv); x++ {
					for _, q := range []Lin{p.Sub(piv[k]).Sub(piv[x]), piv[k].Sub(p).Sub(piv[x]), piv[x].Sub(p).Sub(piv[k])} {
						try(q)
						try(q.Neg())
					}
				}
			}
		}
	}
	out.F.Ge = dropTrivial(dedupGe(out.F.Ge))
	e.prune(out)
	// strings
	type pair struct{ x, y StrV }
	cands := map[string]pair{}
	for i, s := range j.sts {
		back := map[string]Atom{}
		for _, sl := range j.strs {
			back[keyOf(sl.vals[i])] = sl.atom
		}
		inv := newSubst()
		for _, sl := range j.slots {
			if _, d := dep[sl.atom]; d {
				continue
			}
			v := sl.vals[i]
			if len(v.T) == 1 && v.T[0].K == 1 {
				if _, ok := inv.M[v.T[0].A]; !ok {
					inv.M[v.T[0].A] = LA(sl.atom).AddK(-v.C)
				}
			}
		}
		re := func(x StrV) []StrV {
			r := []StrV{x}
			if at, ok := back[keyOf(x)]; ok {
				r = append(r, SA(at))
			}
			if y := e.substStr(x, inv); keyOf(y) != keyOf(x) {
				r = append(r, y)
			}
			return r
		}
		for _, n := range s.F.Sne {
			for _, x := range re(n.A) {
				for _, y := range re(n.B) {
					cands[keyOf(x)+keyOf(y)] = pair{x, y}
				}
			}
		}
	}
	// a slot that was a constant on one side: disequalities with the other constants come from the other side
	var cks []string
	for k := range cands {
		cks = append(cks, k)
	}
	sort.Strings(cks)
	for _, k := range cks {
		c := cands[k]
		if e.strKnown(a, e.substStr(c.x, qa), e.substStr(c.y, qa)) == 0 && e.strKnown(b, e.substStr(c.x, qb), e.substStr(c.y, qb)) == 0 {
			if e.strKnown(out, c.x, c.y) == -1 {
				out.F.Sne = append(out.F.Sne, StrNe{c.x, c.y})
			}
		}
	}
	// predicates
	for i, s := range j.sts {
		back := newSubst()
		for _, sl := range j.strs {
			if at, ok := sl.vals[i].Atom(); ok {
				back.M[at] = SA(sl.atom)
			}
		}
		for _, sl := range j.opqs {
			if o, ok := sl.vals[i].(OpqV); ok {
				back.M[o.A] = OpqV{A: sl.atom}
			}
		}
		for at, v := range s.F.Preds {
			for _, p := range []Val{BoolV{&BExpr{K: 'p', P: at}}, e.substPred(at, back)} {
				bx, ok := p.(BoolV)
				if !ok || bx.E.K != 'p' {
					continue
				}
				if _, done := out.F.Preds[bx.E.P]; done {
					continue
				}
				want := 0
				if v {
					want = 1
				}
				if e.evalB(a, e.substB(bx.E, qa)) == want && e.evalB(b, e.substB(bx.E, qb)) == want {
					out.F.Preds[bx.E.P] = v
				}
			}
		}
	}
	for bit, v := range a.F.Bits {
		if w, ok := b.F.Bits[bit]; ok && w == v {
			out.F.Bits[bit] = v
		}
	}
}

func (e *Engine) substPred(a Atom, s *Subst) Val {
	if v := e.atomVal(a, s); v != nil {
		return v
	}
	return nil
}

// prune removes redundant inequalities.
func (e *Engine) prune(st *State) {
	if len(st.F.Ge) > 120 {
		return
	}
	for i := len(st.F.Ge) - 1; i >= 0; i-- {
		l := st.F.Ge[i]
		if len(l.T) < 2 {
			continue
		}
		rest := append(append([]Lin(nil), st.F.Ge[:i]...), st.F.Ge[i+1:]...)
		s := &State{F: &Facts{Ge: rest}}
		if e.entails(s, l) {
			st.F.Ge = rest
		}
	}
}

// ---- subsumption

type matcher struct {
	e    *Engine
	m, b *State
	bind map[Atom]bool
	sub  *Subst
	objs map[ObjID]ObjID
	back map[ObjID]ObjID
	seqs [][2]StrV
	eqs  [][2]Lin
	tmpl [][2]interface{}
	ok   bool
	todo []func()
	last []func()
	sch  map[ObjID]*Obj // schematic objects of the templates around
}

// subsumed reports whether every concrete state of b is one of m.
func (e *Engine) subsumed(b, m *State, bind map[Atom]bool) bool {
	t := &matcher{e: e, m: m, b: b, bind: bind, sub: newSubst(), objs: map[ObjID]ObjID{}, back: map[ObjID]ObjID{}, ok: true}
	for i := range m.Frames {
		fm, fb := m.Frames[i], b.Frames[i]
		for _, v := range e.regOrder(fm) {
			y, ok := fb.Regs[v]
			if !ok {
				return false
			}
			t.val(fm.Regs[v], y)
		}
		if len(fm.Defers) != len(fb.Defers) {
			return false
		}
		for k := range fm.Defers {
			for x := range fm.Defers[k].Args {
				t.val(fm.Defers[k].Args[x], fb.Defers[k].Args[x])
			}
		}
	}
	for _, k := range ghostKeys(m) {
		y, ok := b.Ghost[k]
		if !ok {
			return false
		}
		t.val(m.Ghost[k], y)
	}
	for _, g := range e.globalOrder {
		id := e.globals[g]
		if m.Heap[id] != nil && b.Heap[id] != nil {
			t.obj(id, id)
		}
	}
	for len(t.todo) > 0 && t.ok {
		f := t.todo[0]
		t.todo = t.todo[1:]
		f()
	}
	for len(t.last) > 0 && t.ok {
		f := t.last[0]
		t.last = t.last[1:]
		f()
	}
	if !t.ok {
		return false
	}
	return t.check(m, b)
}

func (t *matcher) check(m, b *State) bool {
	e := t.e
	for _, q := range t.eqs {
		if !e.entailsEq(b, e.substLin(q[0], t.sub).Sub(q[1])) {
			e.why = "eq " + e.linString(q[0]) + " vs " + e.linString(q[1])
			return false
		}
	}
	for _, q := range t.seqs {
		free := false
		e.eachAtom(q[0], func(a Atom) {
			if t.bind[a] {
				if _, ok := t.sub.M[a]; !ok {
					free = true
				}
			}
		})
		if free || e.strKnown(b, e.substStr(q[0], t.sub), q[1]) != 1 {
			e.why = "str " + e.valString(q[0]) + " vs " + e.valString(q[1])
			return false
		}
	}
	for _, g := range m.F.Ge {
		n := e.substLin(g, t.sub)
		if t.unbound(n) {
			continue // about a quantity that occurs nowhere
		}
		if !e.entails(b, n) {
			e.why = "ge " + e.linString(g)
			return false
		}
	}
	for _, g := range m.F.Ne {
		n := e.substLin(g, t.sub)
		if t.unbound(n) {
			continue
		}
		if !e.entailsNe(b, n) {
			e.why = "ne " + e.linString(g)
			return false
		}
	}
	for _, n := range m.F.Sne {
		if e.strKnown(b, e.substStr(n.A, t.sub), e.substStr(n.B, t.sub)) != 0 {
			e.why = "sne " + e.valString(n.A)
			return false
		}
	}
	for a, v := range m.F.Preds {
		x := &BExpr{K: 'p', P: a}
		want := 0
		if v {
			want = 1
		}
		if e.evalB(b, e.substB(x, t.sub)) != want {
			e.why = "pred " + e.atomName(a)
			return false
		}
	}
	for bit, v := range m.F.Bits {
		if w, ok := b.F.Bits[bit]; !ok || w != v {
			e.why = "bits"
			return false
		}
	}
	if m.Sub != nil {
		for a, v := range m.Sub.M {
			x := e.nv(b, e.subst(SA(a), t.sub))
			if e.atoms[a].Sort != 's' || keyOf(x) != keyOf(e.nv(b, e.subst(v, t.sub))) {
				e.why = "sub"
				return false
			}
		}
	}
	return true
}

func (t *matcher) unbound(l Lin) bool {
	r := false
	t.e.eachAtom(l, func(a Atom) {
		if t.bind[a] {
			if _, ok := t.sub.M[a]; !ok {
				r = true
			}
		}
	})
	return r
}

func (t *matcher) bad(why string) {
	if t.ok {
		t.e.why = why
	}
	t.ok = false
}

func (t *matcher) bindAtom(a Atom, v Val) {
	t.sub.M[a] = v
	t.sub.memo = map[Atom]Val{}
}

func (t *matcher) lin(x, y Lin) {
	if a, ok := x.IsAtom(); ok && t.bind[a] {
		if _, done := t.sub.M[a]; !done {
			t.bindAtom(a, y)
			return
		}
	}
	if a, ok := x.IsAtom(); ok && t.e.atoms[a].Fn == "crc" && y.Is0() {
		t.lin(t.e.atoms[a].Args[1].(Lin), y)
		return
	}
	if a, ok := x.IsAtom(); ok && t.e.structFn[t.e.atoms[a].Fn] {
		if b, ok := y.IsAtom(); ok && t.e.atoms[a].Fn == t.e.atoms[b].Fn && len(t.e.atoms[a].Args) == len(t.e.atoms[b].Args) {
			for i := range t.e.atoms[a].Args {
				t.val(t.e.atoms[a].Args[i], t.e.atoms[b].Args[i])
			}
			return
		}
	}
	// one unbound atom with unit coefficient: solve for it
	var free Atom = -1
	n := 0
	for _, q := range x.T {
		if t.bind[q.A] {
			if _, done := t.sub.M[q.A]; !done {
				n++
				if q.K == 1 || q.K == -1 {
					free = q.A
				}
			}
		}
	}
	if n == 1 && free >= 0 {
		k := x.Coef(free)
		rest := x.Sub(LA(free).Mul(k))
		t.bindAtom(free, y.Sub(t.e.substLin(rest, t.sub)).Mul(k))
		return
	}
	t.eqs = append(t.eqs, [2]Lin{x, y})
}

func (t *matcher) str(x, y StrV) {
	if a, ok := x.Atom(); ok && t.bind[a] {
		if v, done := t.sub.M[a]; done {
			if t.e.strKnown(t.b, v.(StrV), y) != 1 {
				t.bad("str")
			}
			return
		}
		t.bindAtom(a, y)
		return
	}
	if keyOf(x) == keyOf(y) {
		return
	}
	// parts of the same shape
	if len(x.P) == len(y.P) {
		same := true
		for i := range x.P {
			p, q := x.P[i], y.P[i]
			if p.V != q.V || !p.V && p.C != q.C {
				same = false
				break
			}
			if p.V && p.A != q.A && !t.bind[p.A] {
				ai, bi := t.e.atoms[p.A], t.e.atoms[q.A]
				if ai.Fn == "" || ai.Fn != bi.Fn || len(ai.Args) != len(bi.Args) {
					same = false
					break
				}
			}
		}
		if same {
			for i := range x.P {
				p, q := x.P[i], y.P[i]
				if !p.V || p.A == q.A {
					continue
				}
				if t.bind[p.A] {
					t.str(SA(p.A), SA(q.A))
					continue
				}
				ai, bi := t.e.atoms[p.A], t.e.atoms[q.A]
				for k := range ai.Args {
					t.val(ai.Args[k], bi.Args[k])
				}
			}
			return
		}
	}
	// equal under the facts of the state, once everything is bound
	t.seqs = append(t.seqs, [2]StrV{x, y})
}

func (t *matcher) val(x, y Val) {
	if !t.ok {
		return
	}
	switch x := x.(type) {
	case nil:
		if y != nil {
			t.bad("nil")
		}
	case Lin:
		switch y := y.(type) {
		case Lin:
			t.lin(x, y)
		case BVV:
			if a, ok := x.IsAtom(); ok && t.bind[a] {
				if v, done := t.sub.M[a]; done {
					if keyOf(v) != keyOf(y) {
						t.bad("bv")
					}
					return
				}
				t.bindAtom(a, y)
				return
			}
			t.bad("bvlin")
		default:
			t.bad("lin")
		}
	case BVV:
		if t.e.bvMatch != nil && t.e.bvMatch(t, x, y) {
			return
		}
		if keyOf(x) != keyOf(y) {
			t.bad("bv")
		}
	case StrV:
		if s, ok := y.(StrV); ok {
			t.str(x, s)
		} else {
			t.bad("str")
		}
	case BoolV:
		b, ok := y.(BoolV)
		if !ok {
			t.bad("bool")
			return
		}
		if x.E.K == 'p' && t.bind[x.E.P] {
			if _, done := t.sub.M[x.E.P]; !done {
				t.bindAtom(x.E.P, y)
				return
			}
		}
		if keyOf(BoolV{t.e.substB(x.E, t.sub)}) != keyOf(b) {
			t.bad("bool")
		}
	case PtrV:
		p, ok := y.(PtrV)
		if !ok || len(p.Path) != len(x.Path) {
			t.bad("ptr")
			return
		}
		t.obj(x.Obj, p.Obj)
		for i := range x.Path {
			if x.Path[i].IsI != p.Path[i].IsI || x.Path[i].F != p.Path[i].F {
				t.bad("path")
				return
			}
			if x.Path[i].IsI {
				t.lin(x.Path[i].Idx, p.Path[i].Idx)
			}
		}
	case NodeV:
		p, ok := y.(NodeV)
		if !ok || len(p.Path) != len(x.Path) {
			t.bad("node")
			return
		}
		t.obj(x.List, p.List)
		t.lin(x.K, p.K)
	case SliceV:
		p, ok := y.(SliceV)
		if !ok {
			t.bad("slice")
			return
		}
		if o := t.sch[x.Arr]; o != nil && o.MayNil && p.Arr == 0 {
			p.Arr = t.e.alloc(t.b, &Obj{Typ: o.Typ, Arr: &ArrC{Elem: o.Arr.Elem}, MayNil: true})
		}
		t.obj(x.Arr, p.Arr)
		t.lin(x.Off, p.Off)
		t.lin(x.Len, p.Len)
	case MapV:
		p, ok := y.(MapV)
		if !ok {
			t.bad("map")
			return
		}
		t.obj(x.Obj, p.Obj)
	case ChanV:
		p, ok := y.(ChanV)
		if !ok {
			t.bad("chan")
			return
		}
		t.obj(x.Obj, p.Obj)
	case StructV:
		p, ok := y.(StructV)
		if !ok || len(p.F) != len(x.F) {
			t.bad("struct")
			return
		}
		for i := range x.F {
			t.val(x.F[i], p.F[i])
		}
	case TupleV:
		p, ok := y.(TupleV)
		if !ok || len(p) != len(x) {
			t.bad("tuple")
			return
		}
		for i := range x {
			t.val(x[i], p[i])
		}
	case IfaceV:
		p, ok := y.(IfaceV)
		if !ok || (x.T == nil) != (p.T == nil) {
			t.bad("iface")
			return
		}
		if x.T != nil {
			if x.T.String() != p.T.String() {
				t.bad("ifacetype")
				return
			}
			t.val(x.V, p.V)
		}
	case FuncV:
		p, ok := y.(FuncV)
		if !ok || p.Fn != x.Fn || p.Ext != x.Ext || len(p.Bind) != len(x.Bind) {
			t.bad("func")
			return
		}
		for i := range x.Bind {
			t.val(x.Bind[i], p.Bind[i])
		}
	case OpqV:
		p, ok := y.(OpqV)
		if !ok {
			t.bad("opq")
			return
		}
		if t.bind[x.A] {
			if v, done := t.sub.M[x.A]; done {
				if keyOf(v) != keyOf(y) {
					t.bad("opq2")
				}
				return
			}
			t.bindAtom(x.A, y)
			return
		}
		if x.A != p.A {
			t.bad("opq3")
		}
	case ModelV:
		p, ok := y.(ModelV)
		if !ok || p.Kind != x.Kind || len(p.F) != len(x.F) {
			t.bad("model")
			return
		}
		for _, k := range sortedKeys(x.F) {
			t.val(x.F[k], p.F[k])
		}
	case ErrV:
		p, ok := y.(ErrV)
		if !ok || (x.Kind != "any" && p.Kind != x.Kind) {
			t.bad("err")
			return
		}
		if len(x.Msg.P) == 1 && x.Msg.P[0].V && t.bind[x.Msg.P[0].A] {
			if _, done := t.sub.M[x.Msg.P[0].A]; !done {
				t.str(x.Msg, p.Msg)
			}
		}
	case *MapIter:
		p, ok := y.(*MapIter)
		if !ok {
			t.bad("iter")
			return
		}
		t.obj(x.Map, p.Map)
		t.lin(x.Pos, p.Pos)
		t.str(x.Str, p.Str)
		for _, k := range x.Visited {
			in := false
			for _, q := range p.Visited {
				in = in || q == k
			}
			if !in {
				t.bad("visited")
			}
		}
	default:
		t.bad("kind")
	}
}

func (t *matcher) obj(x, y ObjID) {
	if (x == 0) != (y == 0) {
		t.bad("objnil")
		return
	}
	if x == 0 {
		return
	}
	if z, ok := t.objs[x]; ok {
		if z != y {
			t.bad("alias")
		}
		return
	}
	ox, oy := t.m.Heap[x], t.b.Heap[y]
	if s := t.sch[x]; s != nil {
		ox = s
		if z, ok := t.back[y]; ok {
			if o := t.m.Heap[z]; o != nil && !o.Rep && t.sch[z] == nil {
				t.bad("aliasrep")
				return
			}
		}
		t.objs[x] = y
	} else {
		if z, ok := t.back[y]; ok && z != x {
			t.bad("alias2")
			return
		}
		t.objs[x] = y
		t.back[y] = x
	}
	if ox == nil || oy == nil {
		t.bad("noobj")
		return
	}
	t.todo = append(t.todo, func() { t.object(ox, oy) })
}

func (t *matcher) object(ox, oy *Obj) {
	if oy.Rep && !ox.Rep {
		t.bad("rep")
		return
	}
	if oy.MayNil && !ox.MayNil {
		t.bad("maynil")
		return
	}
	if (ox.Arr == nil) != (oy.Arr == nil) || (ox.Map == nil) != (oy.Map == nil) || (ox.List == nil) != (oy.List == nil) || (ox.V == nil) != (oy.V == nil) {
		t.bad("objkind")
		return
	}
	if ox.V != nil {
		t.val(ox.V, oy.V)
	}
	if ox.List != nil {
		t.lin(ox.List.Count, oy.List.Count)
		if len(ox.List.Over) != len(oy.List.Over) {
			t.bad("list")
			return
		}
		for i := range ox.List.Over {
			t.lin(ox.List.Over[i].K, oy.List.Over[i].K)
			t.val(ox.List.Over[i].V, oy.List.Over[i].V)
		}
	}
	if ox.Arr != nil {
		t.arr(ox.Arr, oy.Arr)
	}
	if ox.Map != nil {
		t.mapc(ox.Map, oy.Map)
	}
}

func (t *matcher) arr(x, y *ArrC) {
	e := t.e
	if x == y && len(x.Segs) > 12 || constTable(x) && sameTable(x, y) {
		return
	}
	same := len(x.Segs) == len(y.Segs)
	if same {
		for i := range x.Segs {
			p, q := x.Segs[i], y.Segs[i]
			if p.Kind != q.Kind || p.Name != q.Name || (p.Kind == 's' && p.Sum != q.Sum) || ((p.Kind == 'b' || p.Kind == 'r') && keyOf(p.V) != keyOf(q.V)) {
				same = false
				break
			}
		}
	}
	if same {
		for i := range x.Segs {
			p, q := x.Segs[i], y.Segs[i]
			t.lin(p.Len, q.Len)
			t.lin(p.From, q.From)
			if p.Kind == 'e' {
				t.val(p.V, q.V)
			}
		}
		return
	}
	// segment by segment, distinguished elements aligned
	xi := 0
	yi := 0
	for {
		var xs []Seg
		for xi < len(x.Segs) && !((x.Segs[xi].Kind == 'e' && e.isWit(x.Segs[xi].V)) || x.Segs[xi].Kind == 'k') {
			xs = append(xs, x.Segs[xi])
			xi++
		}
		var ys []Seg
		for yi < len(y.Segs) && !((y.Segs[yi].Kind == 'e' && e.isWit(y.Segs[yi].V)) || y.Segs[yi].Kind == 'k') {
			ys = append(ys, y.Segs[yi])
			yi++
		}
		if len(xs) == 0 {
			if n := segsLen(ys); !n.Is0() {
				t.eqs = append(t.eqs, [2]Lin{K(0), n})
			}
		} else if len(xs) == 1 && xs[0].Kind == 's' {
			t.lin(xs[0].Len, segsLen(ys))
			start := K(0)
			for _, g := range ys {
				g, st := g, start
				seg := xs[0]
				t.last = append(t.last, func() { t.template(seg.Sum, g, st, y, nil, nil) })
				start = start.Add(g.Len)
			}
		} else {
			t.bad("arrsegs")
			return
		}
		if xi >= len(x.Segs) != (yi >= len(y.Segs)) {
			t.bad("arrwit")
			return
		}
		if xi >= len(x.Segs) {
			return
		}
		p, q := x.Segs[xi], y.Segs[yi]
		if p.Kind != q.Kind || p.Name != q.Name {
			t.bad("arrwit2")
			return
		}
		t.lin(p.Len, q.Len)
		if p.V != nil {
			t.val(p.V, q.V)
		}
		xi++
		yi++
	}
}

// template checks that an element of y is covered by the summary.
func (t *matcher) template(m *Summary, g Seg, start Lin, ya *ArrC, ent *MEntry, rest *Summary) {
	if !t.ok {
		return
	}
	e := t.e
	if m.V == nil && !m.Bot {
		return // anything
	}
	s := t.b.clone()
	var k, v Val
	ok := true
	var ix Lin
	switch {
	case ent != nil:
		k, v = ent.K, ent.V
	case rest != nil:
		if rest == m || rest.Bot {
			return
		}
		if rest.V == nil {
			t.bad("tmplany")
			return
		}
		k, v, ok = e.instantiate(s, rest, Lin{}, nil, nil)
	default:
		if g.Kind == 'u' || (g.Kind == 's' && !g.Sum.Bot && g.Sum.V == nil) {
			t.bad("tmplany")
			return
		}
		rel := K(0)
		if g.Kind != 'e' {
			rel = e.newInt("ix")
			ok = e.addGe(s, rel) && e.addGe(s, g.Len.Sub(rel).AddK(-1))
		}
		if ok {
			v, ok = e.segValue(s, ya, g, rel)
		}
		ix = start.Add(rel)
	}
	if !ok {
		return // no such element
	}
	if m.Bot {
		t.bad("tmplbot")
		return
	}
	bind := map[Atom]bool{}
	for _, a := range m.Atoms {
		bind[a] = true
	}
	for a := range t.bind {
		bind[a] = true
	}
	q := &matcher{e: e, m: t.m, b: s, bind: bind, sub: newSubst(), objs: map[ObjID]ObjID{}, back: map[ObjID]ObjID{}, ok: true}
	for a, x := range t.sub.M {
		q.sub.M[a] = x
	}
	for a, x := range t.objs {
		q.objs[a] = x
	}
	for a, x := range t.back {
		q.back[a] = x
	}
	q.sch = map[ObjID]*Obj{}
	for a, x := range t.sch {
		q.sch[a] = x
	}
	for a, x := range m.Objs {
		q.sch[a] = x
	}
	if m.Idx >= 0 {
		q.sub.M[m.Idx] = ix
	}
	if m.K != nil {
		q.val(m.K, e.nv(s, k))
	}
	q.val(m.V, e.nv(s, v))
	for len(q.todo) > 0 && q.ok {
		f := q.todo[0]
		q.todo = q.todo[1:]
		f()
	}
	for len(q.last) > 0 && q.ok {
		f := q.last[0]
		q.last = q.last[1:]
		f()
	}
	if !q.ok {
		t.bad("tmpl:" + e.why)
		return
	}
	fm := &State{F: newFacts()}
	fm.F.Ge, fm.F.Ne, fm.F.Sne = m.Ge, m.Ne, m.Sne
	for _, p := range m.Preds {
		fm.F.Preds[p.A] = p.V
	}
	if !q.check(fm, s) {
		t.bad("tmplfacts:" + e.why)
	}
}

func (t *matcher) mapc(x, y *MapC) {
	t.lin(x.N, y.N)
	used := make([]bool, len(y.Known))
	for _, k := range x.Known {
		found := false
		for i, q := range y.Known {
			if used[i] || q.Wit != k.Wit {
				continue
			}
			if keyOf(t.e.subst(k.K, t.sub)) == keyOf(q.K) || k.Wit {
				used[i] = true
				found = true
				t.val(k.K, q.K)
				t.val(k.V, q.V)
				break
			}
		}
		if !found {
			t.bad("mapkey")
			return
		}
	}
	for i, q := range y.Known {
		if used[i] {
			continue
		}
		if x.Rest == nil {
			t.bad("maprest")
			return
		}
		q := q
		t.last = append(t.last, func() { t.template(x.Rest, Seg{}, Lin{}, nil, &q, nil) })
	}
	if y.Rest != nil {
		if x.Rest == nil {
			t.bad("maprest2")
			return
		}
		t.last = append(t.last, func() { t.template(x.Rest, Seg{}, Lin{}, nil, nil, y.Rest) })
	}
}

// adjacent: which atoms occur together in a fact.
func (e *Engine) adjacent(st *State) map[[2]Atom]bool {
	out := map[[2]Atom]bool{}
	link := func(l Lin) {
		for _, x := range l.T {
			for _, y := range l.T {
				if x.A != y.A {
					out[[2]Atom{x.A, y.A}] = true
				}
			}
		}
	}
	for _, g := range st.F.Ge {
		link(g)
		for _, t := range g.T {
			for _, ax := range e.axioms(t.A) {
				link(ax)
			}
		}
	}
	return out
}

// joinLossy: a join loses precision; a worse reason is remembered.
func joinLossy(a, b string) string {
	if a != "" && a != "joined" {
		return a
	}
	if b != "" && b != "joined" {
		return b
	}
	return "joined"
}
