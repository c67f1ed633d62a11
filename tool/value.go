package main

// Abstract values: terms over atoms, strings as concatenations, segmented arrays,
// maps with distinguished entries and a summary, pointers into an abstract heap.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type ObjID int32

type AtomInfo struct {
	Fn   string // "" for a variable
	Name string
	Args []Val
	Sort byte // i s b o
	Lo   int64
	Hi   int64
	HasB bool // Lo..Hi bound it
}

type BoolV struct{ E *BExpr }

type SPart struct {
	C string
	A Atom // used when IsA
	V bool
}
type StrV struct{ P []SPart }

type PE struct {
	F   int
	Idx Lin
	IsI bool
}
type PtrV struct {
	Obj  ObjID // 0: nil
	Path []PE
}
type SliceV struct {
	Arr ObjID // 0: nil slice
	Off Lin
	Len Lin
	Max bool // there is no capacity beyond the length
}
type MapV struct{ Obj ObjID }
type ChanV struct{ Obj ObjID }
type StructV struct{ F []Val }
type IfaceV struct {
	T types.Type // nil: nil interface
	V Val
}
type FuncV struct {
	Fn   *ssa.Function // nil Fn and empty Ext: nil func
	Bind []Val
	Ext  string
}
type OpqV struct {
	A Atom
	T types.Type
}
type TupleV []Val
type ModelV struct {
	Kind string
	F    map[string]Val
}

// ErrV is the dynamic value of an error made by a model.
type ErrV struct {
	Kind string // EOF, notexist, other...
	Msg  StrV
}

// NodeV points to the k-th node of an input list.
type NodeV struct {
	List ObjID
	K    Lin
	Path []PE
}

type BitVar struct {
	A Atom
	I int
}
type BitX struct {
	C bool
	V []BitVar
}
type BVV struct {
	Bits []BitX // least significant first
}

type BExpr struct {
	K   byte // T F g z s ! & | p x
	L   Lin
	A   StrV
	B   StrV
	Sub []*BExpr
	P   Atom
	X   BitX
}

var bTrue = &BExpr{K: 'T'}
var bFalse = &BExpr{K: 'F'}

func bConst(b bool) *BExpr {
	if b {
		return bTrue
	}
	return bFalse
}
func bNot(e *BExpr) *BExpr {
	switch e.K {
	case 'T':
		return bFalse
	case 'F':
		return bTrue
	case '!':
		return e.Sub[0]
	case 'g': // not L>=0: -L-1>=0
		return bGe(e.L.Neg().AddK(-1))
	}
	return &BExpr{K: '!', Sub: []*BExpr{e}}
}
func bGe(l Lin) *BExpr {
	if l.IsK() {
		return bConst(l.C >= 0)
	}
	return &BExpr{K: 'g', L: l}
}
func bEq0(l Lin) *BExpr {
	if l.IsK() {
		return bConst(l.C == 0)
	}
	return &BExpr{K: 'z', L: l}
}
func bAnd(es ...*BExpr) *BExpr {
	var out []*BExpr
	for _, e := range es {
		if e.K == 'F' {
			return bFalse
		}
		if e.K == 'T' {
			continue
		}
		if e.K == '&' {
			out = append(out, e.Sub...)
			continue
		}
		out = append(out, e)
	}
	if len(out) == 0 {
		return bTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return &BExpr{K: '&', Sub: out}
}
func bOr(es ...*BExpr) *BExpr {
	var n []*BExpr
	for _, e := range es {
		n = append(n, bNot(e))
	}
	return bNot(bAnd(n...))
}
func bBit(x BitX) *BExpr {
	if len(x.V) == 0 {
		return bConst(x.C)
	}
	return &BExpr{K: 'x', X: x}
}

// ---- strings

func SC(s string) StrV {
	if s == "" {
		return StrV{}
	}
	return StrV{[]SPart{{C: s}}}
}
func SA(a Atom) StrV { return StrV{[]SPart{{A: a, V: true}}} }
func (s StrV) Const() (string, bool) {
	if len(s.P) == 0 {
		return "", true
	}
	if len(s.P) == 1 && !s.P[0].V {
		return s.P[0].C, true
	}
	return "", false
}
func (s StrV) Atom() (Atom, bool) {
	if len(s.P) == 1 && s.P[0].V {
		return s.P[0].A, true
	}
	return 0, false
}
func SCat(ss ...StrV) StrV {
	var r StrV
	for _, s := range ss {
		for _, p := range s.P {
			if !p.V {
				if p.C == "" {
					continue
				}
				if n := len(r.P); n > 0 && !r.P[n-1].V {
					np := append([]SPart(nil), r.P...)
					np[n-1].C += p.C
					r.P = np
					continue
				}
			}
			r.P = append(r.P[:len(r.P):len(r.P)], p)
		}
	}
	return r
}

// ---- bits

func bxXor(a, b BitX) BitX {
	r := BitX{C: a.C != b.C}
	i, j := 0, 0
	less := func(x, y BitVar) bool { return x.A < y.A || (x.A == y.A && x.I < y.I) }
	for i < len(a.V) || j < len(b.V) {
		switch {
		case j >= len(b.V) || (i < len(a.V) && less(a.V[i], b.V[j])):
			r.V = append(r.V, a.V[i])
			i++
		case i >= len(a.V) || less(b.V[j], a.V[i]):
			r.V = append(r.V, b.V[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}
func bvConst(c uint64, w int) BVV {
	b := BVV{make([]BitX, w)}
	for i := 0; i < w && i < 64; i++ {
		b.Bits[i].C = c>>uint(i)&1 == 1
	}
	return b
}
func (b BVV) Const() (uint64, bool) {
	var c uint64
	for i, x := range b.Bits {
		if len(x.V) > 0 {
			return 0, false
		}
		if x.C && i < 64 {
			c |= 1 << uint(i)
		}
	}
	return c, true
}

// ---- heap objects

type Seg struct {
	Kind byte // e one element, i input, z zero, s summary, b bytes of string, r runes of string, u unknown, k opaque block
	Len  Lin
	V    Val    // e: the element; b, r: StrV
	Name string // i: input name; k: block name
	From Lin    // i, b, r: first index
	Sum  *Summary
}

// Summary describes an arbitrary element: schematic atoms, universally quantified.
type Summary struct {
	Idx   Atom // schematic index (relative to the segment), -1 if none
	Atoms []Atom
	K     Val // maps only
	V     Val
	Ge    []Lin
	Ne    []Lin
	Sne   []StrNe
	Preds []PredF
	Bot   bool           // no element yet
	Objs  map[ObjID]*Obj // schematic objects the element refers to
}

type ArrC struct {
	Elem types.Type
	Segs []Seg
}

type MEntry struct {
	K, V Val
	Wit  bool
}
type MapC struct {
	Known []MEntry
	Rest  *Summary // nil: no other entries
	N     Lin      // size, an atom when inexact
	Key   types.Type
	Val   types.Type
	Nil   bool
}

type Obj struct {
	V      Val // cell
	Arr    *ArrC
	Map    *MapC
	List   *ListC
	Typ    types.Type
	Site   string
	Rep    bool // a summarised object may be a copy of it: it must not change any more
	MayNil bool // an array: a slice of it may be nil when empty
}

// ListC is an input linked list: Count nodes, with an overlay of writes.
type ListC struct {
	Name  string
	Count Lin
	Over  []NodeW
}
type NodeW struct {
	K Lin
	V Val // the node's struct value now
}

type StrNe struct{ A, B StrV }
type PredF struct {
	A Atom
	V bool
}

// ---- keys

func keyOf(v Val) string {
	var b strings.Builder
	writeKey(&b, v)
	return b.String()
}

func writeKey(b *strings.Builder, v Val) {
	switch v := v.(type) {
	case nil:
		b.WriteString("nil")
	case Lin:
		b.WriteByte('I')
		v.key(b)
	case BoolV:
		b.WriteByte('B')
		writeB(b, v.E)
	case StrV:
		b.WriteByte('S')
		for _, p := range v.P {
			if p.V {
				b.WriteString("|a" + strconv.Itoa(int(p.A)))
			} else {
				b.WriteString("|" + strconv.Quote(p.C))
			}
		}
		b.WriteByte(';')
	case PtrV:
		fmt.Fprintf(b, "P%d", v.Obj)
		writePath(b, v.Path)
	case NodeV:
		fmt.Fprintf(b, "N%d@", v.List)
		v.K.key(b)
		writePath(b, v.Path)
	case SliceV:
		fmt.Fprintf(b, "L%d[", v.Arr)
		v.Off.key(b)
		b.WriteByte(':')
		v.Len.key(b)
		b.WriteByte(']')
	case MapV:
		fmt.Fprintf(b, "M%d", v.Obj)
	case ChanV:
		fmt.Fprintf(b, "C%d", v.Obj)
	case StructV:
		b.WriteByte('{')
		for _, f := range v.F {
			writeKey(b, f)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case IfaceV:
		if v.T == nil {
			b.WriteString("Fnil")
		} else {
			b.WriteString("F<" + v.T.String() + ">")
			writeKey(b, v.V)
		}
	case FuncV:
		b.WriteString("fn:")
		if v.Fn != nil {
			b.WriteString(v.Fn.String())
		}
		b.WriteString(v.Ext + "(")
		for _, x := range v.Bind {
			writeKey(b, x)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case OpqV:
		fmt.Fprintf(b, "O%d", v.A)
	case TupleV:
		b.WriteByte('(')
		for _, f := range v {
			writeKey(b, f)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case ModelV:
		b.WriteString("$" + v.Kind + "{")
		for _, k := range sortedKeys(v.F) {
			b.WriteString(k + "=")
			writeKey(b, v.F[k])
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case ErrV:
		b.WriteString("E" + v.Kind)
	case BVV:
		b.WriteByte('V')
		for _, x := range v.Bits {
			writeBit(b, x)
			b.WriteByte('.')
		}
	case *MapIter:
		fmt.Fprintf(b, "it%d%v%v", v.Map, v.Visited, v.Sum)
	default:
		panic(fmt.Sprintf("writeKey: %T", v))
	}
}

func writePath(b *strings.Builder, p []PE) {
	for _, e := range p {
		if e.IsI {
			b.WriteByte('[')
			e.Idx.key(b)
			b.WriteByte(']')
		} else {
			fmt.Fprintf(b, ".%d", e.F)
		}
	}
}

func writeBit(b *strings.Builder, x BitX) {
	if x.C {
		b.WriteByte('1')
	} else {
		b.WriteByte('0')
	}
	for _, v := range x.V {
		fmt.Fprintf(b, "^%d_%d", v.A, v.I)
	}
}

func writeB(b *strings.Builder, e *BExpr) {
	b.WriteByte(e.K)
	switch e.K {
	case 'g', 'z':
		e.L.key(b)
	case 's':
		writeKey(b, e.A)
		writeKey(b, e.B)
	case '!', '&', '|':
		b.WriteByte('(')
		for _, s := range e.Sub {
			writeB(b, s)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case 'p':
		fmt.Fprintf(b, "a%d", e.P)
	case 'x':
		writeBit(b, e.X)
	}
}

func sortedKeys(m map[string]Val) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// MapIter is the state of a range over a map or a string.
type MapIter struct {
	Map     ObjID
	Visited []string // keys (keyOf) of the distinguished entries already yielded
	Sum     bool     // some other entry may have been yielded
	Str     StrV     // range over a string
	Pos     Lin
	IsStr   bool
}

// ---- atoms

func (e *Engine) newAtom(name string, sort byte) Atom {
	e.atoms = append(e.atoms, AtomInfo{Name: name, Sort: sort})
	return Atom(len(e.atoms) - 1)
}

func (e *Engine) newInt(name string) Lin { return LA(e.newAtom(name, 'i')) }
func (e *Engine) newIntIn(name string, lo, hi int64) Lin {
	a := e.newAtom(name, 'i')
	e.atoms[a].Lo, e.atoms[a].Hi, e.atoms[a].HasB = lo, hi, true
	return LA(a)
}
func (e *Engine) newStr(name string) StrV { return SA(e.newAtom(name, 's')) }
func (e *Engine) newBool(name string) *BExpr {
	return &BExpr{K: 'p', P: e.newAtom(name, 'b')}
}

// fnAtom returns the hash-consed atom for a function term.
func (e *Engine) fnAtom(fn string, sort byte, args ...Val) Atom {
	var b strings.Builder
	b.WriteString(fn)
	b.WriteByte(sort)
	for _, a := range args {
		b.WriteByte('/')
		writeKey(&b, a)
	}
	k := b.String()
	if a, ok := e.atomIdx[k]; ok {
		return a
	}
	e.atoms = append(e.atoms, AtomInfo{Fn: fn, Args: args, Sort: sort})
	a := Atom(len(e.atoms) - 1)
	e.atomIdx[k] = a
	return a
}

func (e *Engine) atomName(a Atom) string {
	i := e.atoms[a]
	if i.Fn == "" {
		return fmt.Sprintf("%s#%d", i.Name, a)
	}
	var p []string
	for _, x := range i.Args {
		p = append(p, e.valString(x))
	}
	return i.Fn + "(" + strings.Join(p, ",") + ")"
}

// term builds a value for fn applied to args, normalising what is known.
func (e *Engine) term(fn string, sort byte, args ...Val) Val {
	switch fn {
	case "len":
		return e.strLen(args[0].(StrV))
	case "byte":
		return e.byteAt(args[0].(StrV), args[1].(Lin))
	case "itoa":
		return e.itoa(args[0].(Lin))
	case "sub":
		return e.subStr(args[0].(StrV), args[1].(Lin), args[2].(Lin))
	case "upper":
		if c, ok := args[0].(StrV).Const(); ok {
			return SC(strings.ToUpper(c))
		}
	case "atoi":
		if c, ok := args[0].(StrV).Const(); ok {
			if n, err := strconv.Atoi(c); err == nil {
				return K(int64(n))
			}
		}
	case "crc":
		if args[1].(Lin).Is0() {
			return K(0)
		}
		a := e.fnAtom(fn, sort, args...)
		e.atoms[a].HasB, e.atoms[a].Lo, e.atoms[a].Hi = true, 0, 1<<32-1
		return LA(a)
	case "isint":
		if c, ok := args[0].(StrV).Const(); ok {
			_, err := strconv.Atoi(c)
			return BoolV{bConst(err == nil)}
		}
	}
	if f := e.termHook; f != nil {
		if v := f(fn, args); v != nil {
			return v
		}
	}
	a := e.fnAtom(fn, sort, args...)
	switch sort {
	case 'i':
		return LA(a)
	case 's':
		return SA(a)
	case 'b':
		return BoolV{&BExpr{K: 'p', P: a}}
	}
	return OpqV{A: a}
}

func (e *Engine) intTerm(fn string, args ...Val) Lin  { return e.term(fn, 'i', args...).(Lin) }
func (e *Engine) strTerm(fn string, args ...Val) StrV { return e.term(fn, 's', args...).(StrV) }
func (e *Engine) boolTerm(fn string, args ...Val) *BExpr {
	return e.term(fn, 'b', args...).(BoolV).E
}

func (e *Engine) strLen(s StrV) Lin {
	r := K(0)
	for _, p := range s.P {
		if !p.V {
			r = r.AddK(int64(len(p.C)))
			continue
		}
		ai := e.atoms[p.A]
		if ai.Fn == "sub" {
			r = r.Add(ai.Args[2].(Lin).Sub(ai.Args[1].(Lin)))
			continue
		}
		if ai.Fn == "runestr" {
			r = r.Add(LA(e.fnAtom("runelen", 'i', ai.Args...)))
			continue
		}
		r = r.Add(LA(e.fnAtom("len", 'i', SA(p.A))))
	}
	return r
}

func (e *Engine) itoa(n Lin) StrV {
	if n.IsK() {
		return SC(strconv.FormatInt(n.C, 10))
	}
	return SA(e.fnAtom("itoa", 's', n))
}

// byteAt returns the byte at index i; the caller has checked the bounds.
func (e *Engine) byteAt(s StrV, i Lin) Lin {
	if len(s.P) > 1 && !i.IsK() {
		pre := K(0)
		for _, p := range s.P {
			if !p.V {
				if d := i.Sub(pre); d.IsK() && d.C >= 0 && d.C < int64(len(p.C)) {
					return K(int64(p.C[d.C]))
				}
			}
			pre = pre.Add(e.strLen(StrV{[]SPart{p}}))
		}
	}
	for len(s.P) > 0 {
		p := s.P[0]
		if !p.V {
			if i.IsK() {
				if i.C >= 0 && i.C < int64(len(p.C)) {
					return K(int64(p.C[i.C]))
				}
			} else if len(s.P) > 1 {
				break
			} else {
				break
			}
			i = i.AddK(-int64(len(p.C)))
			s = StrV{s.P[1:]}
			continue
		}
		if len(s.P) == 1 {
			ai := e.atoms[p.A]
			if ai.Fn == "sub" {
				s, i = ai.Args[0].(StrV), i.Add(ai.Args[1].(Lin))
				continue
			}
		}
		break
	}
	a := e.fnAtom("byte", 'i', s, i)
	e.atoms[a].Lo, e.atoms[a].Hi, e.atoms[a].HasB = 0, 255, true
	return LA(a)
}

// subStr is s[lo:hi]; the caller has checked the bounds.
// nonNeg: a sum of lengths.
func (e *Engine) nonNeg(l Lin) bool {
	if l.C < 0 {
		return false
	}
	for _, t := range l.T {
		if t.K < 0 || e.atoms[t.A].Fn != "len" {
			return false
		}
	}
	return true
}

func (e *Engine) subStr(s StrV, lo, hi Lin) StrV {
	if lo.Eq(hi) {
		return StrV{}
	}
	if lo.Is0() && hi.Eq(e.strLen(s)) {
		return s
	}
	// peel whole parts off the front and the back
	for len(s.P) > 0 {
		p := s.P[0]
		l := e.strLen(StrV{s.P[:1]})
		d := lo.Sub(l)
		if e.nonNeg(d) {
			s, lo, hi = StrV{s.P[1:]}, d, hi.Sub(l)
			continue
		}
		if !p.V && lo.IsK() && lo.C > 0 && lo.C < int64(len(p.C)) {
			np := append([]SPart{{C: p.C[lo.C:]}}, s.P[1:]...)
			s, hi, lo = StrV{np}, hi.AddK(-lo.C), K(0)
			continue
		}
		break
	}
	for len(s.P) > 0 {
		n := len(s.P)
		rest := e.strLen(StrV{s.P[:n-1]})
		d := rest.Sub(hi)
		if e.nonNeg(d) {
			s = StrV{s.P[:n-1]}
			continue
		}
		p := s.P[n-1]
		if !p.V {
			q := hi.Sub(rest)
			if q.IsK() && q.C > 0 && q.C < int64(len(p.C)) {
				np := append([]SPart(nil), s.P...)
				np[n-1].C = p.C[:q.C]
				s = StrV{np}
			}
		}
		break
	}
	if lo.Is0() && hi.Eq(e.strLen(s)) {
		return s
	}
	if len(s.P) == 1 && s.P[0].V {
		ai := e.atoms[s.P[0].A]
		if ai.Fn == "sub" {
			b := ai.Args[1].(Lin)
			return e.subStr(ai.Args[0].(StrV), b.Add(lo), b.Add(hi))
		}
	}
	return SA(e.fnAtom("sub", 's', s, lo, hi))
}

// ---- printing

func (e *Engine) valString(v Val) string {
	switch v := v.(type) {
	case Lin:
		return e.linString(v)
	case StrV:
		if len(v.P) == 0 {
			return `""`
		}
		var p []string
		for _, x := range v.P {
			if x.V {
				p = append(p, e.atomName(x.A))
			} else {
				p = append(p, strconv.Quote(x.C))
			}
		}
		return strings.Join(p, "+")
	case BoolV:
		return e.boolString(v.E)
	case StructV:
		var p []string
		for _, x := range v.F {
			p = append(p, e.valString(x))
		}
		return "{" + strings.Join(p, ",") + "}"
	case SliceV:
		return fmt.Sprintf("slice(o%d)[%s:+%s]", v.Arr, e.linString(v.Off), e.linString(v.Len))
	case IfaceV:
		if v.T == nil {
			return "nil-iface"
		}
		return "iface(" + e.valString(v.V) + ")"
	case ModelV:
		var p []string
		for _, k := range sortedKeys(v.F) {
			p = append(p, k+"="+e.valString(v.F[k]))
		}
		return v.Kind + "{" + strings.Join(p, ",") + "}"
	case TupleV:
		var p []string
		for _, x := range v {
			p = append(p, e.valString(x))
		}
		return "(" + strings.Join(p, ",") + ")"
	case NodeV:
		return fmt.Sprintf("node(%s)%v", e.linString(v.K), v.Path)
	case BVV:
		if c, ok := v.Const(); ok {
			return fmt.Sprintf("bv:%#x", c)
		}
		seen := map[Atom]bool{}
		var ns []string
		for _, x := range v.Bits {
			for _, q := range x.V {
				if !seen[q.A] {
					seen[q.A] = true
					ns = append(ns, e.atomName(q.A))
				}
			}
		}
		return fmt.Sprintf("%d bits of %s", len(v.Bits), strings.Join(ns, ", "))
	case OpqV:
		return e.atomName(v.A)
	case nil:
		return "<none>"
	}
	return keyOf(v)
}

func (e *Engine) boolString(b *BExpr) string {
	switch b.K {
	case 'T':
		return "true"
	case 'F':
		return "false"
	case 'g':
		return e.linString(b.L) + ">=0"
	case 'z':
		return e.linString(b.L) + "==0"
	case 's':
		return e.valString(b.A) + "==" + e.valString(b.B)
	case '!':
		return "!(" + e.boolString(b.Sub[0]) + ")"
	case '&', '|':
		var p []string
		for _, x := range b.Sub {
			p = append(p, e.boolString(x))
		}
		return "(" + strings.Join(p, " "+string(b.K)+" ") + ")"
	case 'p':
		return e.atomName(b.P)
	}
	return "bit"
}
