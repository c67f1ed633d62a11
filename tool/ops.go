package main

// Operators and conversions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// wrapInt reduces a mathematical result to what a machine integer of type t holds.
// int and int64 are assumed not to overflow (the sizes of files and argument lists bound them).
func (e *Engine) wrapInt(st *State, l Lin, t types.Type) Val {
	lo, hi, ok := intRange(t)
	if !ok {
		if !isUnsigned(t) {
			return l
		}
		if l.IsK() {
			if l.C >= 0 {
				return l
			}
			return bvConst(uint64(l.C), 64)
		}
		if e.entails(st, l) {
			return l
		}
		a := e.fnAtom("wrap64", 'i', l)
		e.addGe(st, LA(a))
		return LA(a)
	}
	if l.IsK() {
		if l.C >= lo && l.C <= hi {
			return l
		}
		m := hi - lo + 1
		c := (l.C - lo) % m
		if c < 0 {
			c += m
		}
		return K(c + lo)
	}
	if e.entails(st, l.AddK(-lo)) && e.entails(st, l.Neg().AddK(hi)) {
		return l
	}
	a := e.fnAtom(fmt.Sprintf("wrap:%d:%d", lo, hi), 'i', l)
	e.atoms[a].HasB, e.atoms[a].Lo, e.atoms[a].Hi = true, lo, hi
	return LA(a)
}

func (e *Engine) toBV(v Val, w int) BVV {
	switch x := v.(type) {
	case BVV:
		if len(x.Bits) == w {
			return x
		}
		n := make([]BitX, w)
		copy(n, x.Bits)
		return BVV{n}
	case Lin:
		if x.IsK() {
			return bvConst(uint64(x.C), w)
		}
		b := BVV{make([]BitX, w)}
		aw := 0
		if a, ok := x.IsAtom(); ok {
			aw = e.atomWidth(a)
			if e.atoms[a].Fn == "bv" {
				return e.toBV(e.atoms[a].Args[0], w)
			}
		}
		for i := range b.Bits {
			if aw > 0 && i >= aw {
				break
			}
			b.Bits[i] = e.bitOf(x, i)
		}
		return b
	}
	b := BVV{make([]BitX, w)}
	a := e.fnAtom("opqbits", 'i', v)
	for i := range b.Bits {
		b.Bits[i] = BitX{V: []BitVar{{a, i}}}
	}
	return b
}

// simplifyBV returns an integer term when the bits are those of one.
func (e *Engine) simplifyBV(b BVV, t types.Type) Val {
	if c, ok := b.Const(); ok {
		if isUnsigned(t) && c >= 1<<63 {
			return b
		}
		w := intWidth(t)
		if !isUnsigned(t) && w < 64 && c >= 1<<uint(w-1) {
			return K(int64(c) - 1<<uint(w))
		}
		return K(int64(c))
	}
	if e.bvCanon != nil && len(b.Bits) == 32 {
		if l, ok := e.bvCanon(b); ok {
			return l
		}
	}
	return b
}

// shiftOf recognises l >> s for a non-negative l: a comparison with a constant is one of l.
func (e *Engine) shiftOf(st *State, v Val) (Lin, uint, bool) {
	b, ok := v.(BVV)
	if !ok {
		return Lin{}, 0, false
	}
	if len(b.Bits) == 0 || len(b.Bits[0].V) != 1 || b.Bits[0].C {
		return Lin{}, 0, false
	}
	at, sh := b.Bits[0].V[0].A, b.Bits[0].V[0].I
	full := e.toBV(LA(at), 64)
	if e.atoms[at].Fn == "lin" {
		full = e.toBV(e.atoms[at].Args[0], 64)
	}
	for i, x := range b.Bits {
		var y BitX
		if i+sh < 64 {
			y = full.Bits[i+sh]
		}
		if len(x.V) == 0 && !x.C && i+sh >= 64 {
			continue
		}
		if keyOf(BVV{[]BitX{x}}) != keyOf(BVV{[]BitX{y}}) {
			return Lin{}, 0, false
		}
	}
	if len(b.Bits)+sh < 64 && len(full.Bits[len(b.Bits)+sh].V) > 0 {
		return Lin{}, 0, false
	}
	l := LA(at)
	if e.atoms[at].Fn == "lin" {
		l = e.atoms[at].Args[0].(Lin)
	}
	if sh > 61 || !e.entails(st, e.n(st, l)) {
		return Lin{}, 0, false
	}
	return l, uint(sh), true
}

func (e *Engine) binop(st *State, in *ssa.BinOp) []SV {
	x, y := e.eval(st, in.X), e.eval(st, in.Y)
	xt := in.X.Type()
	switch in.Op {
	case token.EQL:
		return e.eqVals(st, x, y, xt, in.Y.Type(), false)
	case token.NEQ:
		return e.eqVals(st, x, y, xt, in.Y.Type(), true)
	}
	if isIntT(xt) {
		return e.intop(st, in, x, y, xt)
	}
	if isStrT(xt) {
		a, ok1 := x.(StrV)
		b, ok2 := y.(StrV)
		if ok1 && ok2 {
			a, b = e.normStr(st, a), e.normStr(st, b)
			switch in.Op {
			case token.ADD:
				return one(st, SCat(a, b))
			case token.LSS:
				return one(st, BoolV{e.strLess(a, b)})
			case token.GTR:
				return one(st, BoolV{e.strLess(b, a)})
			case token.LEQ:
				return one(st, BoolV{bNot(e.strLess(b, a))})
			case token.GEQ:
				return one(st, BoolV{bNot(e.strLess(a, b))})
			}
		}
	}
	return one(st, e.havoc(st, in.Type(), "binop"))
}

func (e *Engine) strLess(a, b StrV) *BExpr {
	ca, ok1 := a.Const()
	cb, ok2 := b.Const()
	if ok1 && ok2 {
		return bConst(ca < cb)
	}
	if keyOf(a) == keyOf(b) {
		return bFalse
	}
	return e.boolTerm("strlt", a, b)
}

func (e *Engine) intop(st *State, in *ssa.BinOp, xv, yv Val, t types.Type) []SV {
	_, xb := xv.(BVV)
	_, yb := yv.(BVV)
	switch in.Op {
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
		x, y := e.asLin(xv), e.asLin(yv)
		switch in.Op {
		case token.ADD:
			return one(st, e.wrapInt(st, x.Add(y), t))
		case token.SUB:
			return one(st, e.wrapInt(st, x.Sub(y), t))
		case token.MUL:
			x, y = e.n(st, x), e.n(st, y)
			if x.IsK() {
				return one(st, e.wrapInt(st, y.Mul(x.C), t))
			}
			if y.IsK() {
				return one(st, e.wrapInt(st, x.Mul(y.C), t))
			}
			a := e.fnAtom("mul", 'i', x, y)
			if e.entails(st, x) && e.entails(st, y) {
				e.addGe(st, LA(a))
			}
			return one(st, e.wrapInt(st, LA(a), t))
		}
		var out []SV
		for _, s := range e.require(st, bNot(bEq0(y)), "divzero", in, "integer divide by zero") {
			x, y := e.n(s, x), e.n(s, y)
			if x.IsK() && y.IsK() && y.C != 0 {
				if in.Op == token.QUO {
					out = append(out, SV{s, K(x.C / y.C)})
				} else {
					out = append(out, SV{s, K(x.C % y.C)})
				}
				continue
			}
			if y.IsK() && y.C > 0 {
				nonneg := bGe(x)
				for _, p := range e.assume(s.clone(), nonneg, true) {
					q := LA(e.fnAtom("div", 'i', x, y))
					e.addGe(p, q)
					e.addGe(p, x.Sub(q.Mul(y.C)))
					e.addGe(p, q.Mul(y.C).AddK(y.C-1).Sub(x))
					if in.Op == token.QUO {
						out = append(out, SV{p, q})
					} else {
						out = append(out, SV{p, x.Sub(q.Mul(y.C))})
					}
				}
				for _, p := range e.assume(s, nonneg, false) {
					r := e.newInt("negdiv")
					if in.Op == token.REM {
						e.addGe(p, r.Neg())
						e.addGe(p, r.AddK(y.C-1))
					} else {
						e.addGe(p, r.Neg())
						e.addGe(p, r.Sub(x))
					}
					out = append(out, SV{p, r})
				}
				continue
			}
			r := e.newInt("div")
			if e.entails(s, x) && e.entails(s, y) {
				e.addGe(s, r)
				if in.Op == token.REM {
					e.addGe(s, y.Sub(r).AddK(-1))
				} else {
					e.addGe(s, x.Sub(r))
				}
			}
			out = append(out, SV{s, r})
		}
		return out
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		x, y := e.asLin(xv), e.asLin(yv)
		if l, sh, ok := e.shiftOf(st, xv); ok && y.IsK() && y.C >= 0 && y.C < 1<<61>>sh {
			switch in.Op {
			case token.LSS: // l>>sh < c  iff  l < c<<sh
				return one(st, BoolV{bGe(K(y.C << sh).Sub(l).AddK(-1))})
			case token.LEQ:
				return one(st, BoolV{bGe(K((y.C + 1) << sh).Sub(l).AddK(-1))})
			case token.GTR:
				return one(st, BoolV{bGe(l.AddK(-(y.C + 1) << sh))})
			default:
				return one(st, BoolV{bGe(l.AddK(-y.C << sh))})
			}
		}
		if a, b := e.n(st, x), e.n(st, y); a.IsK() && b.IsK() && (!isUnsigned(t) || a.C >= 0 && b.C >= 0) {
			r := a.C < b.C && in.Op == token.LSS || a.C <= b.C && in.Op == token.LEQ || a.C > b.C && in.Op == token.GTR || a.C >= b.C && in.Op == token.GEQ
			return one(st, BoolV{bConst(r)})
		}
		switch in.Op {
		case token.LSS:
			return one(st, BoolV{bGe(y.Sub(x).AddK(-1))})
		case token.LEQ:
			return one(st, BoolV{bGe(y.Sub(x))})
		case token.GTR:
			return one(st, BoolV{bGe(x.Sub(y).AddK(-1))})
		default:
			return one(st, BoolV{bGe(x.Sub(y))})
		}
	}
	w := intWidth(t)
	if !xb && !yb {
		x, y := e.n(st, e.asLin(xv)), e.n(st, e.asLin(yv))
		xv, yv = x, y
		if x.IsK() && y.IsK() && (x.C >= 0 || !isUnsigned(t)) && y.C >= 0 {
			switch in.Op {
			case token.AND:
				return one(st, K(x.C&y.C))
			case token.OR:
				return one(st, K(x.C|y.C))
			case token.XOR:
				return one(st, K(x.C^y.C))
			case token.AND_NOT:
				return one(st, K(x.C&^y.C))
			}
		}
	}
	switch in.Op {
	case token.SHL, token.SHR:
		n := e.n(st, e.asLin(yv))
		if !n.IsK() {
			var out []SV
			for _, s := range e.require(st, bGe(n), "shift", in, "negative shift amount") {
				r := e.havoc(s, t, "shift")
				if x, ok := xv.(Lin); ok && in.Op == token.SHR && e.entails(s, x) {
					if l, ok := r.(Lin); ok {
						e.addGe(s, l)
						e.addGe(s, x.Sub(l))
					}
				}
				out = append(out, SV{s, r})
			}
			return out
		}
		if n.C < 0 {
			e.panicAt(st, "shift", in, "negative shift amount")
			return nil
		}
		if !isUnsigned(t) {
			x := e.asLin(xv)
			if in.Op == token.SHL && n.C < 62 {
				return one(st, e.wrapInt(st, x.Mul(1<<uint(n.C)), t))
			}
			if in.Op == token.SHR && n.C < 62 {
				q := LA(e.fnAtom("div", 'i', x, K(1<<uint(n.C))))
				e.addGe(st, x.Sub(q.Mul(1<<uint(n.C))))
				e.addGe(st, q.Mul(1<<uint(n.C)).AddK(1<<uint(n.C)-1).Sub(x))
				return one(st, q)
			}
			return one(st, e.havoc(st, t, "shift"))
		}
		b := e.toBV(xv, w)
		r := BVV{make([]BitX, w)}
		for i := 0; i < w; i++ {
			j := i - int(n.C)
			if in.Op == token.SHR {
				j = i + int(n.C)
			}
			if j >= 0 && j < w {
				r.Bits[i] = b.Bits[j]
			}
		}
		return one(st, e.simplifyBV(r, t))
	}
	a, b := e.toBV(xv, w), e.toBV(yv, w)
	r := BVV{make([]BitX, w)}
	for i := 0; i < w; i++ {
		p, q := a.Bits[i], b.Bits[i]
		switch in.Op {
		case token.XOR:
			r.Bits[i] = bxXor(p, q)
		case token.AND, token.AND_NOT:
			if in.Op == token.AND_NOT {
				q = BitX{C: !q.C, V: q.V}
			}
			r.Bits[i] = e.bitAnd(p, q)
		case token.OR:
			np, nq := BitX{C: !p.C, V: p.V}, BitX{C: !q.C, V: q.V}
			z := e.bitAnd(np, nq)
			r.Bits[i] = BitX{C: !z.C, V: z.V}
		default:
			panic(giveUp{"operator " + in.Op.String()})
		}
	}
	return one(st, e.simplifyBV(r, t))
}

func (e *Engine) bitAnd(p, q BitX) BitX {
	if len(p.V) == 0 {
		if !p.C {
			return BitX{}
		}
		return q
	}
	if len(q.V) == 0 {
		if !q.C {
			return BitX{}
		}
		return p
	}
	if keyOf(BVV{[]BitX{p}}) == keyOf(BVV{[]BitX{q}}) {
		return p
	}
	a := e.fnAtom("bitand", 'i', BVV{[]BitX{p, q}})
	e.atoms[a].HasB, e.atoms[a].Lo, e.atoms[a].Hi = true, 0, 1
	return BitX{V: []BitVar{{a, 0}}}
}

// eqVals builds the comparison of two values.
func (e *Engine) eqVals(st *State, x, y Val, xt, yt types.Type, neg bool) []SV {
	ret := func(b *BExpr) []SV {
		if neg {
			b = bNot(b)
		}
		return one(st, BoolV{b})
	}
	return ret(e.eqB(st, x, y))
}

func (e *Engine) eqB(st *State, x, y Val) *BExpr {
	_, xbv := x.(BVV)
	_, ybv := y.(BVV)
	for i, v := range []Val{x, y} {
		if c, ok := []Val{y, x}[i].(Lin); ok && c.Is0() {
			if l, sh, ok := e.shiftOf(st, v); ok {
				if sh == 0 {
					return bEq0(l)
				}
				return bGe(K(1 << sh).Sub(l).AddK(-1))
			}
		}
	}
	if xbv || ybv {
		w := 64
		if b, ok := x.(BVV); ok {
			w = len(b.Bits)
		} else if b, ok := y.(BVV); ok {
			w = len(b.Bits)
		}
		a, b := e.toBV(x, w), e.toBV(y, w)
		var diff []BitX
		for i := range a.Bits {
			d := bxXor(a.Bits[i], b.Bits[i])
			if len(d.V) == 0 && !d.C {
				continue
			}
			diff = append(diff, d)
		}
		if len(diff) == 0 {
			return bTrue
		}
		if len(diff) <= 4 {
			var cs []*BExpr
			for _, d := range diff {
				cs = append(cs, bBit(BitX{C: !d.C, V: d.V}))
			}
			return bAnd(cs...)
		}
		return bEq0(e.asLin(x).Sub(e.asLin(y)))
	}
	switch a := x.(type) {
	case Lin:
		if b, ok := y.(Lin); ok {
			return bEq0(a.Sub(b))
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			return e.strEq(e.normStr(st, a), e.normStr(st, b))
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			if b.E.K == 'T' {
				return a.E
			}
			if b.E.K == 'F' {
				return bNot(a.E)
			}
			if a.E.K == 'T' || a.E.K == 'F' {
				return e.eqB(st, y, x)
			}
			return bOr(bAnd(a.E, b.E), bAnd(bNot(a.E), bNot(b.E)))
		}
	case PtrV:
		switch b := y.(type) {
		case PtrV:
			if a.Obj != b.Obj || len(a.Path) != len(b.Path) {
				return bFalse
			}
			return bConst(keyOf(a) == keyOf(b))
		case NodeV:
			if a.Obj == 0 {
				return bFalse
			}
		case OpqV:
			if a.Obj == 0 {
				return e.boolTerm("isnil", b)
			}
		}
	case NodeV:
		switch b := y.(type) {
		case PtrV:
			return e.eqB(st, y, x)
		case NodeV:
			return bEq0(a.K.Sub(b.K))
		}
	case SliceV:
		if b, ok := y.(SliceV); ok {
			if b.Arr == 0 {
				if a.Arr == 0 {
					return bTrue
				}
				if n, ok := e.nilSlice(st, a); ok {
					return n
				}
				return bFalse
			}
			if a.Arr == 0 {
				return e.eqB(st, y, x)
			}
		}
	case MapV:
		if b, ok := y.(MapV); ok && (a.Obj == 0 || b.Obj == 0) {
			return bConst(a.Obj == b.Obj)
		}
	case ChanV:
		if b, ok := y.(ChanV); ok {
			return bConst(a.Obj == b.Obj)
		}
	case FuncV:
		if b, ok := y.(FuncV); ok {
			return bConst((a.Fn == nil && a.Ext == "") == (b.Fn == nil && b.Ext == ""))
		}
	case IfaceV:
		switch b := y.(type) {
		case IfaceV:
			if a.T == nil || b.T == nil {
				return bConst(a.T == nil && b.T == nil)
			}
			if ea, ok := a.V.(ErrV); ok {
				if eb, ok := b.V.(ErrV); ok {
					if ea.Kind == eb.Kind && ea.Kind != "other" {
						return bTrue
					}
					if ea.Kind != eb.Kind {
						return bFalse
					}
					return e.newBool("sameerr")
				}
				return bFalse
			}
			if !types.Identical(a.T, b.T) {
				return bFalse
			}
			return e.eqB(st, a.V, b.V)
		case OpqV:
			if a.T == nil {
				return e.boolTerm("isnil", b)
			}
			return e.newBool("ifaceeq")
		}
	case OpqV:
		switch b := y.(type) {
		case OpqV:
			if a.A == b.A {
				return bTrue
			}
			return e.boolTerm("opqeq", a, b)
		case IfaceV, PtrV, SliceV, MapV, FuncV, ChanV:
			return e.eqB(st, y, x)
		}
	case StructV:
		if b, ok := y.(StructV); ok {
			var c []*BExpr
			for i := range a.F {
				c = append(c, e.eqB(st, a.F[i], b.F[i]))
			}
			return bAnd(c...)
		}
	}
	if f, ok := y.(FuncV); ok && f.Fn == nil && f.Ext == "" {
		if o, ok := x.(OpqV); ok {
			return e.boolTerm("isnil", o)
		}
	}
	if o, ok := y.(OpqV); ok {
		if f, ok := x.(FuncV); ok && f.Fn == nil && f.Ext == "" {
			return e.boolTerm("isnil", o)
		}
	}
	return e.newBool("eq")
}

// nilSlice: an unknown slice may be nil.
func (e *Engine) nilSlice(st *State, s SliceV) (*BExpr, bool) {
	o := st.Heap[s.Arr]
	if o != nil && o.MayNil {
		return bAnd(e.boolTerm("nilslice", K(int64(s.Arr))), bEq0(s.Len)), true
	}
	if o != nil && o.Arr != nil && len(o.Arr.Segs) == 1 && o.Arr.Segs[0].Kind == 'u' && s.Off.Is0() {
		p := e.boolTerm("nilslice", K(int64(s.Arr)))
		return bAnd(p, bEq0(s.Len)), true
	}
	return nil, false
}

// ---- conversions

func (e *Engine) convert(st *State, v Val, from, to types.Type) []SV {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fIsB := fu.(*types.Basic)
	tb, tIsB := tu.(*types.Basic)
	switch {
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return one(st, e.convInt(st, v, from, to))
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		l := e.n(st, e.asLin(v))
		if l.IsK() {
			return one(st, SC(string(rune(l.C))))
		}
		var out []SV
		ascii := bAnd(bGe(l), bGe(K(127).Sub(l)))
		for _, s := range e.assume(st, ascii, true) {
			a := e.fnAtom("chr", 's', l)
			e.addEq(s, e.strLen(SA(a)).AddK(-1))
			e.addEq(s, e.byteAt(SA(a), K(0)).Sub(l))
			out = append(out, SV{s, SA(a)})
		}
		for _, s := range e.assume(st.clone(), ascii, false) {
			a := e.fnAtom("runestr", 's', l)
			out = append(out, SV{s, SA(a)})
		}
		return out
	case tIsB && tb.Info()&types.IsString != 0:
		if s, ok := v.(StrV); ok {
			return one(st, s)
		}
		el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
		return e.sliceToString(st, v, el.Kind() == types.Uint8)
	case fIsB && fb.Info()&types.IsString != 0:
		sl, ok := tu.(*types.Slice)
		if !ok {
			return one(st, v)
		}
		s := e.normStr(st, v.(StrV))
		if sl.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			n := e.strLen(s)
			if n.Is0() {
				return one(st, e.newSlice(st, sl.Elem(), nil))
			}
			return one(st, e.newSlice(st, sl.Elem(), []Seg{{Kind: 'b', V: s, Len: n}}))
		}
		if c, ok := s.Const(); ok {
			var segs []Seg
			for _, r := range c {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: K(int64(r))})
			}
			return one(st, e.newSlice(st, sl.Elem(), segs))
		}
		if segs, ok := e.runeSegs(s); ok {
			return one(st, e.newSlice(st, sl.Elem(), segs))
		}
		var segs []Seg
		if !s.P[0].V && utf8.ValidString(s.P[0].C) && len(s.P[0].C) < 64 { // a constant front
			for _, r := range s.P[0].C {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: K(int64(r))})
			}
			s = StrV{s.P[1:]}
		}
		n := LA(e.fnAtom("nrunes", 'i', s))
		return one(st, e.newSlice(st, sl.Elem(), append(segs, Seg{Kind: 'r', V: s, Len: n})))
	}
	if _, ok := v.(OpqV); ok || fIsB || tIsB {
		return one(st, e.havoc(st, to, "conv"))
	}
	return one(st, v)
}

func (e *Engine) convInt(st *State, v Val, from, to types.Type) Val {
	tw := intWidth(to)
	if b, ok := v.(BVV); ok {
		if isUnsigned(from) || intWidth(from) >= tw {
			n := BVV{make([]BitX, tw)}
			copy(n.Bits, b.Bits)
			if isUnsigned(to) || (tw > len(b.Bits)) {
				return e.simplifyBV(n, to)
			}
			if c, ok := n.Const(); ok {
				_ = c
				return e.simplifyBV(n, to)
			}
			// the sign bit must be clear to stay an unsigned pattern
			top := n.Bits[tw-1]
			if len(top.V) == 0 && !top.C {
				return n
			}
			return e.wrapInt(st, e.bvToLin(b), to)
		}
		return e.wrapInt(st, e.bvToLin(b), to)
	}
	l, ok := v.(Lin)
	if !ok {
		return e.havoc(st, to, "conv")
	}
	l = e.n(st, l)
	if isUnsigned(to) && l.IsK() && l.C < 0 {
		return e.simplifyBV(bvConst(uint64(l.C), tw), to)
	}
	r := e.wrapInt(st, l, to)
	if isUnsigned(to) {
		// a truncation of an unsigned pattern keeps its low bits
		if rl, ok := r.(Lin); ok && !rl.Eq(l) && isUnsigned(from) {
			return e.toBV(l, tw)
		}
	}
	return r
}

func (e *Engine) sliceToString(st *State, v Val, isBytes bool) []SV {
	var out []SV
	for _, vr := range e.segsOf(st, v) {
		s := vr.St
		if isBytes {
			out = append(out, SV{s, e.segsToStr(s, vr.Segs)})
			continue
		}
		if len(vr.Segs) == 0 {
			out = append(out, SV{s, StrV{}})
			continue
		}
		if len(vr.Segs) == 1 && vr.Segs[0].Kind == 'r' && vr.Segs[0].From.Is0() &&
			e.n(s, vr.Segs[0].Len.Sub(LA(e.fnAtom("nrunes", 'i', vr.Segs[0].V)))).Is0() {
			// equal only for valid UTF-8
			if e.validUTF8 {
				out = append(out, SV{s, e.normStr(s, vr.Segs[0].V.(StrV))})
				continue
			}
			x := e.strTerm("toValid", vr.Segs[0].V)
			out = append(out, SV{s, x})
			continue
		}
		if e.validUTF8 { // constant runes and whole texts
			var acc StrV
			good := true
			for _, g := range vr.Segs {
				if g.Kind == 'r' && g.From.Is0() && e.n(s, g.Len.Sub(LA(e.fnAtom("nrunes", 'i', g.V)))).Is0() {
					acc = SCat(acc, e.normStr(s, g.V.(StrV)))
					continue
				}
				l, ok := g.V.(Lin)
				if g.Kind != 'e' || !ok || !e.n(s, l).IsK() {
					good = false
					break
				}
				acc = SCat(acc, SC(string(rune(e.n(s, l).C))))
			}
			if good {
				out = append(out, SV{s, acc})
				continue
			}
		}
		allc := true
		buf := []byte{}
		for _, g := range vr.Segs {
			l, ok := g.V.(Lin)
			if g.Kind != 'e' || !ok || !e.n(s, l).IsK() {
				allc = false
				break
			}
			buf = utf8.AppendRune(buf, rune(e.n(s, l).C))
		}
		if allc {
			out = append(out, SV{s, SC(string(buf))})
			continue
		}
		if s.Lossy == "" {
			s.Lossy = "runes of an unknown text"
		}
		out = append(out, SV{s, e.newStr("runes")})
	}
	return out
}

// segsToStr reads byte segments as a string.
func (e *Engine) segsToStr(st *State, segs []Seg) StrV {
	var r []StrV
	for _, g := range segs {
		if e.n(st, g.Len).Is0() {
			continue
		}
		switch g.Kind {
		case 'b':
			r = append(r, e.subStr(e.normStr(st, g.V.(StrV)), e.n(st, g.From), e.n(st, g.From.Add(g.Len))))
		case 'e':
			l := e.n(st, e.asLin(g.V))
			if l.IsK() {
				r = append(r, SC(string([]byte{byte(l.C)})))
			} else {
				r = append(r, SA(e.fnAtom("bytestr", 's', l)))
			}
		case 'z':
			if n := e.n(st, g.Len); n.IsK() && n.C < 64 {
				r = append(r, SC(string(make([]byte, n.C))))
				continue
			}
			fallthrough
		default:
			a := e.newAtom("bytes", 's')
			e.addEq(st, e.strLen(SA(a)).Sub(g.Len))
			r = append(r, SA(a))
		}
	}
	return SCat(r...)
}

func popcount(x uint64) int { return bits.OnesCount64(x) }

// nodes of an input list
func (e *Engine) loadNode(st *State, p NodeV, t types.Type) []SV {
	panic(giveUp{"input list"})
}
func (e *Engine) storeNode(st *State, p NodeV, v Val) []*State {
	panic(giveUp{"input list"})
}

// runeSegs: the runes of a text that is made of known text and single characters.
func (e *Engine) runeSegs(s StrV) (segs []Seg, ok bool) {
	for _, p := range s.P {
		switch {
		case p.V && e.atoms[p.A].Fn == "runestr":
			segs = append(segs, Seg{Kind: 'e', Len: K(1), V: e.atoms[p.A].Args[0]})
		case !p.V && utf8.ValidString(p.C) && len(p.C) < 200:
			for _, r := range p.C {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: K(int64(r))})
			}
		default:
			return nil, false
		}
	}
	return segs, true
}
