package main

// cksum: the checksum is followed as a term.
//
// crc(d,k) is the register after the first k bytes of d: crc(d,0) = 0 and crc(d,k+1) = the
// step of crc(d,k) with byte k of d, where the step is (s<<8) ^ T[(s>>24)^c] for the table of
// the POSIX polynomial. Registers are vectors of 32 sums over GF(2) of bits of such terms; a
// table whose source entries are an affine function of the index bits gives sums again. What is
// printed must be, bit for bit, the complement of the step sequence applied to
// crc(d, len(d)) and the octets of the length.

import (
	"golang.org/x/tools/go/ssa"
)

// crcStep is the specification of one step.
func (e *Engine) crcStep(s BVV, c BVV) BVV {
	const poly = 0x04C11DB7
	r := BVV{append([]BitX(nil), s.Bits...)}
	for i := 0; i < 8; i++ {
		r.Bits[24+i] = bxXor(r.Bits[24+i], c.Bits[i])
	}
	for n := 0; n < 8; n++ {
		top := r.Bits[31]
		nb := make([]BitX, 32)
		copy(nb[1:], r.Bits[:31])
		for i := 0; i < 32; i++ {
			if poly>>uint(i)&1 == 1 {
				nb[i] = bxXor(nb[i], top)
			}
		}
		r = BVV{nb}
	}
	return r
}

func (e *Engine) crcTerm(d StrV, k Lin) Lin {
	return e.term("crc", 'i', d, k).(Lin)
}

// crcCanon recognises the step of crc(d,k) with byte k of d.
func (e *Engine) crcCanon(b BVV) (Lin, bool) {
	var crc, by Atom = -1, -1
	for _, x := range b.Bits {
		for _, v := range x.V {
			switch e.atoms[v.A].Fn {
			case "crc":
				if crc >= 0 && crc != v.A {
					return Lin{}, false
				}
				crc = v.A
			case "byte":
				if by >= 0 && by != v.A {
					return Lin{}, false
				}
				by = v.A
			default:
				return Lin{}, false
			}
		}
	}
	if by < 0 {
		return Lin{}, false
	}
	d, k := e.atoms[by].Args[0].(StrV), e.atoms[by].Args[1].(Lin)
	s := bvConst(0, 32)
	if crc >= 0 {
		s = e.toBV(LA(crc), 32)
		if keyOf(e.atoms[crc].Args[0]) != keyOf(d) || !e.atoms[crc].Args[1].(Lin).Eq(k) {
			return Lin{}, false
		}
	} else if !k.Is0() {
		return Lin{}, false
	}
	if keyOf(e.crcStep(s, e.toBV(LA(by), 8))) != keyOf(b) {
		return Lin{}, false
	}
	return e.crcTerm(d, k.AddK(1)), true
}

func cksumTask(e *Engine) {
	e.wantOut = true
	e.structFn["crc"] = true
	e.bvCanon = e.crcCanon
	a := &argScan{e: e}
	e.argLoad = a.load
	stdin := SA(e.fnAtom("stdin", 's'))
	g := func(st *State, k string) Lin { return e.n(st, st.Ghost[k].(Lin)) }
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		if isFail(ev) {
			st.Ghost["fail"] = BoolV{bTrue}
		}
		return []*State{st}
	}
	// line gives what is due for source d with name nm, once per possible number of length octets.
	type alt struct {
		st  *State
		exp []StrV
	}
	line := func(st *State, d StrV, names ...StrV) []alt {
		var out []alt
		n := e.strLen(d)
		rest := []*State{st}
		for oct := 0; oct <= 8; oct++ {
			var next []*State
			for _, s := range rest {
				var in []*State
				if oct < 8 {
					c := bGe(K(int64(1)<<uint(8*oct) - 1).Sub(n))
					if oct == 0 {
						c = bEq0(n)
					}
					in = e.assume(s.clone(), c, true)
					next = append(next, e.assume(s, c, false)...)
				} else {
					in = []*State{s}
				}
				for _, t := range in {
					m := e.n(t, n)
					r := e.toBV(e.crcTerm(e.normStr(t, d), m), 32)
					ms := []StrV{e.itoa(m)}
					if oct == 0 {
						r = bvConst(0, 32)
						ms = append(ms, SC("0"))
					}
					lb := e.toBV(m, 64)
					for i := 0; i < oct; i++ {
						r = e.crcStep(r, BVV{lb.Bits[8*i : 8*i+8]})
					}
					for i := range r.Bits {
						r.Bits[i] = BitX{C: !r.Bits[i].C, V: r.Bits[i].V}
					}
					var xs []StrV
					for _, nm := range names {
						for _, l := range ms {
							xs = append(xs, e.normStr(t, SCat(e.itoa(e.bvToLin(r)), SC(" "), l, nm, SC("\n"))))
						}
					}
					out = append(out, alt{t, xs})
				}
			}
			rest = next
		}
		return out
	}
	due := func(st *State) []alt {
		k := g(st, "k")
		var out []alt
		none := bEq0(e.n(st, a.nops()))
		for _, s := range e.assume(st.clone(), none, true) {
			if e.entailsEq(s, k) && !isBoolT(s.Ghost["instd"]) {
				s.Ghost["instd"] = BoolV{bTrue}
				out = append(out, line(s, stdin, StrV{}, SC(" -"))...)
			} else {
				out = append(out, alt{s, nil})
			}
		}
		for _, s := range e.assume(st, none, false) {
			if !e.entails(s, e.n(s, a.nops().Sub(k).AddK(-1))) {
				out = append(out, alt{s, nil})
				continue
			}
			nm := e.normStr(s, a.opd(k))
			dash := e.strEq(nm, SC("-"))
			for _, t := range e.assume(s.clone(), dash, true) {
				if isBoolT(t.Ghost["instd"]) {
					continue // standard input named twice: not judged
				}
				t.Ghost["instd"] = BoolV{bTrue}
				out = append(out, line(t, stdin, SC(" -"))...)
			}
			for _, t := range e.assume(s, dash, false) {
				out = append(out, line(t, e.strTerm("content", nm), SCat(SC(" "), nm))...)
			}
		}
		return out
	}
	var write func(st *State, d StrV, at ssa.Instruction) []*State
	write = func(st *State, d StrV, at ssa.Instruction) []*State {
		if len(d.P) == 0 {
			return []*State{st}
		}
		e.nObl++
		alts := []alt{{st, []StrV{e.normStr(st, st.Ghost["exp"].(StrV))}}}
		if len(alts[0].exp[0].P) == 0 {
			alts = due(st)
		}
		var out []*State
	next:
		for _, x := range alts {
			dd := e.normStr(x.st, e.crcNorm(x.st, d))
			for _, exp := range x.exp {
				if rest, ok := e.cutPrefix(x.st, exp, dd); ok {
					x.st.Ghost["exp"] = rest
					if len(rest.P) == 0 {
						x.st.Ghost["k"] = e.n(x.st, g(x.st, "k").AddK(1))
					}
					out = append(out, x.st)
					continue next
				}
				if rest, ok := e.cutPrefix(x.st, dd, exp); ok {
					x.st.Ghost["exp"] = StrV{}
					x.st.Ghost["k"] = e.n(x.st, g(x.st, "k").AddK(1))
					out = append(out, write(x.st, rest, at)...)
					continue next
				}
			}
			want := "nothing"
			if len(x.exp) > 0 {
				want = e.valString(x.exp[len(x.exp)-1])
			}
			e.dataAlarm(x.st, d, "line", at, "writes %s where %s is due", e.valString(dd), want)
		}
		return out
	}
	e.onWrite = func(st *State, w WriteEv) []*State {
		if w.Kind != "stdout" || isBoolT(st.Ghost["fail"]) {
			return []*State{st}
		}
		if _, ok := a.fin(st); !ok {
			return nil
		}
		return write(st, e.normStr(st, w.Data), w.At)
	}
	e.onExit = func(st *State, code Val, at ssa.Instruction) {
		if isBoolT(st.Ghost["fail"]) {
			return
		}
		if _, ok := a.fin(st); !ok {
			return
		}
		e.nObl++
		if !e.entailsEq(st, e.n(st, e.asLin(code))) {
			e.alarm(st, "status", at, "exits with %s although every operand could be read", e.linString(e.n(st, e.asLin(code))))
			return
		}
		if len(st.Ghost["exp"].(StrV).P) > 0 {
			e.alarm(st, "incomplete", at, "exits before the line is complete")
			return
		}
		none := bEq0(e.n(st, a.nops()))
		for _, s := range e.assume(st.clone(), none, true) {
			if !e.entailsEq(s, g(s, "k").AddK(-1)) {
				e.alarm(s, "incomplete", at, "exits without the checksum of standard input")
			}
		}
		for _, s := range e.assume(st, none, false) {
			if !e.entailsEq(s, e.n(s, g(s, "k").Sub(a.nops()))) {
				e.alarm(s, "incomplete", at, "exits after operand %s of %s", e.linString(g(s, "k")), e.linString(e.n(s, a.nops())))
			}
		}
	}
	runMain(e, "cmd/cksum", func(st *State) {
		a.prep(st)
		st.Ghost["k"] = K(0)
		st.Ghost["exp"] = StrV{}
		st.Ghost["fail"], st.Ghost["instd"] = BoolV{bFalse}, BoolV{bFalse}
	})
}

// crcNorm replaces crc(d,k) by crc(d,len(d)) where k is known to be that.
func (e *Engine) crcNorm(st *State, s StrV) StrV {
	q := newSubst()
	var bits func(b BVV)
	bits = func(b BVV) {
		for _, x := range b.Bits {
			for _, v := range x.V {
				ai := e.atoms[v.A]
				if ai.Fn != "crc" {
					continue
				}
				if _, done := q.M[v.A]; done {
					continue
				}
				n := e.n(st, e.strLen(ai.Args[0].(StrV)))
				k := e.n(st, ai.Args[1].(Lin))
				if !k.Eq(n) && e.entailsEq(st, k.Sub(n)) {
					q.M[v.A] = e.crcTerm(e.normStr(st, ai.Args[0].(StrV)), n)
				}
			}
		}
	}
	for _, p := range s.P {
		if p.V && e.atoms[p.A].Fn == "itoa" {
			if l, ok := e.atoms[p.A].Args[0].(Lin); ok {
				if at, ok := l.IsAtom(); ok {
					bits(e.toBV(LA(at), 64))
				}
			}
		}
	}
	if len(q.M) == 0 {
		return s
	}
	return e.substStr(s, q)
}

func init() {
	register(&Prop{
		ID:   "C04",
		Pats: []string{"./cmd/cksum"},
		Rule: "On every path each line written to standard output equals, as a term, the checksum (bit for bit, as a sum over GF(2) of the bits of the CRC register term and of the length), byte count and name that are due for the next operand; the 256 table entries are read from the source and must form the affine table of the POSIX polynomial wherever they are used.",
		Tasks: func(p *Program) []Task {
			return []Task{{Strict: true, Name: "cksum", Run: cksumTask}}
		},
	})
}
