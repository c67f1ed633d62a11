package main

import (
	"golang.org/x/tools/go/ssa"
)

// Operands of a program whose argument vector mixes options and operands: opd(r) is the r-th
// argument that is not an option, r counted from 0. The argument at the scan cursor is either
// an option (one of opts) or operand number r.
type argScan struct {
	e    *Engine
	opts []string
	// onOpt is told of every option found
	onOpt func(st *State, o string)
	// valOpts take the next argument as their value
	valOpts map[string]bool
	onVal   func(st *State, o string, v StrV)
}

func (a *argScan) opd(r Lin) StrV { return a.e.strTerm("opd", r) }
func (a *argScan) nops() Lin      { return LA(a.e.fnAtom("nops", 'i')) }

// load splits the value of args[idx] at the scan cursor.
func (a *argScan) load(st *State, idx Lin) []SV {
	e := a.e
	if e.proveEq(st, idx.AddK(-1)) && !e.proveEq(st, st.Ghost["$argpos"].(Lin).AddK(-2)) { // a new scan
		st.Ghost["$argpos"] = K(1)
		st.Ghost["$argrank"] = K(0)
		st.Ghost["$argwant"] = StrV{}
	}
	pos, ok := st.Ghost["$argpos"].(Lin)
	if ok && e.proveEq(st, idx.Sub(pos).AddK(1)) && st.Ghost["$argval"] != nil { // the same argument again
		return one(st, st.Ghost["$argval"])
	}
	if !ok || !e.proveEq(st, idx.Sub(pos)) {
		return nil
	}
	rank := st.Ghost["$argrank"].(Lin)
	var out []SV
	if o, _ := st.Ghost["$argwant"].(StrV).Const(); o != "" {
		v := e.normStr(st, e.strTerm("elem:args", e.n(st, idx)))
		st.Ghost["$argpos"] = pos.AddK(1)
		st.Ghost["$argval"] = v
		st.Ghost["$argwant"] = StrV{}
		a.onVal(st, o, v)
		return one(st, v)
	}
	for _, o := range a.opts {
		s := st.clone()
		s.note("argument %s is %q", e.linString(e.n(s, idx)), o)
		s.Ghost["$argpos"] = pos.AddK(1)
		s.Ghost["$argval"] = SC(o)
		if a.valOpts[o] {
			s.Ghost["$argwant"] = SC(o)
		}
		if a.onOpt != nil {
			a.onOpt(s, o)
		}
		out = append(out, SV{s, SC(o)})
	}
	v := e.normStr(st, a.opd(e.n(st, rank)))
	for _, o := range a.opts {
		if !e.addStrNe(st, v, SC(o)) {
			return out
		}
	}
	if !e.addGe(st, a.nops().Sub(rank).AddK(-1)) {
		return out
	}
	st.note("argument %s is an operand", e.linString(e.n(st, idx)))
	st.Ghost["$argpos"] = pos.AddK(1)
	st.Ghost["$argrank"] = rank.AddK(1)
	st.Ghost["$argval"] = v
	return append(out, SV{st, v})
}

func init() {
	register(&Prop{
		ID:    "C01",
		Pats:  []string{"./cmd/cat"},
		Rule:  "A ghost cursor (operand, offset) runs beside every abstract execution of cat: every write to standard output must be the next bytes at the cursor, in chunks of any size; at an exit without a failed open or read the cursor must be behind the last operand and the status 0.",
		Trust: []string{"the models of os, io and fmt: a read gives any number of bytes, an error or the end of the file", "standard output accepts what is written"},
		Tasks: func(p *Program) []Task {
			return []Task{{Strict: true, Name: "cat", Run: catFidelity}}
		},
	})
}

// finish: a scan that has seen every argument has seen every operand.
func (a *argScan) finish(st *State) bool {
	ok, _ := a.fin(st)
	return ok
}

// fin also tells whether the state is still possible.
func (a *argScan) fin(st *State) (ok, possible bool) {
	e := a.e
	if !e.entails(st, e.n(st, st.Ghost["$argpos"].(Lin).Sub(e.argc()))) {
		return false, true
	}
	return true, e.addEq(st, e.n(st, a.nops().Sub(st.Ghost["$argrank"].(Lin))))
}

func (a *argScan) prep(st *State) {
	st.Ghost["$argpos"] = K(1)
	st.Ghost["$argrank"] = K(0)
	st.Ghost["$argval"] = StrV{}
	st.Ghost["$argwant"] = StrV{}
	a.e.addGe(st, a.nops())
}

func isRead(ev string) bool {
	switch ev {
	case "readall", "readbuf", "readbyte", "readrec", "readeof", "readfail", "scantok":
		return true
	}
	return false
}

func isFail(ev string) bool {
	switch ev {
	case "openfail", "readfail":
		return true
	}
	return false
}

func catFidelity(e *Engine) {
	a := &argScan{e: e, opts: []string{"-u"}}
	e.argLoad = a.load
	e.wantOut = true
	stdin := SA(e.fnAtom("stdin", 's'))
	g := func(st *State, k string) Lin { return e.n(st, st.Ghost[k].(Lin)) }
	done := func(st *State) bool {
		src := e.normStr(st, st.Ghost["src"].(StrV))
		return e.proveEq(st, g(st, "pos").Sub(e.strLen(src))) && e.proveEq(st, g(st, "wr").Sub(g(st, "pos")))
	}
	// collapse: a source that has been copied to its end is forgotten
	collapse := func(st *State) []*State {
		if done(st) {
			st.Ghost["src"], st.Ghost["pos"], st.Ghost["wr"] = StrV{}, K(0), K(0)
		}
		return []*State{st}
	}
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		if isFail(ev) {
			st.Ghost["fail"] = BoolV{bTrue}
		}
		if !isRead(ev) {
			return []*State{st}
		}
		content, from, to := e.normStr(st, args[0].(StrV)), args[1].(Lin), args[2].(Lin)
		src := e.normStr(st, st.Ghost["src"].(StrV))
		k := g(st, "k")
		a.finish(st)
		next := e.n(st, k.AddK(1))
		nm := e.normStr(st, a.opd(next))
		isNext := false
		start := K(0)
		if e.strKnown(st, content, e.normStr(st, e.strTerm("content", nm))) == 1 && e.entails(st, e.n(st, a.nops().Sub(next).AddK(-1))) {
			isNext = true
		} else if e.strKnown(st, content, stdin) == 1 {
			start = g(st, "sin")
			if e.strKnown(st, nm, SC("-")) == 1 && e.entails(st, e.n(st, a.nops().Sub(next).AddK(-1))) {
				isNext = true
			} else if e.entailsEq(st, e.n(st, a.nops())) && e.entailsEq(st, e.n(st, next)) {
				isNext = true
			}
		}
		same := e.strKnown(st, content, src) == 1
		atEnd := e.entailsEq(st, e.n(st, to.Sub(from))) && e.entailsEq(st, e.n(st, to.Sub(e.strLen(content))))
		again := atEnd && (e.strKnown(st, content, e.normStr(st, e.strTerm("content", a.opd(k)))) == 1 || e.strKnown(st, content, stdin) == 1)
		switch {
		case isNext && done(st) && e.proveEq(st, from.Sub(start)):
			st.Ghost["k"] = next
			st.Ghost["src"] = content
			st.Ghost["wr"] = from
			st.Ghost["pos"] = to
		case same && e.proveEq(st, from.Sub(g(st, "pos"))):
			st.Ghost["pos"] = to
		case again && done(st): // nothing more in the source just copied
		default:
			e.alarm(st, "order", at, "reads %s from %s, but the next data to copy are those of operand %s (after %s of %s)", e.valString(content), e.linString(e.n(st, from)), e.linString(next), e.linString(g(st, "pos")), e.valString(src))
			return nil
		}
		if e.strKnown(st, content, stdin) == 1 {
			st.Ghost["sin"] = to
		}
		return collapse(st)
	}
	e.onWrite = func(st *State, w WriteEv) []*State {
		if w.Kind != "stdout" {
			return []*State{st}
		}
		d := e.normStr(st, w.Data)
		n := e.strLen(d)
		wr, pos := g(st, "wr"), g(st, "pos")
		src := e.normStr(st, st.Ghost["src"].(StrV))
		e.nObl++
		if !n.Is0() && (!e.entails(st, pos.Sub(wr).Sub(n)) || e.strKnown(st, d, e.subStr(src, wr, e.n(st, wr.Add(n)))) != 1) {
			e.alarm(st, "data", w.At, "writes %s, but the input not yet copied is bytes [%s:%s] of %s", e.valString(d), e.linString(wr), e.linString(pos), e.valString(src))
			return nil
		}
		st.Ghost["wr"] = e.n(st, wr.Add(n))
		return collapse(st)
	}
	e.onExit = func(st *State, code Val, at ssa.Instruction) {
		failed := isBoolT(st.Ghost["fail"])
		c := bEq0(e.asLin(code))
		e.nObl++
		if failed {
			return
		}
		for range e.assume(st.clone(), c, false) {
			e.alarm(st, "status", at, "exits with a failure status although every operand could be read")
			return
		}
		for _, s := range e.assume(st, c, true) {
			if !a.finish(s) {
				e.alarm(s, "incomplete", at, "exits before looking at every argument")
				continue
			}
			for _, t := range e.assume(s.clone(), bEq0(e.n(s, a.nops())), true) {
				if !e.proveEq(t, g(t, "k")) || !done(t) {
					e.alarm(t, "incomplete", at, "without operands, standard input is not copied to its end")
				}
			}
			for _, t := range e.assume(s, bEq0(e.n(s, a.nops())), false) {
				if !e.proveEq(t, g(t, "k").Sub(a.nops()).AddK(1)) || !done(t) {
					e.alarm(t, "incomplete", at, "exits 0 but not every operand has been copied to its end (operand %s of %s)", e.linString(g(t, "k")), e.linString(e.n(t, a.nops())))
				}
			}
		}
	}
	runMain(e, "cmd/cat", func(st *State) {
		a.prep(st)
		st.Ghost["k"] = K(-1)
		st.Ghost["src"] = StrV{}
		st.Ghost["pos"] = K(0)
		st.Ghost["wr"] = K(0)
		st.Ghost["sin"] = K(0)
		st.Ghost["fail"] = BoolV{bFalse}
	})
}
