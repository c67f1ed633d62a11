package main

// cmp: the two inputs are compared byte by byte in a ghost run beside the program's.
//
//   r1, r2  bytes of each input the program has read
//   c       bytes settled: their comparison is known to the ghost run
//   diff    some settled pair of bytes differs
//   nl      newlines among the settled bytes of input 1
//   n1, n2  the lengths of the inputs, once they have been read from
//   exp     what is still to be written for the last difference

import (
	"golang.org/x/tools/go/ssa"
)

func cmpTask(status, report bool) func(e *Engine) {
	return func(e *Engine) {
		e.wantOut = true
		a := &argScan{e: e, opts: []string{"-l", "-s"}}
		a.onOpt = func(st *State, o string) { st.Ghost[o] = BoolV{bTrue} }
		e.argLoad = a.load
		stdin := SA(e.fnAtom("stdin", 's'))
		g := func(st *State, k string) Lin { return e.n(st, st.Ghost[k].(Lin)) }
		input := func(st *State, k int64) StrV {
			nm := e.normStr(st, a.opd(K(k)))
			if e.strKnown(st, nm, SC("-")) == 1 {
				return stdin
			}
			return e.normStr(st, e.strTerm("content", nm))
		}
		bothStdin := func(st *State) bool {
			return e.strKnown(st, a.opd(K(0)), SC("-")) == 1 && e.strKnown(st, a.opd(K(1)), SC("-")) == 1
		}
		owed := func(st *State, at ssa.Instruction) bool {
			if x := st.Ghost["exp"].(StrV); len(x.P) > 0 {
				if report {
					e.alarm(st, "report", at, "goes on without having written %s", e.valString(e.normStr(st, x)))
				}
				st.Ghost["exp"] = StrV{}
				return false
			}
			return true
		}
		settle := func(st *State) []*State {
			c := g(st, "c")
			if !e.proveEq(st, g(st, "r1").Sub(c).AddK(-1)) || !e.proveEq(st, g(st, "r2").Sub(c).AddK(-1)) {
				return []*State{st}
			}
			b1, b2 := e.n(st, e.byteAt(input(st, 0), c)), e.n(st, e.byteAt(input(st, 1), c))
			l, s := isBoolT(st.Ghost["-l"]), isBoolT(st.Ghost["-s"])
			st.Ghost["c"] = c.AddK(1)
			var out []*State
			for _, t := range e.assume(st.clone(), bEq0(b1.Sub(b2)), false) {
				t.note("bytes %s differ", e.linString(c))
				if !s && (l || !isBoolT(t.Ghost["diff"])) {
					if l {
						t.Ghost["exp"] = SCat(e.itoa(c.AddK(1)), SC(" "), e.strTerm("fmt:o", b1), SC(" "), e.strTerm("fmt:o", b2), SC("\n"))
					} else {
						t.Ghost["exp"] = SCat(a.opd(K(0)), SC(" "), a.opd(K(1)), SC(" differ: char "), e.itoa(c.AddK(1)), SC(", line "), e.itoa(g(t, "nl").AddK(1)), SC("\n"))
					}
				}
				t.Ghost["diff"] = BoolV{bTrue}
				out = append(out, t)
			}
			for _, t := range e.assume(st, bEq0(b1.Sub(b2)), true) {
				out = append(out, t)
			}
			if !report {
				return out
			}
			var res []*State
			for _, t := range out {
				for _, u := range e.assume(t.clone(), bEq0(b1.AddK(-10)), true) {
					u.Ghost["nl"] = g(u, "nl").AddK(1)
					res = append(res, u)
				}
				res = append(res, e.assume(t, bEq0(b1.AddK(-10)), false)...)
			}
			return res
		}
		e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
			if isFail(ev) {
				st.Ghost["fail"] = BoolV{bTrue}
			}
			if !isRead(ev) || isBoolT(st.Ghost["fail"]) {
				return []*State{st}
			}
			content, from, to := e.normStr(st, args[0].(StrV)), args[1].(Lin), args[2].(Lin)
			if _, ok := a.fin(st); !ok || bothStdin(st) {
				return nil // reading one input as two: not defined
			}
			owed(st, at)
			k := ""
			switch {
			case e.strKnown(st, content, input(st, 0)) == 1:
				k = "r1"
			case e.strKnown(st, content, input(st, 1)) == 1:
				k = "r2"
			default:
				e.alarm(st, "input", at, "reads %s, which is neither input", e.valString(content))
				return nil
			}
			st.Ghost["n"+k[1:]] = e.n(st, e.strLen(content))
			if e.entailsEq(st, e.n(st, to.Sub(from))) {
				return []*State{st}
			}
			if !e.proveEq(st, from.Sub(g(st, k))) {
				e.alarm(st, "input", at, "reads %s from %s instead of %s", e.valString(content), e.linString(from), e.linString(g(st, k)))
				return nil
			}
			st.Ghost[k] = e.n(st, to)
			return settle(st)
		}
		e.onWrite = func(st *State, w WriteEv) []*State {
			if isBoolT(st.Ghost["fail"]) {
				return []*State{st}
			}
			d := e.normStr(st, w.Data)
			if status && isBoolT(st.Ghost["-s"]) && !e.strLen(d).Is0() {
				if _, ok := a.fin(st); !ok {
					return nil
				}
				e.dataAlarm(st, d, "silent", w.At, "writes %s although -s is given", e.valString(d))
			}
			if w.Kind != "stdout" {
				return []*State{st}
			}
			x := e.normStr(st, st.Ghost["exp"].(StrV))
			rest, ok := e.cutPrefix(st, x, d)
			e.nObl++
			if !ok {
				if report {
					e.dataAlarm(st, d, "report", w.At, "writes %s where %s is due", e.valString(d), e.valString(x))
				}
				return nil
			}
			st.Ghost["exp"] = rest
			return []*State{st}
		}
		e.onExit = func(st *State, code Val, at ssa.Instruction) {
			if isBoolT(st.Ghost["fail"]) || bothStdin(st) {
				return
			}
			fin, ok := a.fin(st)
			if !ok {
				return
			}
			if !fin {
				if e.entailsEq(st, e.n(st, e.asLin(code)).AddK(-2)) {
					return
				}
				e.alarm(st, "args", at, "exits before looking at every argument")
				return
			}
			e.nObl++
			owed(st, at)
			n1, n2 := g(st, "n1"), g(st, "n2")
			c, cl := g(st, "c"), e.n(st, e.asLin(code))
			diff, l, s := isBoolT(st.Ghost["diff"]), isBoolT(st.Ghost["-l"]), isBoolT(st.Ghost["-s"])
			if report && l && !s && !e.proveEq(st, c.Sub(n1)) && !e.proveEq(st, c.Sub(n2)) {
				e.alarm(st, "report", at, "with -l, ends after comparing %s bytes, before the end of either input", e.linString(c))
			}
			if !status {
				return
			}
			if !e.proveEq(st, cl) && !e.proveEq(st, cl.AddK(-1)) {
				e.alarm(st, "status", at, "exits with %s although both inputs could be read", e.linString(cl))
				return
			}
			if e.entailsEq(st, cl) {
				if diff || !(e.proveEq(st, c.Sub(n1)) && e.proveEq(st, c.Sub(n2)) || e.strKnown(st, input(st, 0), input(st, 1)) == 1) {
					e.alarm(st, "status", at, "exits 0 although the inputs differ or have not been compared to their ends (%s bytes compared)", e.linString(c))
				}
				return
			}
			if !diff && !e.entailsNe(st, e.n(st, n1.Sub(n2))) && e.strKnown(st, input(st, 0), input(st, 1)) != 0 {
				e.alarm(st, "status", at, "exits 1 although no difference has been found")
			}
		}
		runMain(e, "cmd/cmp", func(st *State) {
			a.prep(st)
			e.addEq(st, a.nops().AddK(-2))
			for _, k := range []int64{0, 1} {
				e.addStrNe(st, a.opd(K(k)), StrV{})
			}
			for _, k := range []string{"r1", "r2", "c", "nl"} {
				st.Ghost[k] = K(0)
			}
			st.Ghost["n1"], st.Ghost["n2"] = e.newInt("len1"), e.newInt("len2")
			for _, k := range []string{"diff", "-l", "-s", "fail"} {
				st.Ghost[k] = BoolV{bFalse}
			}
			st.Ghost["exp"] = StrV{}
		})
	}
}

// cutPrefix: x == d + rest, if that is known.
func (e *Engine) cutPrefix(st *State, x, d StrV) (StrV, bool) {
	if len(d.P) == 0 {
		return x, true
	}
	if e.strKnown(st, x, d) == 1 {
		return StrV{}, true
	}
	if len(d.P) > len(x.P) {
		return x, false
	}
	for i, p := range d.P {
		q := x.P[i]
		if i == len(d.P)-1 && !p.V && !q.V && len(p.C) < len(q.C) && q.C[:len(p.C)] == p.C {
			rest := append([]SPart{{C: q.C[len(p.C):]}}, x.P[i+1:]...)
			return StrV{rest}, true
		}
		if e.strKnown(st, StrV{[]SPart{p}}, StrV{[]SPart{q}}) != 1 {
			return x, false
		}
	}
	return StrV{append([]SPart(nil), x.P[len(d.P):]...)}, true
}

func init() {
	register(&Prop{
		ID:   "C05",
		Pats: []string{"./cmd/cmp"},
		Rule: "Beside every abstract execution of cmp a ghost comparison of the two inputs runs, fed by the bytes the program reads: at every exit without a failed read the status is 0 only when both inputs were compared to their ends and are equal, 1 only when they differ, and -s writes nothing.",
		Tasks: func(p *Program) []Task {
			return []Task{{Strict: true, Name: "status", Run: cmpTask(true, false)}}
		},
	})
	register(&Prop{
		ID:   "C06",
		Pats: []string{"./cmd/cmp"},
		Rule: "The ghost comparison counts bytes and newlines: what cmp writes to standard output is, for every difference that has to be reported and for nothing else, the POSIX line with the ghost's offset, line number and byte values; with -l it ends only at the end of an input.",
		Tasks: func(p *Program) []Task {
			return []Task{{Strict: true, Name: "report", Run: cmpTask(false, true)}}
		},
	})
}
