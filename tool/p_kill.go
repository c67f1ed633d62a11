package main

// kill: the arguments are classified as they are scanned; SIG is the signal the last option so
// far selects, opd(r) the r-th PID operand, sent the number of operands signalled.

import (
	"golang.org/x/tools/go/ssa"
)

var posixSignals = []struct {
	name string
	n    int64
}{{"0", 0}, {"HUP", 1}, {"INT", 2}, {"QUIT", 3}, {"ABRT", 6}, {"KILL", 9}, {"ALRM", 14}, {"TERM", 15}}

func killTask(e *Engine) {
	a := &argScan{e: e}
	g := func(st *State, k string) Lin { return e.n(st, st.Ghost[k].(Lin)) }
	step := func(st *State, pos Lin, v StrV) {
		st.Ghost["$argpos"] = e.n(st, pos.AddK(1))
		st.Ghost["$argval"] = v
	}
	e.argLoad = func(st *State, idx Lin) []SV {
		pos := st.Ghost["$argpos"].(Lin)
		if e.proveEq(st, e.n(st, idx.Sub(pos).AddK(1))) && !e.proveEq(st, e.n(st, idx)) {
			return one(st, st.Ghost["$argval"])
		}
		if !e.proveEq(st, e.n(st, idx.Sub(pos))) {
			return nil
		}
		var out []SV
		arg := e.normStr(st, e.strTerm("elem:args", e.n(st, idx)))
		if isBoolT(st.Ghost["want"]) { // the name after -s
			st.Ghost["want"] = BoolV{bFalse}
			step(st, pos, arg)
			up := e.strTerm("upper", arg)
			for _, p := range posixSignals {
				for _, s := range e.assume(st.clone(), e.strEq(e.normStr(st, up), SC(p.name)), true) {
					s.note("the name after -s is %s", p.name)
					s.Ghost["SIG"] = K(p.n)
					out = append(out, SV{s, arg})
				}
				if !e.addStrNe(st, up, SC(p.name)) {
					return out
				}
			}
			st.note("the name after -s is no signal name")
			st.Ghost["invalid"] = BoolV{bTrue}
			return append(out, SV{st, arg})
		}
		for _, o := range []string{"-l", "-s"} {
			s := st.clone()
			s.note("argument %s is %q", e.linString(e.n(s, idx)), o)
			step(s, pos, SC(o))
			if o == "-l" {
				s.Ghost["list"] = BoolV{bTrue}
			} else {
				s.Ghost["want"] = BoolV{bTrue}
			}
			out = append(out, SV{s, SC(o)})
		}
		// -NUMBER
		{
			s := st.clone()
			rest := e.normStr(s, e.strTerm("optnum", e.n(s, idx)))
			v := SCat(SC("-"), rest)
			if e.addStrNe(s, rest, SC("l")) && e.addStrNe(s, rest, SC("s")) {
				step(s, pos, v)
				for _, t := range e.assume(s.clone(), e.boolTerm("isint", rest), true) {
					t.note("argument %s is an option with a number", e.linString(e.n(t, idx)))
					t.Ghost["SIG"] = e.intTerm("atoi", rest)
					out = append(out, SV{t, v})
				}
				for _, t := range e.assume(s, e.boolTerm("isint", rest), false) {
					t.note("argument %s is an option without a number", e.linString(e.n(t, idx)))
					t.Ghost["invalid"] = BoolV{bTrue}
					out = append(out, SV{t, v})
				}
			}
		}
		// an operand
		rank := st.Ghost["$argrank"].(Lin)
		v := e.normStr(st, a.opd(e.n(st, rank)))
		if !e.addGe(st, a.nops().Sub(rank).AddK(-1)) {
			return out
		}
		st.Ghost["$argrank"] = rank.AddK(1)
		step(st, pos, v)
		for _, t := range e.assume(st, e.hasPrefix(v, SC("-")), false) {
			for _, u := range e.assume(t.clone(), e.boolTerm("isint", v), true) {
				u.note("argument %s is a PID", e.linString(e.n(u, idx)))
				out = append(out, SV{u, v})
			}
			for _, u := range e.assume(t, e.boolTerm("isint", v), false) {
				u.note("argument %s is an operand but no number", e.linString(e.n(u, idx)))
				u.Ghost["invalid"] = BoolV{bTrue}
				out = append(out, SV{u, v})
			}
		}
		return out
	}
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		switch ev {
		case "findprocessfail":
			st.Ghost["fail"] = BoolV{bTrue}
		case "signal", "signalfail":
			e.nObl++
			if ev == "signalfail" {
				st.Ghost["fail"] = BoolV{bTrue}
			}
			fin, ok := a.fin(st)
			if !ok {
				return nil
			}
			pid, sig := e.n(st, e.asLin(args[0])), e.n(st, e.asLin(args[1]))
			switch {
			case isBoolT(st.Ghost["invalid"]) || isBoolT(st.Ghost["want"]):
				e.alarm(st, "invalid", at, "sends a signal although an argument is invalid")
				return nil
			case isBoolT(st.Ghost["list"]):
				e.alarm(st, "list", at, "sends a signal although -l is given")
				return nil
			case !fin:
				e.alarm(st, "args", at, "sends a signal before looking at every argument")
				return nil
			}
			sent := g(st, "sent")
			if !e.entails(st, e.n(st, a.nops().Sub(sent).AddK(-1))) {
				e.alarm(st, "pid", at, "sends a signal to %s after every operand has had its signal", e.linString(pid))
				return nil
			}
			want := e.n(st, e.intTerm("atoi", a.opd(sent)))
			if !e.proveEq(st, pid.Sub(want)) {
				e.alarm(st, "pid", at, "sends a signal to %s; operand %s is due", e.linString(pid), e.linString(sent))
				return nil
			}
			if !e.proveEq(st, sig.Sub(g(st, "SIG"))) {
				e.alarm(st, "signal", at, "sends signal %s instead of %s", e.linString(sig), e.linString(g(st, "SIG")))
				return nil
			}
			st.Ghost["sent"] = e.n(st, sent.AddK(1))
		}
		return []*State{st}
	}
	e.onWrite = func(st *State, w WriteEv) []*State {
		if w.Kind == "stderr" {
			st.Ghost["diag"] = BoolV{bTrue}
		}
		return []*State{st}
	}
	e.onExit = func(st *State, code Val, at ssa.Instruction) {
		e.nObl++
		cl := e.n(st, e.asLin(code))
		fin, ok := a.fin(st)
		if !ok {
			return
		}
		failing := e.entailsNe(st, cl) && isBoolT(st.Ghost["diag"])
		switch {
		case isBoolT(st.Ghost["invalid"]) || isBoolT(st.Ghost["want"]) && fin:
			if !failing {
				e.alarm(st, "status", at, "an argument is invalid, but kill exits with %s (diagnostic: %v)", e.linString(cl), isBoolT(st.Ghost["diag"]))
			}
			return
		case !fin:
			e.alarm(st, "args", at, "exits before looking at every argument, none of which is invalid so far")
			return
		case isBoolT(st.Ghost["list"]):
			if !e.entailsEq(st, cl) {
				e.alarm(st, "status", at, "kill -l exits with %s", e.linString(cl))
			}
			return
		case isBoolT(st.Ghost["fail"]):
			if !failing {
				e.alarm(st, "status", at, "a signal could not be sent, but kill exits with %s (diagnostic: %v)", e.linString(cl), isBoolT(st.Ghost["diag"]))
			}
			return
		}
		for _, s := range e.assume(st.clone(), bEq0(e.n(st, a.nops())), true) {
			if !failing {
				e.alarm(s, "status", at, "there is no PID, but kill exits with %s", e.linString(cl))
			}
		}
		for _, s := range e.assume(st, bEq0(e.n(st, a.nops())), false) {
			if !e.entailsEq(s, cl) {
				e.alarm(s, "status", at, "every signal was sent, but kill exits with %s", e.linString(cl))
			} else if !e.proveEq(s, e.n(s, g(s, "sent").Sub(a.nops()))) {
				e.alarm(s, "incomplete", at, "exits after signalling %s of %s operands", e.linString(g(s, "sent")), e.linString(e.n(s, a.nops())))
			}
		}
	}
	runMain(e, "cmd/kill", func(st *State) {
		a.prep(st)
		st.Ghost["SIG"] = K(15)
		st.Ghost["sent"] = K(0)
		for _, k := range []string{"invalid", "list", "want", "fail", "diag"} {
			st.Ghost[k] = BoolV{bFalse}
		}
	})
}

func init() {
	register(&Prop{
		ID:   "C11",
		Pats: []string{"./cmd/kill"},
		Rule: "Every argument is classified as it is looked at (-l, -s and its name, -NUMBER, PID; valid or not). A signal event is allowed only after all arguments have been looked at, none is invalid and -l is absent; the r-th event goes to the r-th PID operand with the signal the last option selects; at exit every operand has had its signal unless one could not be sent, and the status and diagnostic fit.",
		Tasks: func(p *Program) []Task {
			return []Task{{Strict: true, Name: "kill", Run: killTask}}
		},
	})
}
