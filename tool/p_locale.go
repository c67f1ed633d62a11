package main

// locale: everything written to standard output is collected and compared with what POSIX asks
// for, as terms over the environment.

import (
	"golang.org/x/tools/go/ssa"
)

func localeTask(e *Engine) {
	e.wantOut = true
	e.onWrite = func(st *State, w WriteEv) []*State {
		if w.Kind == "stdout" {
			st.Ghost["out"] = SCat(st.Ghost["out"].(StrV), e.normStr(st, w.Data))
		}
		return []*State{st}
	}
	env := func(n string) StrV { return e.strTerm("env", SC(n)) }
	quote := func(s StrV) StrV { return SCat(SC("\""), s, SC("\"")) }
	e.onExit = func(st *State, code Val, at ssa.Instruction) {
		if !e.proveEq(st, e.n(st, e.asLin(code))) {
			e.alarm(st, "status", at, "exits with a failure status")
		}
		type part struct {
			st  *State
			exp StrV
		}
		cur := []part{{st, SCat(SC("LANG="), quote(env("LANG")), SC("\n"))}}
		for _, c := range []string{"LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"} {
			var next []part
			for _, p := range cur {
				noAll := e.strEq(e.normStr(p.st, env("LC_ALL")), StrV{})
				for _, s := range e.assume(p.st.clone(), noAll, false) {
					next = append(next, part{s, SCat(p.exp, SC(c+"="), quote(env("LC_ALL")), SC("\n"))})
				}
				for _, s := range e.assume(p.st, noAll, true) {
					unset := e.strEq(e.normStr(s, env(c)), StrV{})
					for _, t := range e.assume(s.clone(), unset, false) {
						next = append(next, part{t, SCat(p.exp, SC(c+"="), env(c), SC("\n"))})
					}
					for _, t := range e.assume(s, unset, true) {
						next = append(next, part{t, SCat(p.exp, SC(c+"="), quote(env("LANG")), SC("\n"))})
					}
				}
			}
			cur = next
		}
		for _, p := range cur {
			e.nObl++
			exp := e.normStr(p.st, SCat(p.exp, SC("LC_ALL="), env("LC_ALL"), SC("\n")))
			out := e.normStr(p.st, p.st.Ghost["out"].(StrV))
			if e.strKnown(p.st, out, exp) != 1 {
				e.dataAlarm(p.st, out, "output", at, "prints %s instead of %s", e.valString(out), e.valString(exp))
			}
		}
	}
	runMain(e, "cmd/locale", func(st *State) { st.Ghost["out"] = StrV{} })
}

func init() {
	register(&Prop{
		ID:   "C16",
		Pats: []string{"./cmd/locale"},
		Rule: "On every path the text written to standard output, as a term over the environment variables, equals the eight lines that the precedence LC_ALL, own variable, LANG prescribes under the path's facts about which variables are empty.",
		Tasks: func(p *Program) []Task {
			return []Task{{Strict: true, Name: "locale", Run: localeTask, MergeCap: 1000}}
		},
	})
}
