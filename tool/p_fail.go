package main

import (
	"golang.org/x/tools/go/ssa"
)

// failMain: an input failure ends in a diagnostic and a failure status.
func failMain(path string, code int64) func(e *Engine) {
	return func(e *Engine) {
		e.onPanic = func(*State, string, string, ssa.Instruction) bool { return true }
		e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
			if isFail(ev) {
				st.Ghost["fail"] = BoolV{bTrue}
			}
			return []*State{st}
		}
		e.onWrite = func(st *State, w WriteEv) []*State {
			if w.Kind == "stderr" && isBoolT(st.Ghost["fail"]) {
				st.Ghost["diag"] = BoolV{bTrue}
			}
			return []*State{st}
		}
		e.onExit = func(st *State, c Val, at ssa.Instruction) {
			e.nObl++
			if !isBoolT(st.Ghost["fail"]) {
				return
			}
			if !isBoolT(st.Ghost["diag"]) {
				e.alarm(st, "silent", at, "exits after a failed open or read without a diagnostic on standard error")
				return
			}
			cl := e.n(st, e.asLin(c))
			if code >= 0 {
				if !e.proveEq(st, cl.AddK(-code)) {
					e.alarm(st, "status", at, "exits with status %s after a failed open or read; it must be %d", e.linString(cl), code)
				}
				return
			}
			if !e.entailsNe(st, cl) {
				e.alarm(st, "status", at, "exits with status %s after a failed open or read", e.linString(cl))
			}
		}
		runMain(e, path, func(st *State) {
			st.Ghost["fail"], st.Ghost["diag"] = BoolV{bFalse}, BoolV{bFalse}
		})
	}
}

func init() {
	register(&Prop{
		ID:   "C02",
		Pats: []string{"./cmd/cat", "./cmd/cksum", "./cmd/cmp", "./cmd/diff", "./cmd/head", "./cmd/tsort"},
		Rule: "Along every path of the program's abstract executions on which an open or a read of an input has failed, a write to standard error follows and the status of the exit reached is non-zero (2 for cmp and diff).",
		Tasks: func(p *Program) []Task {
			var ts []Task
			for _, c := range []string{"cat", "cksum", "cmp", "diff", "head", "tsort"} {
				code := int64(-1)
				if c == "cmp" || c == "diff" {
					code = 2
				}
				ts = append(ts, Task{Name: c, Strict: c != "diff" && c != "tsort", Run: failMain("cmd/"+c, code)})
			}
			return ts
		},
	})
}
