package main

import (
	"golang.org/x/tools/go/ssa"
)

// crashMain: no input, argument list or failing system call makes a main function panic.
func crashMain(path string) func(e *Engine) {
	return func(e *Engine) {
		e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State { return []*State{st} }
		runMain(e, path, nil)
	}
}

func init() {
	register(&Prop{
		ID:    "C03",
		Rule:  "Every index, slice, conversion, type assertion, dereference, division, send on a closed channel and explicit panic that the abstract executions of a program's main reach is an obligation: its failing condition must be infeasible in every reachable abstract state.",
		Trust: []string{"the models of the standard library; memory does not run out"},
		Pats:  []string{"./cmd/cat", "./cmd/cksum", "./cmd/cmp", "./cmd/diff", "./cmd/head", "./cmd/kill", "./cmd/locale", "./cmd/test", "./cmd/tsort", "./cmd/cut"},
		Tasks: func(p *Program) []Task {
			var ts []Task
			for _, c := range []string{"cat", "cksum", "cmp", "cut", "diff", "head", "kill", "locale", "test", "tsort"} {
				ts = append(ts, Task{Name: c, Strict: c != "diff" && c != "tsort", Run: crashMain("cmd/" + c)})
			}
			return ts
		},
	})
}
