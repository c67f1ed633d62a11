package main

// tsort: every list of few words over unknown, different words; the output is a topological order.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wordLists gives the lists of n words up to renaming: entry i is the number of the word at i.
func wordLists(n int) (out [][]int) {
	var rec func(l []int, k int)
	rec = func(l []int, k int) {
		if len(l) == n {
			out = append(out, append([]int(nil), l...))
			return
		}
		for i := 0; i <= k; i++ {
			m := k
			if i == k {
				m++
			}
			rec(append(l, i), m)
		}
	}
	rec(nil, 0)
	return out
}

// cyclic: the pairs of different words have a cycle.
func cyclic(l []int) bool {
	after := map[int]map[int]bool{}
	for i := 0; i+1 < len(l); i += 2 {
		if l[i] == l[i+1] {
			continue
		}
		if after[l[i]] == nil {
			after[l[i]] = map[int]bool{}
		}
		after[l[i]][l[i+1]] = true
	}
	state := map[int]int{}
	var visit func(n int) bool
	visit = func(n int) bool {
		if state[n] == 1 {
			return true
		}
		if state[n] == 2 {
			return false
		}
		state[n] = 1
		for m := range after[n] {
			if visit(m) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range after {
		if visit(n) {
			return true
		}
	}
	return false
}

func (e *Engine) tsortRun(l []int, seps func(i int) string, args []StrV) {
	var text StrV
	words := map[int]Atom{}
	if e.oneWord == nil {
		e.oneWord, e.oneLine = map[Atom]bool{}, map[Atom]bool{}
	}
	n := 0
	var show []string
	for i, k := range l {
		a := e.fnAtom("word", 's', K(int64(k+1)))
		words[k] = a
		e.oneWord[a], e.oneLine[a] = true, true
		text = SCat(text, SC(seps(i)), SA(a))
		n = max(n, k+1)
		show = append(show, string(rune('A'+k)))
	}
	text = SCat(text, SC(seps(len(l))))
	input := strings.Join(show, " ")
	bad := ""
	if len(l)%2 == 1 {
		bad = "an odd number of words"
	} else if cyclic(l) {
		bad = "a cycle"
	}
	e.sortFork = true
	e.args = append([]StrV{SC("tsort")}, args...)
	e.stdinText = &text
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		if isFail(ev) {
			return nil // C02
		}
		return []*State{st}
	}
	e.onWrite = func(st *State, w WriteEv) []*State {
		if w.Kind == "stdout" || w.Kind == "stderr" {
			old, _ := st.Ghost[w.Kind].(StrV)
			st.Ghost[w.Kind] = SCat(old, w.Data)
		}
		return []*State{st}
	}
	e.onExit = func(st *State, code Val, at ssa.Instruction) {
		e.nObl++
		out, _ := st.Ghost["stdout"].(StrV)
		diag, _ := st.Ghost["stderr"].(StrV)
		cl := e.n(st, e.asLin(code))
		if bad != "" {
			if !e.entailsNe(st, cl) {
				e.alarm(st, "status", at, "input %q has %s: exits with status %s", input, bad, e.linString(cl))
			} else if e.entailsEq(st, e.n(st, e.strLen(diag))) {
				e.alarm(st, "silent", at, "input %q has %s: no message on standard error", input, bad)
			}
			return
		}
		if !e.entailsEq(st, cl) {
			e.alarm(st, "status", at, "input %q: exits with status %s", input, e.linString(cl))
			return
		}
		at1 := map[int]int{}
		for i, ln := range outLines(e.normStr(st, out)) {
			k := -1
			for w, a := range words {
				if x, ok := ln.Atom(); ok && x == a {
					k = w
				}
			}
			if k < 0 {
				e.alarm(st, "line", at, "input %q: output line %d is %s, no word of the input", input, i+1, e.valString(ln))
				return
			}
			if _, dup := at1[k]; dup {
				e.alarm(st, "twice", at, "input %q: word %c is printed twice", input, 'A'+k)
				return
			}
			at1[k] = i
		}
		for k := 0; k < n; k++ {
			if _, ok := at1[k]; !ok {
				e.alarm(st, "missing", at, "input %q: word %c is not printed", input, 'A'+k)
				return
			}
		}
		for i := 0; i+1 < len(l); i += 2 {
			if l[i] != l[i+1] && at1[l[i]] > at1[l[i+1]] {
				e.alarm(st, "order", at, "input %q: word %c is printed after %c", input, 'A'+l[i], 'A'+l[i+1])
				return
			}
		}
	}
	runMain(e, "cmd/tsort", func(st *State) {
		for i := 0; i < n; i++ {
			e.addGe(st, e.strLen(SA(words[i])).AddK(-1))
			for j := i + 1; j < n; j++ {
				if !e.addFact(st, e.strEq(SA(words[i]), SA(words[j])), false) {
					panic(giveUp{"contradictory input"})
				}
			}
		}
		st.note("input %q, different letters standing for different words", input)
	})
	e.sites["word lists"]++
}

func init() {
	plain := func(i int) string { return " " }
	odd := func(i int) string { return []string{"\n\t ", " ", "\n\n", "\t", "\r\n"}[i%5] }
	register(&Prop{
		ID:    "C14",
		Pats:  []string{"./cmd/tsort"},
		Rule:  "cmd/tsort is followed from main on every list of up to six words (eight in the thorough tier) up to renaming and some of eight: the words are unknown, pairwise different texts without white space; every iteration order of every map and every outcome of the comparisons of a sort is followed. Where the pairs have no cycle the output must be one line per word, every word once, the first word of each pair before the second, with status 0; where they have one, or the number of words is odd, a message on standard error and a status other than 0 must follow.",
		Trust: []string{"the models of bufio.Scanner, sort, fmt and maps", "the input can be read (C02)"},
		Tasks: func(p *Program) []Task {
			var ts []Task
			add := func(name string, f func(e *Engine)) {
				ts = append(ts, Task{Name: name, Pkg: "cmd/tsort", Peeled: true, Par: true, PeelCap: 4000, Levels: []int{100}, Run: func(e *Engine) {
					e.maxSteps *= 100
					f(e)
				}})
			}
			top := 6
			if deeper() > 0 {
				top = 8
			}
			for n := 0; n <= top; n++ {
				lists := wordLists(n)
				parts := 1
				if n >= 6 {
					parts = 8
				}
				if n >= 8 {
					parts = 64
				}
				if n == 7 {
					continue // an odd number of words, as 5
				}
				for k := 0; k < parts; k++ {
					k := k
					name := fmt.Sprintf("%d words", n)
					if parts > 1 {
						name += fmt.Sprintf(", part %d", k+1)
					}
					add(name, func(e *Engine) {
						for i := k; i < len(lists); i += parts {
							e.tsortRun(lists[i], plain, nil)
						}
					})
				}
			}
			for i, shapes := range [][]string{
				{"ABACBDCD", "ABBCCDDE", "EDDCCBBA", "ABACADAE", "AEBECEDE"},
				{"ABACABAC", "AABBCCDD", "ABBACDDC", "ABBCCACD", "ABCDBCDE"},
				{"BACADADB", "ABCBDBBE", "ABBCACDD", "CDABBCAD", "ABBBBCCC"},
			} {
				shapes := shapes
				add(fmt.Sprintf("8 words, some shapes, part %d", i+1), func(e *Engine) {
					for _, s := range shapes {
						var l []int
						for _, c := range s {
							l = append(l, int(c-'A'))
						}
						e.tsortRun(l, plain, nil)
					}
				})
			}
			add("white space and operands", func(e *Engine) {
				for _, l := range wordLists(4) {
					e.tsortRun(l, odd, nil)
					e.tsortRun(l, plain, []StrV{SC("-")})
				}
			})
			return ts
		},
	})
}
