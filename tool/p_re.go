package main

// C23: basic regular expressions. ParseBre and Matches are interpreted abstractly for every
// expression of a family and for texts of unknown characters; what Matches returns on a path is
// compared with what the expression means for the texts that take the path.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reElem is an element of an expression: its spelling, what it stands for, how often.
type reElem struct {
	text     string
	chars    string // "": any character
	count    string
	min, max int
}

type rePat struct {
	left, right bool
	el          []reElem
}

func (p rePat) String() string {
	var b strings.Builder
	if p.left {
		b.WriteString("^")
	}
	for _, x := range p.el {
		b.WriteString(x.text + x.count)
	}
	if p.right {
		b.WriteString("$")
	}
	return b.String()
}

// ends gives the positions at which a match of the elements from position at may end.
func (p rePat) ends(text []rune, at map[int]bool) map[int]bool {
	for _, x := range p.el {
		reached := map[int]bool{}
		for i := range at {
			for k := 0; k <= x.max && i+k <= len(text); k++ {
				if k > 0 && x.chars != "" && !strings.ContainsRune(x.chars, text[i+k-1]) {
					break
				}
				if k >= x.min {
					reached[i+k] = true
				}
			}
		}
		at = reached
	}
	return at
}

// matches is the meaning of the expression.
func (p rePat) matches(text []rune) bool {
	at := map[int]bool{0: true}
	if !p.left {
		for i := range text {
			at[i+1] = true
		}
	}
	for i := range p.ends(text, at) {
		if !p.right || i == len(text) {
			return true
		}
	}
	return false
}

const reMany = 1 << 20

var reCounts = []reElem{{min: 1, max: 1}, {count: "*", max: reMany}, {count: "{2}", min: 2, max: 2}, {count: "{1,}", min: 1, max: reMany}, {count: "{0,1}", max: 1}, {count: "{1,2}", min: 1, max: 2}}

var reChars = []reElem{{text: "a", chars: "a"}, {text: ".", chars: ""}, {text: "[ab]", chars: "ab"}, {text: "é", chars: "é"}}

func reElems(chars, counts []reElem) (out []reElem) {
	for _, c := range chars {
		for _, k := range counts {
			x := k
			x.text, x.chars = c.text, c.chars
			out = append(out, x)
		}
	}
	return out
}

func reAnchors(el []reElem, f func(rePat)) {
	for k := 0; k < 4; k++ {
		f(rePat{left: k&1 != 0, right: k&2 != 0, el: el})
	}
}

// reRun follows one expression on all texts of n characters after the known ones in pre.
func (e *Engine) reRun(inits []*State, parse, match *ssa.Function, p rePat, n int, pre string) {
	text := SC(pre)
	var rs []Lin
	for i := 0; i < n; i++ {
		a := e.fnAtom("char", 'i', K(int64(i)))
		e.atoms[a].HasB, e.atoms[a].Lo, e.atoms[a].Hi = true, 0, 0xd7ff
		rs = append(rs, LA(a))
		s := e.fnAtom("runestr", 's', LA(a))
		l := e.fnAtom("runelen", 'i', LA(a))
		e.atoms[l].HasB, e.atoms[l].Lo, e.atoms[l].Hi = true, 1, 3
		text = SCat(text, SA(s))
	}
	letters := []rune{'a', 'b', 'é', 'z', '\n', 'a' + 256}
	for _, c := range p.String() {
		if !strings.ContainsRune("()0123456789{,^", c) && !strings.ContainsRune(string(letters), c) || len(p.el) == 1 && p.el[0].text == string(c) {
			letters = append(letters, c)
		}
	}
	e.reAnswers(inits, parse, match, p, n, pre, text, func(t *State, got bool) {
		e.reJudge(t, p, rs, []rune(pre), len([]rune(pre)), letters, got, func(t *State, s []rune) bool {
			// the answer for this very text: the path may have been followed without knowing enough
			wrong := false
			e.reAnswers(inits, parse, match, p, 0, string(s), SC(string(s)), func(_ *State, again bool) {
				wrong = wrong || again != p.matches(s)
			})
			if wrong {
				e.alarm(t, "match", lastInstr(match), "%q matches %q: %v; Matches returns %v", p.String(), short(string(s)), !got, got)
			}
			return !wrong
		})
	})
	e.sites["expressions and lengths"]++
}

// reAnswers gives what Matches returns on each path.
func (e *Engine) reAnswers(inits []*State, parse, match *ssa.Function, p rePat, n int, pre string, text StrV, f func(st *State, got bool)) {
	for _, st0 := range inits {
		st := st0.clone()
		st.note("expression %q, a text of %d characters after %q", p.String(), n, short(pre))
		for _, r := range e.call(st, parse, []Val{SC(p.String())}, nil, nil) {
			tup, ok := r.V.(TupleV)
			if !ok || len(tup) != 2 {
				panic(giveUp{"ParseBre has another result"})
			}
			e.nObl++
			if errKind(tup[1]) != "" {
				e.alarm(r.St, "refused", lastInstr(parse), "the expression %q is refused", p.String())
				continue
			}
			ptr, ok := tup[0].(PtrV)
			if !ok {
				panic(giveUp{"ParseBre has another result"})
			}
			var recv Val = ptr
			s1 := r.St
			if _, isPtr := match.Signature.Recv().Type().(*types.Pointer); !isPtr {
				ls := e.load(s1, ptr)
				s1, recv = ls[0].St, ls[0].V
			}
			for _, q := range e.call(s1, match, []Val{recv, text}, nil, nil) {
				b, ok := q.V.(BoolV)
				if !ok {
					panic(giveUp{"Matches has another result"})
				}
				for _, got := range []bool{true, false} {
					for _, t := range e.assume(q.St.clone(), b.E, got) {
						f(t, got)
					}
				}
			}
		}
	}
}

// reJudge compares the answer with the meaning, for every kind of character the path allows in
// every place.
func (e *Engine) reJudge(st *State, p rePat, rs []Lin, text []rune, known int, letters []rune, got bool, recheck func(*State, []rune) bool) bool {
	if len(text) == known+len(rs) {
		e.nObl++
		if p.matches(text) != got {
			return recheck(st, text)
		}
		return true
	}
	for _, c := range letters {
		s := st.clone()
		if !e.addEq(s, e.n(s, rs[len(text)-known].AddK(-int64(c)))) {
			continue
		}
		if !e.reJudge(s, p, rs, append(text[:len(text):len(text)], c), known, letters, got, recheck) {
			return false
		}
	}
	return true
}

// short gives a text with a long run in it as its length and its end.
func short(s string) string {
	if rs := []rune(s); len(rs) > 40 {
		return fmt.Sprintf("(%d characters)%s", len(rs)-20, string(rs[len(rs)-20:]))
	}
	return s
}

func reTask(pats func(f func(p rePat, n int)), pre string) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 1000
		pkg := e.P.Pkgs[repoModule+"/pkg/regexes"]
		if pkg == nil {
			panic(giveUp{"package pkg/regexes not found"})
		}
		parse, ty := pkg.Func("ParseBre"), pkg.Type("Bre")
		if parse == nil || ty == nil {
			panic(giveUp{"ParseBre is not there"})
		}
		match := e.P.method(ty.Type(), "Matches")
		if match == nil {
			panic(giveUp{"Matches is not there"})
		}
		inits := e.runInit(e.newState(), pkg)
		pats(func(p rePat, n int) { e.reRun(inits, parse, match, p, n, pre) })
	}
}

func init() {
	register(&Prop{
		ID:    "C23",
		Pats:  []string{"./pkg/regexes"},
		Rule:  "ParseBre and Matches are interpreted abstractly for every expression of the families below and every text of up to four (one element), three (two elements) or two and three (three elements) unknown characters: an element is a character, the period or a bracket list, alone or with *, {2}, {1,}, {0,1} or {1,2}; with and without ^ and $; and a list of expressions with special characters where they are ordinary and with other lists and intervals; and texts that begin with nine or seventy known characters. On every path the truth value returned must be what the expression means for every combination of characters that the path allows; where it is not, the same interpretation with that text known decides.",
		Trust: []string{"the text is valid UTF-8; regexp on the known text of an interval is Go's own implementation", "characters that the expression does not name are represented by five others"},
		Tasks: func(p *Program) []Task {
			var ts []Task
			add := func(name string, f func(f func(p rePat, n int))) {
				ts = append(ts, Task{Name: name, Peeled: true, Par: true, Levels: []int{100}, Run: reTask(f, "")})
			}
			all := reElems(reChars, reCounts)
			add("no and one element", func(f func(rePat, int)) {
				reAnchors(nil, func(p rePat) {
					for n := 0; n <= 3; n++ {
						f(p, n)
					}
				})
				for _, x := range all {
					reAnchors([]reElem{x}, func(p rePat) {
						for n := 0; n <= 4; n++ {
							f(p, n)
						}
					})
				}
			})
			for i, c := range reChars {
				first := reElems([]reElem{c}, reCounts)
				add(fmt.Sprintf("two elements, part %d", i+1), func(f func(rePat, int)) {
					for _, x := range first {
						for _, y := range all {
							reAnchors([]reElem{x, y}, func(p rePat) {
								for n := 1; n <= 3; n++ {
									f(p, n)
								}
							})
						}
					}
				})
			}
			lit := func(s string) reElem { return reElem{text: s, chars: s, min: 1, max: 1} }
			many := func(x reElem, k int, last reElem) (el []reElem) {
				for i := 0; i < k; i++ {
					el = append(el, x)
				}
				return append(el, last)
			}
			list := func(s string) reElem { return reElem{text: "[" + s + "]", chars: s, min: 1, max: 1} }
			with := func(x reElem, count string, min, max int) reElem {
				x.count, x.min, x.max = count, min, max
				return x
			}
			short := reElems(reChars[:3], []reElem{reCounts[0], reCounts[1], reCounts[5]})
			add("three elements", func(f func(rePat, int)) {
				for _, x := range short {
					for _, y := range short {
						for _, z := range []reElem{lit("a"), lit("b"), with(lit("b"), "*", 0, reMany), with(list("bz"), "{1,2}", 1, 2)} {
							reAnchors([]reElem{x, y, z}, func(p rePat) {
								f(p, 2)
								f(p, 3)
							})
						}
					}
				}
			})
			add("characters and intervals", func(f func(rePat, int)) {
				for _, el := range [][]reElem{
					// special characters where they are ordinary
					{lit("a"), lit("$"), lit("b")}, {lit("a"), lit("^")}, {lit("$"), lit("a")}, {lit("*")}, {lit("*"), lit("a")}, {with(lit("*"), "*", 0, reMany), lit("a")},
					{lit("]")}, {lit("a"), lit("]")}, {lit("}")}, {lit("a"), lit("}")}, {lit(",")}, {lit("-")}, {lit("?")}, {lit("+")}, {lit("|")}, {lit("%")},
					// lists
					{list("*.")}, {list("$")}, {list("a^")}, {list("[")}, {list("{}")}, {list("éz")}, {list("abz")}, {with(list("a"), "*", 0, reMany), list("b")}, {list("(a)")},
					// intervals
					{with(lit("a"), "{0}", 0, 0)}, {with(lit("a"), "{0}", 0, 0), lit("b")}, {with(lit("a"), "{0,}", 0, reMany), lit("b")}, {with(lit("a"), "{3}", 3, 3)},
					{with(lit("a"), "{2,3}", 2, 3)}, {with(lit("a"), "{3,}", 3, reMany)}, {with(lit("."), "{3}", 3, 3)}, {with(lit("a"), "{10}", 10, 10)}, {with(lit("a"), "{2,10}", 2, 10)},
					{with(lit("a"), "{1,12}", 1, 12), lit("b")}, {with(list("ab"), "{2,2}", 2, 2), lit("b")}, {with(lit("a"), "{0,2}", 0, 2), with(lit("a"), "{2}", 2, 2)},
					{with(lit("a"), "{1,2}", 1, 2), with(list("ab"), "{1,2}", 1, 2), with(lit("b"), "{1,2}", 1, 2)},
				} {
					for i := range el {
						if el[i].text == "." {
							el[i].chars = ""
						}
					}
					reAnchors(el, func(p rePat) {
						for n := 0; n <= 4; n++ {
							f(p, n)
						}
					})
				}
			})
			add("long lists", func(f func(rePat, int)) {
				for _, s := range []string{"abcdefghijklmnopqrstuvwxyz_", "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZzyxwéèa", strings.Repeat("c", 70) + "b"} {
					for _, el := range [][]reElem{{list(s)}, {with(list(s), "*", 0, reMany), lit("a")}, {with(list(s), "{2}", 2, 2)}} {
						reAnchors(el, func(p rePat) {
							for n := 0; n <= 2; n++ {
								f(p, n)
							}
						})
					}
				}
			})
			for _, k := range []int{9, 70} {
				pre := strings.Repeat("a", k)
				f := func(f func(rePat, int)) {
					for _, el := range [][]reElem{
						{with(lit("a"), "*", 0, reMany)}, {with(lit("a"), "{1,}", 1, reMany), lit("b")}, {with(list("ab"), "*", 0, reMany), lit("b")},
						{with(lit("a"), "{10,}", 10, reMany)}, {with(lit("a"), "{10}", 10, 10), lit("b")}, {with(lit("a"), "{9,10}", 9, 10)},
						{with(lit("a"), "{2,255}", 2, 255), lit("b")}, {with(lit("a"), "{255}", 255, 255)}, {with(lit("a"), "*", 0, reMany), with(reElem{text: "."}, "{0,1}", 0, 1)},
						many(lit("a"), k-k/10, lit("b")),
					} {
						reAnchors(el, func(p rePat) {
							if k < 70 || p.left {
								f(p, 0)
								f(p, 1)
							}
						})
					}
				}
				ts = append(ts, Task{Name: fmt.Sprintf("texts of more than %d characters", k), Peeled: true, Par: true, Levels: []int{400}, Run: reTask(f, pre)})
			}
			if deeper() > 0 {
				add("two elements, longer texts", func(f func(rePat, int)) {
					for _, x := range all {
						for _, y := range all {
							reAnchors([]reElem{x, y}, func(p rePat) { f(p, 4) })
						}
					}
				})
			}
			return ts
		},
	})
}
