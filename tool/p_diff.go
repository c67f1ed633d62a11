package main

// diff: the output is read back.
//
// A run without a failed open or read ends with the text T on standard output. The lines of both
// inputs are those which the facts on newlines delimit. T is read as hunks of the normal format;
// each hunk has to name ranges of lines of both inputs, in order, show exactly those lines, and
// what lies between the hunks has to be the same lines in both inputs, so that T turns the first
// input into the second.

import (
	"fmt"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// linesOf gives the lines of a text as far as the facts tell; false: they do not.
func (e *Engine) linesOf(st *State, c StrV) ([]StrV, bool) {
	var out []StrV
	nl := K('\n')
	n := e.strLen(c)
	p := K(0)
	for i := 0; i < 12; i++ {
		p = e.n(st, p)
		switch e.evalB(st, e.boolTerm("hasdelim", c, p, nl)) {
		case 1:
			nx := LA(e.fnAtom("next", 'i', c, p, nl))
			out = append(out, e.normStr(st, e.subStr(c, p, e.n(st, nx))))
			p = nx.AddK(1)
		case 0:
			if e.entailsEq(st, e.n(st, n.Sub(p))) {
				return out, true
			}
			if e.entails(st, e.n(st, n.Sub(p).AddK(-1))) {
				return append(out, e.normStr(st, e.subStr(c, p, n))), true
			}
			return nil, false
		default:
			if e.entailsEq(st, e.n(st, n.Sub(p))) {
				return out, true
			}
			return nil, false
		}
	}
	return nil, false
}

// hunk is one change of the normal format: kind a, c or d, ranges from 1, both ends included.
type hunk struct {
	kind           byte
	o1, o2, n1, n2 int
}

func parseRange(s string) (a, b int, two, ok bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == ',' {
			a, err1 := strconv.Atoi(s[:i])
			b, err2 := strconv.Atoi(s[i+1:])
			return a, b, true, err1 == nil && err2 == nil
		}
	}
	a, err := strconv.Atoi(s)
	return a, a, false, err == nil
}

func parseHunk(s string) (h hunk, why string) {
	k := -1
	for i := 0; i < len(s); i++ {
		if s[i] == 'a' || s[i] == 'c' || s[i] == 'd' {
			k = i
			break
		}
	}
	if k < 0 {
		return h, "is no hunk header"
	}
	h.kind = s[k]
	var ok1, ok2, two1, two2 bool
	h.o1, h.o2, two1, ok1 = parseRange(s[:k])
	h.n1, h.n2, two2, ok2 = parseRange(s[k+1:])
	if !ok1 || !ok2 {
		return h, "is no hunk header"
	}
	if two1 && h.o2 <= h.o1 || two2 && h.n2 <= h.n1 || h.kind == 'a' && two1 || h.kind == 'd' && two2 {
		return h, "has a range that is none"
	}
	return h, ""
}

// readHunks reads out as a normal diff of a and b.
func (e *Engine) readHunks(st *State, out StrV, a, b []StrV) (hunks int, why string) {
	i, j := 0, 0 // lines accounted for
	same := func(toI, toJ int) string {
		if toI-i != toJ-j || toI < i || toI > len(a) || toJ > len(b) {
			return "lines " + strconv.Itoa(i+1) + " to " + strconv.Itoa(toI) + " of the first file are left against lines " + strconv.Itoa(j+1) + " to " + strconv.Itoa(toJ) + " of the second"
		}
		for ; i < toI; i, j = i+1, j+1 {
			if e.strKnown(st, a[i], b[j]) != 1 {
				return "line " + strconv.Itoa(i+1) + " of the first file and line " + strconv.Itoa(j+1) + " of the second are left out as equal"
			}
		}
		return ""
	}
	for len(out.P) > 0 {
		if out.P[0].V {
			return hunks, "a header is due, but " + e.valString(out) + " follows"
		}
		c := out.P[0].C
		nl := -1
		for k := range c {
			if c[k] == '\n' {
				nl = k
				break
			}
		}
		if nl < 0 {
			return hunks, "a header is due, but " + e.valString(out) + " follows"
		}
		hd := c[:nl]
		h, w := parseHunk(hd)
		if w != "" {
			return hunks, strconv.Quote(hd) + " " + w
		}
		rest := append([]SPart{{C: c[nl+1:]}}, out.P[1:]...)
		out = SCat(StrV{rest})
		hunks++
		// what lies before the hunk
		toI, toJ := h.o1-1, h.n1-1
		if h.kind == 'a' {
			toI = h.o1
		}
		if h.kind == 'd' {
			toJ = h.n1
		}
		if w := same(toI, toJ); w != "" {
			return hunks, "before " + hd + " " + w
		}
		show := func(mark string, ls []StrV, from, to int) string {
			for k := from; k <= to; k++ {
				if k < 1 || k > len(ls) {
					return hd + " names line " + strconv.Itoa(k) + " of " + strconv.Itoa(len(ls))
				}
				l := SCat(SC(mark), ls[k-1], SC("\n"))
				r, ok := e.cutPrefix(st, out, l)
				if !ok {
					return hd + ": " + e.valString(l) + " is due, but " + e.valString(out) + " follows"
				}
				out = SCat(r)
			}
			return ""
		}
		if h.kind != 'a' {
			if w := show("< ", a, h.o1, h.o2); w != "" {
				return hunks, w
			}
			i = h.o2
		}
		if h.kind == 'c' {
			r, ok := e.cutPrefix(st, out, SC("---\n"))
			if !ok {
				return hunks, hd + ": the line between removed and added lines is missing"
			}
			out = SCat(r)
		}
		if h.kind != 'd' {
			if w := show("> ", b, h.n1, h.n2); w != "" {
				return hunks, w
			}
			j = h.n2
		}
	}
	if w := same(len(a), len(b)); w != "" {
		return hunks, "after the last hunk " + w
	}
	return hunks, ""
}

// diffTask judges the output (text), the status of runs without options, or the status for wrong
// arguments (args).
func diffTask(text, status, args bool) func(e *Engine) {
	return func(e *Engine) {
		if !args {
			e.maxSteps = 1 << 30
		}
		e.wantOut = true
		valued := map[string]bool{"-C": true, "-U": true}
		opts := []string{"-b", "-c", "-C", "-e", "-f", "-r", "-u", "-U"}
		a := &argScan{e: e, opts: opts, valOpts: valued}
		if !args {
			a.opts, a.valOpts = nil, nil
		}
		a.onOpt = func(st *State, o string) { st.Ghost["opt"] = BoolV{bTrue} }
		a.onVal = func(st *State, o string, v StrV) {}
		e.argLoad = func(st *State, idx Lin) []SV {
			rs := a.load(st, idx)
			var out []SV
			for _, r := range rs {
				if k := e.n(r.St, r.St.Ghost["$argrank"].(Lin)); k.IsK() && k.C > 0 {
					// a name that is no option and not empty
					v := e.normStr(r.St, a.opd(k.AddK(-1)))
					if !e.addStrNe(r.St, v, StrV{}) {
						continue
					}
					for _, o := range opts {
						e.addStrNe(r.St, v, SC(o))
					}
				}
				out = append(out, r)
			}
			return out
		}
		e.onPanic = func(*State, string, string, ssa.Instruction) bool { return args } // (the arguments: C03)
		e.onEvent = func(st *State, ev string, _ []Val, at ssa.Instruction) []*State {
			if args && (isRead(ev) || ev == "open" || isFail(ev)) && !isBoolT(st.Ghost["fail"]) {
				if fin, ok := a.fin(st); !ok || fin && e.entailsEq(st, e.n(st, a.nops().AddK(-2))) {
					return nil
				}
			}
			if isFail(ev) {
				if !status {
					return nil
				}
				st.Ghost["fail"] = BoolV{bTrue}
			}
			return []*State{st}
		}
		e.onWrite = func(st *State, w WriteEv) []*State {
			switch w.Kind {
			case "stderr":
				st.Ghost["diag"] = BoolV{bTrue}
			case "stdout":
				st.Ghost["out"] = e.normStr(st, SCat(st.Ghost["out"].(StrV), w.Data))
			}
			return []*State{st}
		}
		e.onExit = func(st *State, code Val, at ssa.Instruction) {
			e.nObl++
			cl := e.n(st, e.asLin(code))
			out := e.normStr(st, st.Ghost["out"].(StrV))
			fin, ok := a.fin(st)
			if !ok {
				return
			}
			nops := e.n(st, a.nops())
			bad := isBoolT(st.Ghost["fail"]) || fin && e.entailsNe(st, nops.AddK(-2))
			if !bad {
				// a third operand may be refused before the arguments behind it are seen
				bad = e.entails(st, e.n(st, st.Ghost["$argrank"].(Lin).AddK(-3)))
			}
			if bad {
				if !status {
					return
				}
				if !e.proveEq(st, cl.AddK(-2)) {
					e.alarm(st, "status", at, "exits with %s although the arguments are wrong or a file could not be read; it must be 2", e.linString(cl))
				} else if !isBoolT(st.Ghost["diag"]) {
					e.alarm(st, "silent", at, "exits with 2 without a message on standard error")
				}
				return
			}
			if args && e.proveEq(st, cl.AddK(-2)) {
				return // an option's number is none, or missing
			}
			if args && isBoolT(st.Ghost["opt"]) {
				return
			}
			if !fin {
				if status {
					e.alarm(st, "args", at, "exits before looking at every argument")
				}
				return
			}
			var ls [2][]StrV
			for k := range ls {
				c := e.normStr(st, e.strTerm("content", e.normStr(st, a.opd(K(int64(k))))))
				l, ok := e.linesOf(st, c)
				if !ok {
					if status {
						st.Lossy = "lines"
						e.alarm(st, "unread", at, "exits with %s although the lines of operand %d are not known", e.linString(cl), k)
					}
					return
				}
				ls[k] = l
			}
			hunks, why := e.readHunks(st, out, ls[0], ls[1])
			e.sites[fmt.Sprintf("files of %d and %d lines, %d hunks", len(ls[0]), len(ls[1]), hunks)]++
			if why != "" {
				if text {
					e.dataAlarm(st, out, "output", at, "the output %s does not turn the first file (%d lines) into the second (%d lines): %s", e.valString(out), len(ls[0]), len(ls[1]), why)
				}
				if len(out.P) > 0 || !status {
					return
				}
			}
			if !status {
				return
			}
			switch {
			case hunks == 0 && why != "":
				e.alarm(st, "status", at, "prints nothing although the files differ: %s", why)
			case hunks == 0 && !e.proveEq(st, cl):
				e.alarm(st, "status", at, "exits with %s for files with the same lines", e.linString(cl))
			case hunks > 0 && !e.proveEq(st, cl.AddK(-1)):
				e.alarm(st, "status", at, "exits with %s after printing hunks", e.linString(cl))
			case hunks > 0 && len(ls[0]) == len(ls[1]):
				for k := range ls[0] {
					if e.strKnown(st, ls[0][k], ls[1][k]) != 1 {
						return
					}
				}
				e.alarm(st, "status", at, "prints %s and exits with 1 for files with the same lines", e.valString(out))
			}
		}
		runMain(e, "cmd/diff", func(st *State) {
			a.prep(st)
			st.Ghost["out"] = StrV{}
			st.Ghost["fail"], st.Ghost["diag"], st.Ghost["opt"] = BoolV{bFalse}, BoolV{bFalse}, BoolV{bFalse}
			if !args {
				e.addEq(st, e.argc().AddK(-3))
			}
		})
	}
}

func init() {
	rule := "The text that every followed path of diff writes is read back as hunks of the normal format against the lines of both inputs. "
	for _, id := range []string{"C07", "C08"} {
		register(&Prop{ID: id, Pats: []string{"./cmd/diff"}, Rule: rule,
			Tasks: func(p *Program) []Task {
				return []Task{{Name: "output", Run: diffTask(true, false, false), Peeled: true, PeelCap: 3000}}
			}})
	}
	register(&Prop{ID: "C09", Pats: []string{"./cmd/diff"}, Rule: rule,
		Tasks: func(p *Program) []Task {
			return []Task{{Name: "arguments", Run: diffTask(false, true, true), Strict: true}, {Name: "status", Run: diffTask(false, true, false), Peeled: true, PeelCap: 3000}}
		}})
}
