package main

// ed: scripts of commands on a buffer of symbolic lines, from main.
//
// A script fixes the text of the commands; the lines of the edited file are unknown strings
// without newlines. The whole program is followed: the command reader, the parser, the
// command loop and the piece table. What the run puts on standard output is read against a
// line-by-line model of the editor.

import (
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// edAddr is an address: base ('n' number, '.', '$', '/' search) and offset.
type edAddr struct {
	base byte
	n    int
	re   string
	off  string // as spelled, "" or "+2"
}

func (a *edAddr) String() string {
	if a == nil {
		return ""
	}
	switch a.base {
	case 'n':
		return strconv.Itoa(a.n) + a.off
	case '/':
		return "/" + a.re + "/" + a.off
	}
	return string(a.base) + a.off
}

func num(n int) *edAddr { return &edAddr{base: 'n', n: n} }

type edCmd struct {
	a, b *edAddr
	sep  string // between or instead of addresses
	op   byte   // 0: null command
	text []string
	arg  string // after the command
	raw  string // a command that is not interpreted by the model
}

func (c edCmd) String() string {
	if c.raw != "" {
		return c.raw
	}
	s := c.a.String() + c.sep + c.b.String()
	if c.op != 0 {
		s += string(c.op)
	}
	s += c.arg
	if c.text != nil {
		s += "\n" + strings.Join(c.text, "\n") + "\n."
	}
	return s
}

// edModel is the editor as POSIX describes it.
type edModel struct {
	lines []StrV
	cur   int
	out   []edOut
}

// edOut is a line that is due on standard output; err: a line starting with "?".
type edOut struct {
	line StrV
	err  bool
}

func (m *edModel) clone() *edModel {
	n := *m
	n.lines = append([]StrV(nil), m.lines...)
	n.out = append([]edOut(nil), m.out...)
	return &n
}

func (m *edModel) addr(a *edAddr) (int, bool) {
	n := 0
	switch a.base {
	case 'n':
		n = a.n
	case '.':
		n = m.cur
	case '$':
		n = len(m.lines)
	case '/':
		found := false
		for i := 0; i < len(m.lines) && !found; i++ {
			k := (m.cur+i)%len(m.lines) + 1
			s, ok := m.lines[k-1].Const()
			if !ok {
				panic("search in unknown lines")
			}
			if edReMatch(a.re, s) {
				n, found = k, true
			}
		}
		if !found {
			return 0, false
		}
	}
	switch a.off {
	case "":
	case "+":
		n++
	case "-":
		n--
	default:
		k, err := strconv.Atoi(a.off)
		if err != nil {
			panic(err)
		}
		n += k
	}
	return n, true
}

// the searches used: a literal, with ^ and $ at the ends and '.' for any character
func edReMatch(re, s string) bool {
	head := strings.HasPrefix(re, "^")
	re = strings.TrimPrefix(re, "^")
	tail := strings.HasSuffix(re, "$")
	re = strings.TrimSuffix(re, "$")
	for i := 0; i+len(re) <= len(s); i++ {
		ok := true
		for j := range re {
			if re[j] != '.' && re[j] != s[i+j] {
				ok = false
			}
		}
		if ok && (!head || i == 0) && (!tail || i+len(re) == len(s)) {
			return true
		}
	}
	return false
}

// rng resolves the addresses of a command.
func (m *edModel) rng(c edCmd, d1, d2 *edAddr, first int) (a, b int, ok bool) {
	x, y := c.a, c.b
	switch {
	case c.sep == "" && x == nil:
		x, y = d1, d2
	case c.sep == "":
		y = x
	case c.sep == ",":
		if x == nil && y == nil {
			x, y = num(1), &edAddr{base: '$'}
		} else if x == nil {
			x = num(1)
		} else if y == nil {
			y = x
		}
	case c.sep == ";":
		if x == nil && y == nil {
			x, y = &edAddr{base: '.'}, &edAddr{base: '$'}
		} else if x == nil {
			x = &edAddr{base: '.'}
		} else if y == nil {
			y = x
		}
	}
	if a, ok = m.addr(x); !ok {
		return
	}
	if b, ok = m.addr(y); !ok {
		return
	}
	return a, b, a >= first && a <= b && b <= len(m.lines)
}

func (m *edModel) ins(at int, text []string) {
	var n []StrV
	n = append(n, m.lines[:at]...)
	for _, t := range text {
		n = append(n, SC(t))
	}
	m.lines = append(n, m.lines[at:]...)
	m.cur = at + len(text)
}

// do carries out a command; false: the model does not tell what has to happen.
func (m *edModel) do(c edCmd) {
	dot, last := &edAddr{base: '.'}, &edAddr{base: '$'}
	bad := func() { m.out = append(m.out, edOut{err: true}) }
	show := func(s StrV) { m.out = append(m.out, edOut{line: s}) }
	switch c.op {
	case '?':
		bad()
	case 'p', 'n':
		a, b, ok := m.rng(c, dot, dot, 1)
		if !ok {
			bad()
			return
		}
		for i := a; i <= b; i++ {
			if c.op == 'n' {
				show(SCat(SC(strconv.Itoa(i)+"\t"), m.lines[i-1]))
			} else {
				show(m.lines[i-1])
			}
		}
		m.cur = b
	case 0:
		_, b, ok := m.rng(c, &edAddr{base: '.', off: "+1"}, &edAddr{base: '.', off: "+1"}, 1)
		if !ok {
			bad()
			return
		}
		show(m.lines[b-1])
		m.cur = b
	case 'd':
		a, b, ok := m.rng(c, dot, dot, 1)
		if !ok {
			bad()
			return
		}
		m.lines = append(append([]StrV(nil), m.lines[:a-1]...), m.lines[b:]...)
		m.cur = a
		if m.cur > len(m.lines) {
			m.cur = len(m.lines)
		}
	case 'c':
		a, b, ok := m.rng(c, dot, dot, 1)
		if !ok {
			bad()
			return
		}
		m.lines = append(append([]StrV(nil), m.lines[:a-1]...), m.lines[b:]...)
		m.ins(a-1, c.text)
	case 'a':
		_, b, ok := m.rng(c, dot, dot, 0)
		if !ok {
			bad()
			return
		}
		m.ins(b, c.text)
	case 'i':
		_, b, ok := m.rng(c, dot, dot, 0)
		if !ok {
			bad()
			return
		}
		if b == 0 {
			b = 1
		}
		m.ins(b-1, c.text)
	case '=':
		_, b, ok := m.rng(c, last, last, 0)
		if !ok {
			bad()
			return
		}
		show(SC(strconv.Itoa(b)))
	}
}

// outLines splits what was written into lines.
func outLines(s StrV) (lines []StrV) {
	var cur StrV
	for _, p := range s.P {
		if p.V {
			cur = SCat(cur, StrV{[]SPart{p}})
			continue
		}
		parts := strings.Split(p.C, "\n")
		for _, q := range parts[:len(parts)-1] {
			lines = append(lines, SCat(cur, SC(q)))
			cur = StrV{}
		}
		cur = SCat(cur, SC(parts[len(parts)-1]))
	}
	if len(cur.P) > 0 {
		lines = append(lines, cur)
	}
	return lines
}

// answers reads the lines of standard output against those that are due. Empty lines may come
// in between; a line with "?" may be followed by an explanation.
func (e *Engine) answers(st *State, got []StrV, want []edOut) (string, bool) {
	type key struct{ i, j, in int }
	memo := map[key]bool{}
	bestI, bestJ := 0, 0
	var rec func(i, j int, in int) bool
	rec = func(i, j, in int) bool {
		k := key{i, j, in}
		if r, ok := memo[k]; ok {
			return r
		}
		memo[k] = false
		if j > bestJ || j == bestJ && i > bestI {
			bestI, bestJ = i, j
		}
		r := false
		if i == len(got) {
			r = j == len(want)
		} else {
			c, isC := got[i].Const()
			switch {
			case len(got[i].P) == 0 && rec(i+1, j, in):
				r = true
			case in == 1 && isC && !strings.HasPrefix(c, "?") && rec(i+1, j, 1):
				r = true
			case j < len(want) && want[j].err:
				r = len(got[i].P) > 0 && !got[i].P[0].V && strings.HasPrefix(got[i].P[0].C, "?") && rec(i+1, j+1, 1)
			case j < len(want):
				r = e.strKnown(st, got[i], want[j].line) == 1 && rec(i+1, j+1, 0)
			}
		}
		memo[k] = r
		return r
	}
	if rec(0, 0, 0) {
		return "", true
	}
	g, w := "nothing more", "nothing more"
	if bestI < len(got) {
		g = e.valString(got[bestI])
	}
	if bestJ < len(want) {
		if want[bestJ].err {
			w = "an answer with ?"
		} else {
			w = e.valString(want[bestJ].line)
		}
	}
	return fmt.Sprintf("output line %d is %s where %s is due", bestI+1, g, w), false
}

const edFile = "FILE"

// edRun follows ed on a script. atEnd judges the states in which it ends.
func (e *Engine) edRun(lines []StrV, final bool, script string, prep func(*State), atEnd func(*State, ssa.Instruction)) {
	var text StrV
	for i, l := range lines {
		text = SCat(text, l)
		if i < len(lines)-1 || final {
			text = SCat(text, SC("\n"))
		}
	}
	e.goSync = true
	if e.oneLine == nil {
		e.oneLine = map[Atom]bool{}
	}
	var other []Atom
	for i := 0; i < 2; i++ {
		a := e.fnAtom("other", 's', K(int64(i)))
		e.oneLine[a] = true
		other = append(other, a)
	}
	e.termHook = func(fn string, args []Val) Val {
		if fn == "content" && len(args) == 1 {
			if k, ok := args[0].(StrV).Const(); ok {
				if k == edFile {
					return text
				}
				return SCat(SA(other[0]), SC("\n"), SA(other[1]), SC("\n"))
			}
		}
		return nil
	}
	e.args = []StrV{SC("ed")}
	if lines != nil {
		e.args = append(e.args, SC(edFile))
	}
	in := SC(script)
	e.stdinText = &in
	e.onWrite = func(st *State, w WriteEv) []*State {
		if w.Kind == "stdout" {
			if e.inGo > 0 && !e.goWrites {
				panic(giveUp{"a goroutine writes on standard output"})
			}
			old, _ := st.Ghost["out"].(StrV)
			st.Ghost["out"] = SCat(old, w.Data)
		}
		if w.Kind == "out" && e.edWriteHook != nil {
			return e.edWriteHook(st, w)
		}
		return []*State{st}
	}
	e.onExit = func(st *State, code Val, at ssa.Instruction) { atEnd(st, at) }
	runMain(e, "cmd/ed", func(st *State) {
		for _, l := range append([]StrV{SA(other[0]), SA(other[1])}, lines...) {
			for _, p := range l.P {
				if p.V {
					// no newline in a line
					if !e.addFact(st, e.boolTerm("hasdelim", StrV{[]SPart{p}}, K(0), K('\n')), false) {
						panic(giveUp{"contradictory input"})
					}
				}
			}
		}
		if n := len(lines); n > 0 && !final {
			e.addGe(st, e.strLen(lines[n-1]).AddK(-1)) // a line without newline is not empty
		}
		st.note("file %s, script %q", e.valString(text), script)
		if prep != nil {
			prep(st)
		}
	})
}

func (e *Engine) addFact(st *State, b *BExpr, v bool) bool {
	ss := e.assume(st, b, v)
	if len(ss) != 1 {
		return false
	}
	if ss[0] != st {
		*st = *ss[0]
	}
	return true
}

func symLines(e *Engine, n int) []StrV {
	out := []StrV{}
	if e.oneLine == nil {
		e.oneLine = map[Atom]bool{}
	}
	for i := 1; i <= n; i++ {
		a := e.fnAtom("line", 's', K(int64(i)))
		e.oneLine[a] = true
		out = append(out, SA(a))
	}
	return out
}

// edScript follows one script and reads its output.
func (e *Engine) edScript(lines []StrV, final bool, cmds []edCmd) {
	m := &edModel{lines: lines, cur: len(lines)}
	var all []string
	for _, c := range cmds {
		m.do(c)
		all = append(all, c.String())
	}
	script := strings.Join(all, "\n") + "\n"
	ended := false
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		if strings.HasSuffix(ev, "fail") {
			return nil // failures are the business of C18 and C19
		}
		return []*State{st}
	}
	e.edRun(lines, final, script, nil, func(st *State, at ssa.Instruction) {
		ended = true
		out, _ := st.Ghost["out"].(StrV)
		e.nObl++
		if why, ok := e.answers(st, outLines(e.normStr(st, out)), m.out); !ok {
			e.alarm(st, "answer", at, "script %q: %s", script, why)
		}
	})
	if !ended {
		e.sites["scripts without an end"]++
	}
	e.sites["scripts"]++
}

var edText = []string{"new é", ".x"}

// edWatch shows the current line's number and the buffer.
var edWatch = []edCmd{{a: &edAddr{base: '.'}, op: '='}, {sep: ",", op: 'p'}}

func edText1(op byte) []string {
	switch op {
	case 'a', 'i', 'c':
		return edText
	}
	return nil
}

// edAddrs are the address parts of a command on n lines.
func edAddrs(n int, op byte) (out []edCmd) {
	out = append(out, edCmd{})
	for _, off := range []string{"", "+", "-", "+2", "-1"} {
		out = append(out, edCmd{a: &edAddr{base: '.', off: off}}, edCmd{a: &edAddr{base: '$', off: off}})
	}
	for i := 0; i <= n+1; i++ {
		if i == 0 && (op == 'i' || op == 'c') {
			continue // a matter of the edition of POSIX
		}
		out = append(out, edCmd{a: num(i)})
		out = append(out, edCmd{a: &edAddr{base: 'n', n: i, off: "+1"}})
	}
	if op == 'a' || op == 'i' || op == '=' || op == 0 {
		return out
	}
	for _, s := range []string{",", ";"} {
		out = append(out, edCmd{sep: s})
		for i := 1; i <= n+1; i++ {
			out = append(out, edCmd{a: num(i), sep: s}, edCmd{b: num(i), sep: s})
			for j := 1; j <= n+1; j++ {
				out = append(out, edCmd{a: num(i), b: num(j), sep: s})
			}
		}
	}
	out = append(out, edCmd{a: &edAddr{base: '.', off: "-"}, sep: ",", b: &edAddr{base: '$', off: "-1"}})
	return out
}

func edSingle(op byte, ns []int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		for _, n := range ns {
			for _, final := range []bool{true, false} {
				if n == 0 && final {
					continue
				}
				for cur := 0; cur <= n; cur++ {
					for _, c := range edAddrs(n, op) {
						c.op, c.text = op, edText1(op)
						var cmds []edCmd
						if cur > 0 {
							if cur == n {
								continue
							}
							cmds = append(cmds, edCmd{a: num(cur), op: 'p'})
						}
						cmds = append(cmds, c)
						cmds = append(cmds, edWatch...)
						e.edScript(symLines(e, n), final, cmds)
					}
				}
			}
		}
	}
}

// edPairs: two edits in a row, on every place of a small buffer.
func edEdits(n int) (out []edCmd) {
	for _, op := range []byte("aicd") {
		for i := 0; i <= n; i++ {
			if i == 0 && op != 'a' {
				out = append(out, edCmd{op: op, text: edText1(op)})
				continue
			}
			out = append(out, edCmd{a: num(i), op: op, text: edText1(op)})
			if op == 'c' || op == 'd' {
				for j := i + 1; j <= n; j++ {
					out = append(out, edCmd{a: num(i), sep: ",", b: num(j), op: op, text: edText1(op)})
				}
			}
		}
	}
	return out
}

var edWatchN = []edCmd{{a: &edAddr{base: '.'}, op: '='}, {sep: ",", op: 'n'}}

func edHistory(first byte, n, depth int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		edits := edEdits(n)
		var rec func(cmds []edCmd)
		rec = func(cmds []edCmd) {
			if len(cmds) == depth {
				for _, final := range []bool{true, false} {
					if n == 0 && final {
						continue
					}
					e.edScript(symLines(e, n), final, append(append([]edCmd(nil), cmds...), edWatchN...))
				}
				return
			}
			for _, c := range edits {
				if len(cmds) == 0 && c.op != first {
					continue
				}
				if len(cmds) > 0 && c.text != nil {
					c.text = []string{"then " + strconv.Itoa(len(cmds))}
				}
				rec(append(append([]edCmd(nil), cmds...), c))
			}
		}
		rec(nil)
	}
}

// edSearches: addresses by regular expression, on known lines.
func edSearches(e *Engine) {
	e.maxSteps *= 100
	lines := []StrV{SC("ab"), SC("xb"), SC("ac/d"), SC("b")}
	var res []*edAddr
	for _, re := range []string{"b", "^b$", "^a.", "zz", "c"} {
		for _, off := range []string{"", "+1", "-"} {
			res = append(res, &edAddr{base: '/', re: re, off: off})
		}
	}
	for cur := 1; cur <= 4; cur++ {
		for _, op := range []byte("pda=") {
			for _, a := range res {
				cmds := []edCmd{{a: num(cur), op: 'p'}, {a: a, op: op, text: edText1(op)}}
				e.edScript(lines, true, append(cmds, edWatch...))
			}
		}
		for _, a := range res[:6] {
			for _, b := range res[:6] {
				cmds := []edCmd{{a: num(cur), op: 'p'}, {a: a, sep: ",", b: b, op: 'n'}}
				e.edScript(lines, true, append(cmds, edWatch...))
			}
		}
	}
}

// edTexts: what may be typed as text.
func edTexts(e *Engine) {
	e.maxSteps *= 100
	texts := [][]string{{""}, {" "}, {".."}, {". "}, {" ."}, {"a"}, {"1p"}, {"é"}, {"日本", "é", "x"}, {"", ""}, {"", "x"}, {"x", ""},
		{"\t"}, {"\\"}, {"%d %s"}, {"q"}, {".a", ".b"}, {"a", "b", "c", "d", "e"}, {"?"}, {"  lead"}, {"trail  "}}
	for _, t := range texts {
		for _, op := range []byte("aic") {
			for _, n := range []int{0, 2} {
				if n == 0 && op == 'c' {
					continue
				}
				c := edCmd{op: op, text: t}
				if n > 0 {
					c.a = num(1)
				}
				e.edScript(symLines(e, n), true, append([]edCmd{c}, edWatchN...))
			}
		}
	}
	// white space around addresses and commands
	for _, raw := range []string{" 1p", "1 p", "1 , 2 p", "1, 2p", "1 ,2p", "\t2p", " ,p", ", p", "1 d", "1,2 d", "2 n", "1\t,\t2n"} {
		e.edSpaced(raw)
	}
}

// edSpaced: white space in a command does not matter.
func (e *Engine) edSpaced(raw string) {
	tight := strings.NewReplacer(" ", "", "\t", "").Replace(raw)
	c := edCmd{op: tight[len(tight)-1]}
	rest := tight[:len(tight)-1]
	if i := strings.IndexByte(rest, ','); i >= 0 {
		c.sep = ","
		if i > 0 {
			c.a = num(int(rest[0] - '0'))
		}
		if i+1 < len(rest) {
			c.b = num(int(rest[i+1] - '0'))
		}
	} else {
		c.a = num(int(rest[0] - '0'))
	}
	c.raw = raw
	e.edScript(symLines(e, 3), true, append([]edCmd{c}, edWatch...))
}

func init() {
	register(&Prop{
		ID:    "C20",
		Pats:  []string{"./cmd/ed"},
		Rule:  "cmd/ed is followed from main on scripts of commands over a file of symbolic lines (no newline in a line, nothing else known; with and without a final newline): every command p n d a i c = and the null command with every form and pair of addresses in and around buffers of up to three lines and every current line, every pair of edits of two lines and triple of edits of one line, searches over known lines, e with a file that can and one that cannot be read, and a list of texts and spacings. On every path the lines on standard output must be those a line-by-line model of the POSIX editor gives, including what \".=\" and \",p\" show afterwards, so that content, order and the current line are judged.",
		Trust: []string{"the models of bufio.Scanner, regexp, strings, fmt and io on known text are Go's own implementations; the goroutine that reads commands is run to its end where it starts (what it sends waits in the channel)", "empty lines in the output and the explanation after a ? are not judged"},
		Tasks: func(p *Program) []Task {
			var ts []Task
			add := func(name string, f func(e *Engine)) {
				ts = append(ts, Task{Name: name, Pkg: "cmd/ed", Peeled: true, Par: true, Levels: []int{400}, Run: f})
			}
			ns := []int{0, 1, 2, 3}
			if deeper() > 0 {
				ns = append(ns, 4)
			}
			for _, op := range []byte("pndaic=\x00") {
				n := "command " + string(op)
				if op == 0 {
					n = "command null"
				}
				add(n, edSingle(op, ns))
			}
			for _, op := range []byte("aicd") {
				add("two edits, first "+string(op), edHistory(op, 2, 2))
				add("three edits of a line, first "+string(op), edHistory(op, 1, 3))
				add("two edits of an empty buffer, first "+string(op), edHistory(op, 0, 2))
				if deeper() > 0 {
					add("three edits, first "+string(op), edHistory(op, 2, 3))
				}
			}
			add("searches", edSearches)
			add("reading a file", edReads)
			add("texts and spaces", edTexts)
			return ts
		},
	})
}
