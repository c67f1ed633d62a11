package main

// ed: writing the buffer to a file (C18), and odd input (C19).

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// edWrite is a script with one w command.
type edWrite struct {
	before []edCmd
	w      edCmd
	target string
	noFile bool // ed is started without a file
}

// flag reads a boolean ghost cell.
func flagOn(st *State, k string) bool { return isBoolT(st.Ghost[k]) }

func setFlag(st *State, k string, v bool) { st.Ghost[k] = BoolV{bConst(v)} }

func (e *Engine) isName(st *State, v Val, name string) bool {
	s, ok := v.(StrV)
	if !ok {
		return false
	}
	k, ok := e.normStr(st, s).Const()
	return ok && k == name
}

func (e *Engine) sameName(st *State, v Val, key string) bool {
	s, ok := v.(StrV)
	t, ok2 := st.Ghost[key].(StrV)
	return ok && ok2 && e.strKnown(st, e.normStr(st, s), e.normStr(st, t)) == 1
}

// edWriteRun follows a script that writes, with every step failing or not.
func (e *Engine) edWriteRun(lines []StrV, final bool, w edWrite) {
	m := &edModel{lines: lines, cur: len(lines)}
	var all []string
	for _, c := range w.before {
		m.do(c)
		all = append(all, c.String())
	}
	all = append(all, w.w.String())
	// what has to be written
	a, b, valid := 1, len(m.lines), true
	if w.w.a != nil || w.w.sep != "" {
		a, b, valid = m.rng(w.w, nil, nil, 1)
	}
	var want StrV
	if valid {
		for _, l := range m.lines[a-1 : b] {
			want = SCat(want, l, SC("\n"))
		}
	}
	if w.target == "" {
		valid = false
	}
	pre := len(m.out)
	for _, c := range edWatch {
		m.do(c)
		all = append(all, c.String())
	}
	good := m.out
	bad := append(append(append([]edOut(nil), m.out[:pre]...), edOut{err: true}), m.out[pre:]...)
	script := strings.Join(all, "\n") + "\n"

	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		switch ev {
		case "openfail", "readfail":
			return nil
		case "statfail", "lstatfail", "fchmodfail", "chmodfail":
			setFlag(st, "unseen", true)
		case "createfail", "writefail", "syncfail", "closefail", "renamefail", "flushfail", "truncatefail":
			setFlag(st, "failed", true)
			if ev == "writefail" || ev == "flushfail" || ev == "syncfail" || ev == "closefail" {
				setFlag(st, "t.bad", true)
			}
		case "createtemp":
			if _, ok := st.Ghost["t.name"].(StrV); ok {
				e.alarm(st, "leftover", at, "script %q: another temporary file is made while one is left behind", script)
			}
			st.Ghost["t.name"], st.Ghost["t.data"] = args[0], StrV{}
			setFlag(st, "t.bad", false)
			setFlag(st, "t.synced", false)
			delete(st.Ghost, "t.mode")
			e.nObl++
			if !e.isName(st, args[1], dirOf(w.target)) {
				e.alarm(st, "directory", at, "script %q: the new contents are put together in %s, not in the directory of %s", script, e.valString(args[1]), w.target)
			}
		case "create":
			e.nObl++
			fl, _ := args[1].(Lin)
			if e.isName(st, args[0], w.target) {
				e.alarm(st, "in-place", at, "script %q: %s itself is opened for writing", script, w.target)
				return nil
			}
			if !fl.IsK() || fl.C&0o300 != 0o300 {
				e.alarm(st, "shared", at, "script %q: %s is opened for writing although it may be another's file", script, e.valString(args[0]))
				return nil
			}
			if _, ok := st.Ghost["t.name"].(StrV); ok {
				e.alarm(st, "leftover", at, "script %q: another temporary file is made while one is left behind", script)
			}
			st.Ghost["t.name"], st.Ghost["t.data"] = args[0], StrV{}
			setFlag(st, "t.bad", false)
			setFlag(st, "t.synced", false)
			delete(st.Ghost, "t.mode")
		case "fchmod", "chmod":
			if len(args) == 2 && e.sameName(st, args[0], "t.name") {
				st.Ghost["t.mode"] = args[1]
			}
		case "sync":
			if e.sameName(st, args[0], "t.name") {
				setFlag(st, "t.synced", !e.heldBack(st, args[0].(StrV)))
			}
		case "truncate", "removeall", "symlink", "link":
			if len(args) > 0 && e.isName(st, args[len(args)-1], w.target) {
				e.alarm(st, "in-place", at, "script %q: %s is changed by %s", script, w.target, ev)
				return nil
			}
		case "remove":
			e.nObl++
			if e.sameName(st, args[0], "t.name") {
				delete(st.Ghost, "t.name")
			} else if e.isName(st, args[0], w.target) {
				e.alarm(st, "in-place", at, "script %q: %s is removed", script, w.target)
				return nil
			}
		case "removefail":
			// more than an attempt cannot be asked for
			if e.sameName(st, args[0], "t.name") {
				delete(st.Ghost, "t.name")
			}
		case "rename":
			e.nObl++
			from := e.sameName(st, args[0], "t.name")
			to := e.isName(st, args[1], w.target)
			switch {
			case e.isName(st, args[0], w.target):
				e.alarm(st, "in-place", at, "script %q: %s is moved away", script, w.target)
				return nil
			case to && !from:
				e.alarm(st, "source", at, "script %q: %s is replaced by %s", script, w.target, e.valString(args[0]))
				return nil
			case !to && from:
				e.alarm(st, "target", at, "script %q: the new contents go to %s", script, e.valString(args[1]))
				return nil
			case !to:
				return []*State{st}
			}
			data := st.Ghost["t.data"].(StrV)
			if flagOn(st, "t.bad") {
				e.alarm(st, "torn", at, "script %q: %s is replaced although writing the new contents failed", script, w.target)
				return nil
			}
			if !e.sameBuffer(st, data, want, final) {
				e.alarm(st, "data", at, "script %q: %s is replaced by %s where %s is due", script, w.target, e.valString(e.normStr(st, data)), e.valString(e.normStr(st, want)))
				return nil
			}
			if !flagOn(st, "t.synced") {
				e.alarm(st, "unsynced", at, "script %q: %s is replaced before the new contents are flushed to disk", script, w.target)
				return nil
			}
			if !flagOn(st, "unseen") && !e.keepsMode(st, w.target) {
				e.alarm(st, "mode", at, "script %q: %s is replaced by a file with other permissions (%s)", script, w.target, e.valString(st.Ghost["t.mode"]))
				return nil
			}
			setFlag(st, "replaced", true)
			delete(st.Ghost, "t.name")
		}
		return []*State{st}
	}
	lns := lines
	if w.noFile {
		lns = nil
	}
	e.edWriteHook = func(st *State, ev WriteEv) []*State {
		dm, _, _ := e.modelAt(st, ev.Dst)
		if e.sameName(st, fstr(dm, "name"), "t.name") {
			st.Ghost["t.data"] = SCat(st.Ghost["t.data"].(StrV), ev.Data)
			setFlag(st, "t.synced", false)
		}
		return []*State{st}
	}
	e.edRun(lns, final, script, nil, func(st *State, at ssa.Instruction) {
		out, _ := st.Ghost["out"].(StrV)
		got := outLines(e.normStr(st, out))
		e.nObl += 2
		_, isBad := e.answers(st, got, bad)
		why, isGood := e.answers(st, got, good)
		replaced := flagOn(st, "replaced")
		switch {
		case !isBad && !isGood:
			e.alarm(st, "answer", at, "script %q: %s", script, why)
		case isBad && replaced && !isGood:
			e.alarm(st, "answer", at, "script %q: a failure is reported although %s was replaced", script, w.target)
		case !isBad && !valid:
			e.alarm(st, "answer", at, "script %q: no failure is reported for a w that cannot be carried out", script)
		case !isBad && flagOn(st, "failed"):
			e.alarm(st, "unreported", at, "script %q: a step failed and no failure is reported", script)
		case !isBad && !replaced:
			e.alarm(st, "unwritten", at, "script %q: success is reported but %s was not replaced", script, w.target)
		case isBad && !isGood && valid && !flagOn(st, "failed") && !flagOn(st, "unseen"):
			e.alarm(st, "answer", at, "script %q: a failure is reported although no step failed", script)
		}
		if _, left := st.Ghost["t.name"].(StrV); left {
			e.alarm(st, "leftover", at, "script %q: the temporary file is left behind", script)
		}
	})
	e.sites["scripts"]++
}

// keepsMode: the new file has been given the permission bits of the target, if there is one.
func (e *Engine) keepsMode(st *State, target string) bool {
	v, has := st.Ghost["t.mode"]
	for _, k := range []string{"stat", "lstat"} {
		switch e.evalB(st, e.boolTerm(k+"ok", SC(target))) {
		case 0:
			return true // there was none
		case 1:
			if !has {
				continue
			}
			got, want := e.toBV(e.nv(st, v), 32), e.toBV(LA(e.fnAtom("mode:"+k, 'i', SC(target))), 32)
			if fmt.Sprint(got.Bits[:9]) == fmt.Sprint(want.Bits[:9]) {
				return true
			}
		}
	}
	return false
}

// heldBack: a buffered writer still holds data for the file.
func (e *Engine) heldBack(st *State, name StrV) bool {
	for _, o := range st.Heap {
		m, ok := o.V.(ModelV)
		if !ok || m.Kind != "bufio.Writer" || !isBoolT(m.F["dirty"]) {
			continue
		}
		if in, _, ok := e.modelAt(st, m.F["dst"]); ok && e.strKnown(st, e.normStr(st, fstr(in, "name")), e.normStr(st, name)) == 1 {
			return true
		}
	}
	return false
}

// sameBuffer: the lines, the last newline being optional where the file had none.
func (e *Engine) sameBuffer(st *State, got, want StrV, final bool) bool {
	got, want = e.normStr(st, got), e.normStr(st, want)
	if e.strKnown(st, got, want) == 1 {
		return true
	}
	return !final && e.strKnown(st, SCat(got, SC("\n")), want) == 1
}

func edWrites(e *Engine) {
	e.maxSteps *= 100
	w := func(a, sep, b, arg string) edCmd {
		c := edCmd{op: 'w', sep: sep}
		if arg != "" {
			c.arg = " " + arg
		}
		mk := func(s string) *edAddr {
			if s == "" {
				return nil
			}
			if s == "$" || s == "." {
				return &edAddr{base: s[0]}
			}
			return num(int(s[0] - '0'))
		}
		c.a, c.b = mk(a), mk(b)
		return c
	}
	var ws []edWrite
	for _, t := range []string{"", "OUT", "DIR/OUT", "FILE"} {
		target := t
		if t == "" {
			target = edFile
		}
		ws = append(ws, edWrite{w: w("", "", "", t), target: target})
		ws = append(ws, edWrite{w: w("1", ",", "2", t), target: target})
	}
	for _, x := range [][3]string{{"1", "", ""}, {"2", "", ""}, {"", ",", ""}, {"2", ",", "$"}, {"1", ",", "9"}, {"2", ",", "1"}, {"9", "", ""}, {"$", "", ""}, {".", "", ""}} {
		ws = append(ws, edWrite{w: w(x[0], x[1], x[2], ""), target: edFile})
	}
	for _, c := range []edCmd{{op: 'd'}, {a: num(1), op: 'd'}, {op: 'a', text: edText}, {a: num(0), op: 'a', text: edText}, {a: num(1), op: 'c', text: edText}, {sep: ",", op: 'd'}} {
		ws = append(ws, edWrite{before: []edCmd{c}, w: w("", "", "", ""), target: edFile})
		ws = append(ws, edWrite{before: []edCmd{c}, w: w("", "", "", "OUT"), target: "OUT"})
	}
	for _, n := range []int{2, 3} {
		for _, final := range []bool{true, false} {
			for _, x := range ws {
				e.edWriteRun(symLines(e, n), final, x)
			}
		}
	}
	e.edWriteRun(nil, true, edWrite{before: []edCmd{{op: 'a', text: edText}}, w: w("", "", "", ""), noFile: true})
	e.edWriteRun(nil, true, edWrite{before: []edCmd{{op: 'a', text: edText}}, w: w("", "", "", "OUT"), target: "OUT", noFile: true})
}

// edFiles follows a script of e, w and edits in which every step succeeds except reading the
// file BAD: each w replaces the file it has to by the buffer.
func (e *Engine) edFiles(noFile bool, steps []edCmd) {
	lines := symLines(e, 2)
	if noFile {
		lines = nil
	}
	m := &edModel{lines: append([]StrV(nil), lines...), cur: len(lines)}
	name := edFile
	if noFile {
		name = ""
	}
	type due struct {
		name string
		data StrV
	}
	var dues []due
	var all []string
	for _, c := range append(append([]edCmd(nil), steps...), edWatch...) {
		all = append(all, c.String())
		arg := strings.TrimSpace(c.arg)
		switch {
		case c.op == 'e' && arg == "BAD", c.op == 'w' && arg == "" && name == "":
			m.out = append(m.out, edOut{err: true})
		case c.op == 'e':
			name = arg
			m.lines = []StrV{SA(e.fnAtom("other", 's', K(0))), SA(e.fnAtom("other", 's', K(1)))}
			m.cur = 2
		case c.op == 'w':
			t := arg
			if t == "" {
				t = name
			}
			if name == "" {
				name = t
			}
			var d StrV
			for _, l := range m.lines {
				d = SCat(d, l, SC("\n"))
			}
			dues = append(dues, due{t, d})
		default:
			m.do(c)
		}
	}
	script := strings.Join(all, "\n") + "\n"
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		isBad := len(args) > 0 && e.isName(st, args[0], "BAD")
		switch ev {
		case "openfail":
			if !isBad {
				return nil
			}
		case "open":
			if isBad {
				return nil
			}
		case "createtemp", "create":
			st.Ghost["t.name"], st.Ghost["t.data"] = args[0], StrV{}
		case "rename":
			if !e.sameName(st, args[0], "t.name") {
				break
			}
			e.nObl++
			k := int(st.Ghost["written"].(Lin).C)
			data, _ := st.Ghost["t.data"].(StrV)
			if k >= len(dues) {
				e.alarm(st, "target", at, "script %q: %s is replaced; no file has to be", script, e.valString(args[1]))
				return nil
			}
			if !e.isName(st, args[1], dues[k].name) || !e.sameBuffer(st, data, dues[k].data, true) {
				e.alarm(st, "target", at, "script %q: w number %d replaces %s by %s; %s has to be replaced by %s", script, k+1, e.valString(args[1]), e.valString(e.normStr(st, data)), dues[k].name, e.valString(e.normStr(st, dues[k].data)))
				return nil
			}
			st.Ghost["written"] = K(int64(k + 1))
			delete(st.Ghost, "t.name")
		default:
			if strings.HasSuffix(ev, "fail") {
				return nil
			}
		}
		return []*State{st}
	}
	e.edWriteHook = func(st *State, ev WriteEv) []*State {
		dm, _, _ := e.modelAt(st, ev.Dst)
		if e.sameName(st, fstr(dm, "name"), "t.name") {
			st.Ghost["t.data"] = SCat(st.Ghost["t.data"].(StrV), ev.Data)
		}
		return []*State{st}
	}
	e.edRun(lines, true, script, func(st *State) { st.Ghost["written"] = K(0) }, func(st *State, at ssa.Instruction) {
		e.nObl++
		out, _ := st.Ghost["out"].(StrV)
		if why, ok := e.answers(st, outLines(e.normStr(st, out)), m.out); !ok {
			e.alarm(st, "answer", at, "script %q: %s", script, why)
		} else if k := int(st.Ghost["written"].(Lin).C); k != len(dues) {
			e.alarm(st, "unwritten", at, "script %q: %d files are replaced; %d have to be", script, k, len(dues))
		}
	})
	e.sites["scripts"]++
}

func edW(arg string) edCmd {
	if arg != "" {
		arg = " " + arg
	}
	return edCmd{op: 'w', arg: arg}
}

func edE(arg string) edCmd { return edCmd{op: 'e', arg: " " + arg} }

// edNames: which file a w goes to.
func edNames(e *Engine) {
	e.maxSteps *= 100
	app, del := edCmd{op: 'a', text: edText}, edCmd{a: num(1), op: 'd'}
	for _, s := range [][]edCmd{
		{edW("OUT"), edW("")}, {edW("OUT"), del, edW("")}, {edE("OTHER"), edW("")}, {edE("OTHER"), edW("OUT"), edW("")},
		{edE("BAD"), edW("")}, {edE("OTHER"), edE("BAD"), edW("")}, {edE("OTHER"), del, edW(""), app, edW("")},
		{edW("OTHER"), edW("FILE"), edW("")}, {del, edW("FILE"), app, edW("")}, {del, edW(""), edE("OTHER"), edW("")}, {edE("BAD"), edW("BAD"), edW("")},
	} {
		e.edFiles(false, s)
	}
	for _, s := range [][]edCmd{
		{app, edW("OUT"), del, edW("")}, {app, edW("OUT"), edW("OUT2"), edW("")}, {edE("BAD"), app, edW("")}, {edE("BAD"), app, edW("OUT"), edW("")},
		{app, edW(""), edW("OUT"), edW("")}, {edE("OTHER"), edW("")}, {app, edW("OUT"), edE("OTHER"), edW("")},
	} {
		e.edFiles(true, s)
	}
}

// edReads: what e does to the buffer and the current line.
func edReads(e *Engine) {
	e.maxSteps *= 100
	p1, del, null := edCmd{a: num(1), op: 'p'}, edCmd{a: num(1), op: 'd'}, edCmd{a: num(1)}
	for _, s := range [][]edCmd{
		{edE("OTHER")}, {p1, edE("OTHER")}, {edE("BAD")}, {p1, edE("BAD")}, {p1, edE("BAD"), null}, {p1, edE("OTHER"), p1, edE("OTHER")},
		{del, edE("BAD")}, {p1, edE("OTHER"), del}, {edE("OTHER"), p1, edE("BAD")},
	} {
		e.edFiles(false, s)
		if len(s) == 1 {
			e.edFiles(true, s)
		}
	}
}

// ---- C19

var edOddities = []string{
	"0p", "9p", "2,1p", "1,9p", "0,1p", "9,9d", "0d", "2,1d", "9a\nx\n.", "9i\nx\n.", "9,9c\nx\n.", "2,1c\nx\n.", "0c\nx\n.", "0i\nx\n.",
	".+p", ".-p", "$+p", "$-9p", "1-p", "1-1p", "1-2p", "+p", "-p", "+1p", "^p", "1+2+3p",
	"99999999999999999999p", "1+99999999999999999999p", "$+9223372036854775807p", ".+9223372036854775807d", "1-9223372036854775808p", "9223372036854775807p",
	"9223372036854775807+1p", "1,9223372036854775807p",
	",d\n,p", ",d\np", ",d\nd", ",d\n.=", ",d\n1p", ",d\na\nx\n.", ",d\ni\nx\n.", ",d\nc\nx\n.", ",d\n/x/p", ",d\n", ",d\nn", ",d\n$p", ",d\n,n", ",d\nw OUT",
	"/x/p", "/x/,/y/p", "/(/p", "/[/d", "/a**/p", "//p", "/x", "?x?p", "?x", "'ap", "'Ap", "ka\n'ap", "k", "kA",
	"a", "i", "c", "a\nx", "1a\nx\ny", "c\nx", "a \nx\n.", "1,2a\nx\n.", "1,2i\nx\n.", "/x/a\ny\n.", "$-1a\ny\n.", "1;2c\nx\n.",
	"", " ", "\t", "z", "zz", "p p", "1 2p", "1,2,3p", "pp", "(", "1q", "é", "p é", "日本", "1é",
	"e", "e OTHER", "E", "E OTHER", "e  ", "f", "f NAME", "f é", "r", "r OTHER", "1r OTHER", "9r OTHER", "0r OTHER", "w", "w OUT", "1,2w OUT", "w é", "9w", "2,1w OUT",
	"h", "H", "P", "u", "u\nu", "1u", "j", "1,2j", "9j", "l", "1,9l", "m0", "1m9", "1,2m1", "t", "1t.", "9t1", "mz", "!", "!ls", "g/x/p", "v/x/p", "G/x/", "V/x/", "s/a/b/", "1,2s/a/b/g", "=", "1=", "9=", "0=", "1,2=", ".=", "$=",
	";", ";p", ";d", "1;p", "1;9p", ",", "1,", "1,p", ",1p", "9,", "q", "Q", "q\np", "p\nq\nd",
	"\x00", "p\x00", "\xff", "a\n\xff\n.", "\r", "p\r",
}

// edOdd: nothing of this crashes the editor or stops it, and what it cannot do it says.
func edOdd(part, parts int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		for i, o := range edOddities {
			if i%parts != part {
				continue
			}
			for _, n := range []int{0, 1, 3} {
				e.edOddRun(symLines(e, n), o, "")
				if n == 1 {
					// after the text of an edit and before another command
					e.edOddRun(symLines(e, n), o, "a\nx\n.\n1d")
				}
			}
			e.edOddRun(nil, o, "")
		}
	}
}

func (e *Engine) edOddRun(lines []StrV, odd, first string) {
	script := odd + "\n"
	if first != "" {
		script = first + "\n" + script
	}
	// the text of an unfinished a, i or c takes in what follows
	open := false
	quit := false
	for _, l := range strings.Split(odd, "\n") {
		switch {
		case open:
			open = l != "."
		case l == "q" || l == "Q":
			quit = true
		}
		if !open && !strings.HasPrefix(l, "e") && l != "" && strings.ContainsAny(l[len(l)-1:], "aic") {
			open = true
		}
	}
	if strings.HasSuffix(odd, "\n.") {
		open = false
	}
	if !open {
		script += "\n.\n" // whatever is open is closed
	}
	script += "0a\nSENTINEL\n.\n1p\n"
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State { return []*State{st} }
	e.edWriteHook = nil
	ended := false
	e.edRun(lines, true, script, nil, func(st *State, at ssa.Instruction) {
		ended = true
		out, _ := st.Ghost["out"].(StrV)
		got := outLines(e.normStr(st, out))
		e.nObl++
		if quit || open {
			return
		}
		for _, l := range got {
			if c, ok := l.Const(); ok && c == "SENTINEL" {
				return
			}
		}
		e.alarm(st, "deaf", at, "script %q: the commands after %q are not carried out", script, odd)
	})
	if !ended {
		e.sites["scripts without an end"]++
	}
	e.sites["scripts"]++
}

func init() {
	register(&Prop{
		ID:    "C18",
		Pats:  []string{"./cmd/ed"},
		Rule:  "cmd/ed is followed from main on scripts with a w command (whole buffer and address ranges, the edited file and operands with and without a directory, after no edit and after each kind of edit, valid and invalid addresses, no file name), with every file operation succeeding and failing. Typestate of the new contents: made in a file of their own in the target's directory; the target is never opened, truncated, removed or moved; it is replaced only by a rename of that file after exactly the due text was written without failure and synced and, where the target existed, after it was given the target's permission bits; at the end the file has been renamed or its removal attempted. A failed step and an impossible w must be answered with ?, and the buffer shown afterwards must be the one before. Scripts of several e and w decide which file a w without operand goes to.",
		Trust: []string{"a failing chmod or stat may be reported or not", "directory entries are not synced: a crash after the rename may leave either file"},
		Tasks: func(p *Program) []Task {
			return []Task{{Name: "writing", Pkg: "cmd/ed", Peeled: true, Par: true, Levels: []int{400}, Run: edWrites},
				{Name: "remembered name", Pkg: "cmd/ed", Peeled: true, Par: true, Levels: []int{400}, Run: edNames}}
		},
	})
	register(&Prop{
		ID:    "C19",
		Pats:  []string{"./cmd/ed"},
		Rule:  "cmd/ed is followed from main on odd commands (addresses outside the buffer, reversed, overflowing, malformed; searches with bad expressions; every command letter; text without end; garbage and non-UTF-8 input) in buffers of none, one and three symbolic lines, after edits, without a file, and with every file operation succeeding and failing. No path may reach a panic (index, slice, nil, division, send on a closed channel, explicit panic), wait for ever, or leave the commands after the odd one undone; commands outside the grammar and addresses outside the buffer must be answered with ? and leave buffer and current line as they were.",
		Trust: []string{"the goroutine that reads commands is run to its end where it starts"},
		Tasks: func(p *Program) []Task {
			var ts []Task
			for i := 0; i < 8; i++ {
				ts = append(ts, Task{Name: "odd commands, part " + string(rune('1'+i)), Pkg: "cmd/ed", Peeled: true, Par: true, Levels: []int{400}, Run: edOdd(i, 8)})
			}
			ts = append(ts, Task{Name: "rejected commands", Pkg: "cmd/ed", Peeled: true, Par: true, Levels: []int{400}, Run: edRejected})
			return ts
		},
	})
}

// edRejected: what cannot be meant is answered with ? and changes nothing.
func edRejected(e *Engine) {
	e.maxSteps *= 100
	for _, raw := range []string{"z", "zz", "p p", "1 2p", "1,2,3p", "(", "é", "日本", "k", "kA", "'Ap", "mz", "pp", "1é", "/x", "?x",
		"0p", "9p", "2,1p", "1,9p", "0,1d", "9d", "2,1d", "9=", "9a\nx\n.", "9c\nx\n.", "2,1c\nx\n.", "0n", "9", ".+9p", "$+p", "1-1d",
		"99999999999999999999p", "1+99999999999999999999d", "$+9223372036854775807p", "/nowhere/p", "/nowhere/d", "/[/p", "1,/nowhere/d"} {
		for n := 0; n <= 3; n += 3 {
			lines := symLines(e, n)
			if strings.Contains(raw, "/") {
				lines = []StrV{SC("a"), SC("b"), SC("c")}[:n]
			}
			cmds := []edCmd{{raw: raw, op: '?'}}
			if n > 0 {
				cmds = append([]edCmd{{a: num(2), op: 'p'}}, cmds...)
			}
			e.edScript(lines, true, append(cmds, edWatch...))
		}
	}
}
