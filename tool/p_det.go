package main

// Determinism: every way of going through the maps gives the same output; nothing else that may
// differ from run to run (clocks, random numbers, process numbers, unordered goroutines) reaches
// the output or the status.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var detMains = []string{"cat", "cksum", "cmp", "cut", "diff", "ed", "head", "kill", "locale", "test", "tsort"}

// detCase is one run on inputs that leave no choice but the order of map iterations.
type detCase struct {
	cmd, show string
	args      []StrV
	stdin     StrV
	files     map[string]StrV
	prep      func(st *State)
}

// detRun follows a case with maps iterated in four orders.
func (e *Engine) detRun(c detCase) {
	var outs [4]map[string]bool
	var last [4]*State
	var lastAt [4]ssa.Instruction
	e.args = append([]StrV{SC(c.cmd)}, c.args...)
	e.stdinText = &c.stdin
	e.goSync = true
	e.termHook = func(fn string, args []Val) Val {
		if fn == "content" && len(args) == 1 {
			if k, ok := args[0].(StrV).Const(); ok {
				if t, ok := c.files[k]; ok {
					return t
				}
			}
		}
		return nil
	}
	e.onPanic = func(*State, string, string, ssa.Instruction) bool { return true }
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State {
		if isFail(ev) || strings.HasSuffix(ev, "fail") {
			return nil
		}
		if ev == "signal" {
			old, _ := st.Ghost["out"].(StrV)
			st.Ghost["out"] = SCat(old, SC("(signal "))
			for _, a := range args {
				st.Ghost["out"] = SCat(st.Ghost["out"].(StrV), SC(e.valString(e.nv(st, a))+" "))
			}
			st.Ghost["out"] = SCat(st.Ghost["out"].(StrV), SC(")"))
		}
		return []*State{st}
	}
	for dir := range outs {
		dir := dir
		outs[dir] = map[string]bool{}
		e.mapDir = dir + 1
		e.onWrite = func(st *State, w WriteEv) []*State {
			if w.Kind == "stdout" {
				old, _ := st.Ghost["out"].(StrV)
				st.Ghost["out"] = SCat(old, w.Data)
			}
			return []*State{st}
		}
		e.onExit = func(st *State, code Val, at ssa.Instruction) {
			e.nObl++
			out, _ := st.Ghost["out"].(StrV)
			k := e.valString(e.normStr(st, out)) + " with status " + e.linString(e.n(st, e.asLin(code)))
			if st.Lossy != "" || strings.Contains(k, "#") {
				k = "?" + st.Lossy
			}
			outs[dir][k] = true
			last[dir], lastAt[dir] = st, at
		}
		runMain(e, "cmd/"+c.cmd, c.prep)
	}
	e.sites["inputs of "+c.cmd]++
	for _, o := range outs {
		if len(o) != 1 {
			e.sites["inputs left undecided"]++
			return
		}
	}
	for dir := 1; dir < len(outs); dir++ {
		for a := range outs[0] {
			b := ""
			for b = range outs[dir] {
			}
			if a != b && !strings.HasPrefix(a, "?") && !strings.HasPrefix(b, "?") {
				e.alarm(last[dir], "order", lastAt[dir], "%s: prints %s or %s, depending on the order in which a map is iterated", c.show, a, b)
				return
			}
		}
	}
}

func (e *Engine) words1(l []int, prefix string) (ws []StrV, n int) {
	if e.oneWord == nil {
		e.oneWord = map[Atom]bool{}
	}
	if e.oneLine == nil {
		e.oneLine = map[Atom]bool{}
	}
	for _, k := range l {
		a := e.fnAtom(prefix, 's', K(int64(k+1)))
		e.oneWord[a], e.oneLine[a] = true, true
		ws = append(ws, SA(a))
		n = max(n, k+1)
	}
	return ws, n
}

// distinct makes the first n words different, in ascending order after the permutation.
func (e *Engine) distinct(st *State, prefix string, n int, rank func(i int) int) {
	w := func(i int) StrV { return SA(e.fnAtom(prefix, 's', K(int64(i+1)))) }
	for i := 0; i < n; i++ {
		e.addGe(st, e.strLen(w(i)).AddK(-1))
		e.addFact(st, e.boolTerm("hasdelim", w(i), K(0), K('\n')), false)
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			e.addFact(st, e.strEq(w(i), w(j)), false)
			e.addFact(st, e.strLess(w(i), w(j)), rank(i) < rank(j))
		}
	}
}

func detTsort(rev, same bool, lens ...int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		e.sortFork = true
		for _, ln := range lens {
			for _, l := range wordLists(ln) {
				ws, n := e.words1(l, "word")
				var text StrV
				show := ""
				for i, w := range ws {
					text = SCat(text, w, SC(" "))
					show += string(rune('A'+l[i])) + " "
				}
				rank := func(i int) int { return i }
				if rev {
					rank = func(i int) int { return -i }
				}
				e.detRun(detCase{cmd: "tsort", show: "input " + show, stdin: text, prep: func(st *State) {
					e.distinct(st, "word", n, rank)
					for i := 1; same && i < n; i++ {
						w := func(i int) Lin { return e.strLen(SA(e.fnAtom("word", 's', K(int64(i+1))))) }
						e.addEq(st, w(i).Sub(w(0)))
					}
				}})
			}
		}
	}
}

func detDiff(n1, n2 int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		e.sortFork = true
		for _, l := range wordLists(n1 + n2) {
			ws, n := e.words1(l, "line")
			var t [2]StrV
			show := [2]string{}
			for i, w := range ws {
				k := 0
				if i >= n1 {
					k = 1
				}
				t[k] = SCat(t[k], w, SC("\n"))
				show[k] += string(rune('A' + l[i]))
			}
			e.detRun(detCase{cmd: "diff", show: fmt.Sprintf("files of the lines %q and %q", show[0], show[1]),
				args: []StrV{SC("F1"), SC("F2")}, files: map[string]StrV{"F1": t[0], "F2": t[1]},
				prep: func(st *State) { e.distinct(st, "line", n, func(i int) int { return i }) }})
		}
	}
}

func detEd(e *Engine) {
	e.maxSteps *= 100
	for _, script := range []string{",p\n1,2n\n2d\n,p\n.=\n", "1a\nx\ny\n.\n,n\n/x/p\nbad\n$=\n", "c\nz\n.\nw OTHER\ne FILE\n,p\nz\n"} {
		ls := symLines(e, 3)
		text := StrV{}
		for _, l := range ls {
			text = SCat(text, l, SC("\n"))
		}
		e.detRun(detCase{cmd: "ed", show: fmt.Sprintf("script %q", script), args: []StrV{SC("FILE")}, stdin: SC(script), files: map[string]StrV{"FILE": text},
			prep: func(st *State) {
				for _, l := range ls {
					e.addFact(st, e.boolTerm("hasdelim", l, K(0), K('\n')), false)
				}
			}})
	}
}

func detKill(e *Engine) {
	e.maxSteps *= 100
	e.sortFork = true
	for _, a := range [][]string{{"-l"}, {"-l", "-s", "INT"}, {"-s", "int", "-l"}, {"11", "12", "13"}, {"-9", "31", "12", "23", "12"}} {
		var args []StrV
		for _, x := range a {
			args = append(args, SC(x))
		}
		e.detRun(detCase{cmd: "kill", show: "kill " + strings.Join(a, " "), args: args})
	}
}

// detFiles: three files of one line each.
func detFiles(cmd string, opts ...string) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		e.sortFork = true
		c := detCase{cmd: cmd, show: "three files", files: map[string]StrV{"F1": SC("one\n"), "F2": SC("two\n"), "F3": SC("three\n")}}
		for _, a := range append(opts, "F2", "F3", "F1") {
			c.args = append(c.args, SC(a))
		}
		e.detRun(c)
	}
}

func detLocale(e *Engine) {
	e.maxSteps *= 100
	e.detRun(detCase{cmd: "locale", show: "locale with every variable but LC_ALL set", prep: func(st *State) {
		env := func(n string) StrV { return e.strTerm("env", SC(n)) }
		for _, c := range []string{"LANG", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"} {
			e.addFact(st, e.strEq(env(c), StrV{}), false)
			e.addFact(st, e.boolTerm("envset", SC(c)), true)
		}
		e.addStrEq(st, env("LC_ALL"), StrV{})
	}})
}

// ---- sources other than maps

func volatileCall(name string) bool {
	switch name {
	case "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Getppid", "os.Hostname", "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "syscall.Getpid", "syscall.Gettimeofday", "syscall.Time", "os.Getwd":
		return name != "os.Getwd"
	}
	return strings.HasPrefix(name, "math/rand.") || strings.HasPrefix(name, "math/rand/v2.") || strings.HasPrefix(name, "crypto/rand.") ||
		strings.HasPrefix(name, "(*math/rand.Rand).") || strings.HasPrefix(name, "(*math/rand/v2.Rand).")
}

// outputCall gives the operands of a call that go to the output or into the status.
func outputCall(c *ssa.CallCommon) (data []ssa.Value, what string) {
	n := callee(c)
	isErr := func(v ssa.Value) bool {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
		}
		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				return g.String() == "os.Stderr"
			}
		}
		return false
	}
	switch n {
	case "fmt.Print", "fmt.Println", "fmt.Printf", "os.Exit", "syscall.Exit", "(*os.Process).Signal", "(*os.Process).Kill", "syscall.Kill":
		return c.Args, n
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString", "(*os.File).Write", "(*os.File).WriteString", "io.Copy", "io.CopyN":
		if isErr(c.Args[0]) {
			return nil, ""
		}
		return c.Args[1:], n
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		return c.Args[1:], n
	}
	if c.IsInvoke() && strings.HasPrefix(c.Method.Name(), "Write") && !isErr(c.Value) {
		return c.Args, "Write"
	}
	return nil, ""
}

// detSources follows the values of clocks and the like through the program's values.
func detSources(p *Program, r *TaskResult, path string) {
	fns := p.mainReach(path)
	tainted := map[ssa.Value]string{}
	fields := map[interface{}]string{} // field, global or cell -> source
	rets := map[*ssa.Function]string{}
	params := map[*ssa.Function]map[int]string{}
	var work bool
	mark := func(v ssa.Value, src string) {
		if v != nil && tainted[v] == "" {
			tainted[v] = src
			work = true
		}
	}
	cell := func(a ssa.Value) interface{} {
		switch a := a.(type) {
		case *ssa.FieldAddr:
			return a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field)
		case *ssa.Global:
			return a
		case *ssa.Alloc:
			return a
		case *ssa.FreeVar:
			return a
		case *ssa.IndexAddr:
			return a.X
		}
		return nil
	}
	calls := 0
	for round := 0; round < 50; round++ {
		work = false
		calls = 0
		for _, f := range fns {
			for i, pr := range f.Params {
				if s := params[f][i]; s != "" {
					mark(pr, s)
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						calls++
						com := c.Common()
						v, _ := in.(ssa.Value)
						n := callee(com)
						if volatileCall(n) {
							mark(v, n)
							continue
						}
						src := ""
						for i, a := range com.Args {
							if s := tainted[a]; s != "" {
								src = s
								if g := com.StaticCallee(); g != nil && isRepoFn(g) {
									if params[g] == nil {
										params[g] = map[int]string{}
									}
									if params[g][i] == "" {
										params[g][i] = s
										work = true
									}
								}
							}
						}
						if g := com.StaticCallee(); g != nil && isRepoFn(g) {
							src = rets[g]
						} else if com.IsInvoke() && tainted[com.Value] != "" {
							src = tainted[com.Value]
						}
						if src != "" && v != nil {
							mark(v, src)
						}
						continue
					}
					instr := in
					switch in := in.(type) {
					case *ssa.Store:
						if s := tainted[in.Val]; s != "" {
							if k := cell(in.Addr); k != nil && fields[k] == "" {
								fields[k] = s
								work = true
								if x, ok := in.Addr.(*ssa.IndexAddr); ok {
									mark(x.X, s)
								}
								if x, ok := in.Addr.(*ssa.Alloc); ok {
									mark(x, s)
								}
							}
						}
					case *ssa.Return:
						for _, v := range in.Results {
							if s := tainted[v]; s != "" && rets[f] == "" {
								rets[f] = s
								work = true
							}
						}
					case ssa.Value:
						if u, ok := in.(*ssa.UnOp); ok {
							if k := cell(u.X); k != nil && fields[k] != "" {
								mark(in, fields[k])
							}
						}
						for _, op := range instr.Operands(nil) {
							if *op != nil && tainted[*op] != "" {
								mark(in, tainted[*op])
							}
						}
					}
				}
			}
		}
		if !work {
			break
		}
	}
	for _, f := range fns {
		r.Functions = append(r.Functions, f.String())
		for _, b := range f.Blocks {
			r.Instrs += len(b.Instrs)
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					data, what := outputCall(c.Common())
					if what != "" {
						r.Obl++
						r.Sites["output calls"]++
					}
					for _, d := range data {
						if s := tainted[d]; s != "" {
							r.Violations = append(r.Violations, ssaAlarm(p, "volatile", in, "the value of %s reaches %s", s, what))
							break
						}
					}
				}
				if i, ok := in.(*ssa.If); ok {
					if s := tainted[i.Cond]; s != "" {
						r.Violations = append(r.Violations, ssaAlarm(p, "volatile", in, "a decision depends on the value of %s", s))
					}
				}
			}
		}
	}
	r.Sites["calls"] = calls
	detGo(p, r, fns)
	r.Proved = len(r.Violations) == 0
}

// detGo: goroutines started in a loop, or several of them, that write output without being waited
// for before the next is started.
func detGo(p *Program, r *TaskResult, fns []*ssa.Function) {
	writes := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, what := outputCall(c.Common()); what != "" && what != "os.Exit" && what != "syscall.Exit" {
						writes[f] = true
					}
				}
			}
		}
	}
	for _, f := range fns {
		var gos []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				r.Obl++
				r.Sites["go statements"]++
				var body *ssa.Function
				switch v := g.Call.Value.(type) {
				case *ssa.Function:
					body = v
				case *ssa.MakeClosure:
					body = v.Fn.(*ssa.Function)
				}
				if body == nil {
					continue
				}
				w := false
				for _, h := range p.reach(body) {
					w = w || writes[h]
				}
				if !w {
					continue
				}
				gos = append(gos, in)
				if loop := cycleThrough(b); len(loop) > 0 && !waits(loop) {
					r.Violations = append(r.Violations, ssaAlarm(p, "goroutines", in, "goroutines started in a loop write output in no fixed order"))
				}
			}
		}
		if len(gos) > 1 {
			all := map[*ssa.BasicBlock]bool{}
			for _, b := range f.Blocks {
				all[b] = true
			}
			if !waits(all) {
				r.Violations = append(r.Violations, ssaAlarm(p, "goroutines", gos[1], "several goroutines write output in no fixed order"))
			}
		}
	}
}

// rangesMap: the program iterates over a map somewhere, or picks one of several channels.
func rangesMap(p *Program, cmd string) bool {
	for _, f := range p.mainReach("cmd/" + cmd) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						return true
					}
				case *ssa.Select:
					if len(in.States) > 1 {
						return true
					}
				case ssa.CallInstruction:
					if n := callee(in.Common()); strings.HasPrefix(n, "maps.") || strings.Contains(n, "reflect.Value).Map") || strings.HasPrefix(n, "(*sync.Map)") {
						return true
					}
				}
			}
		}
	}
	return false
}

// cycleThrough gives the blocks on a cycle through b.
func cycleThrough(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	from := map[*ssa.BasicBlock]bool{}
	var fwd func(x *ssa.BasicBlock)
	fwd = func(x *ssa.BasicBlock) {
		for _, s := range x.Succs {
			if !from[s] {
				from[s] = true
				fwd(s)
			}
		}
	}
	fwd(b)
	if !from[b] {
		return nil
	}
	out := map[*ssa.BasicBlock]bool{b: true}
	var back func(x *ssa.BasicBlock)
	back = func(x *ssa.BasicBlock) {
		for _, q := range x.Preds {
			if from[q] && !out[q] {
				out[q] = true
				back(q)
			}
		}
	}
	back(b)
	return out
}

// waits: the blocks wait for something.
func waits(blocks map[*ssa.BasicBlock]bool) bool {
	for b := range blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if n := callee(c.Common()); n == "(*sync.WaitGroup).Wait" || n == "(*sync.Cond).Wait" {
					return true
				}
			}
			if _, ok := in.(*ssa.Select); ok {
				return true
			}
		}
	}
	return false
}

func ssaAlarm(p *Program, kind string, in ssa.Instruction, format string, args ...interface{}) Alarm {
	a := Alarm{Kind: kind, Msg: fmt.Sprintf(format, args...)}
	a.Func = in.Parent().String()
	a.Pos = (&Engine{P: p}).instrPos(in)
	return a
}

func init() {
	var pats []string
	for _, m := range detMains {
		pats = append(pats, "./cmd/"+m)
	}
	sort.Strings(pats)
	register(&Prop{
		ID:    "C25",
		Pats:  pats,
		Rule:  "(1) In every program no value of a clock, a random number generator, a process number or the like flows (through values, fields, globals, parameters and results) to an output call, the exit status or a branch condition, and no goroutines that write output run beside each other without being waited for. (2) tsort, diff, kill -l, locale and ed are followed from main on inputs that fix every other choice (unknown, pairwise different words or lines in every pattern of small size) with maps iterated in four orders (as filled and backwards, by key and backwards): all must give the same text on standard output and the same status.",
		Trust: []string{"the models of the library; a library function without a model is taken to be a function of its arguments", "four iteration orders stand for all of them"},
		Tasks: func(p *Program) []Task {
			var ts []Task
			for _, m := range detMains {
				m := m
				ts = append(ts, Task{Name: "sources, " + m, Pkg: "cmd/" + m, Direct: func(p *Program, r *TaskResult) { detSources(p, r, "cmd/"+m) }})
			}
			add := func(name, cmd string, f func(e *Engine)) {
				if !rangesMap(p, cmd) {
					ts = append(ts, Task{Name: name, Pkg: "cmd/" + cmd, Direct: func(p *Program, r *TaskResult) {
						r.Proved = true
						r.Sites["no map is iterated and no select has several cases"]++
						r.Obl++
					}})
					return
				}
				ts = append(ts, Task{Name: name, Pkg: "cmd/" + cmd, Peeled: true, Par: true, PeelCap: 2000, Levels: []int{400}, Run: f})
			}
			add("map orders, tsort", "tsort", detTsort(false, false, 2, 4, 6))
			add("map orders, tsort, descending words", "tsort", detTsort(true, false, 2, 4, 6))
			add("map orders, tsort, words of the same length", "tsort", detTsort(false, true, 2, 4, 6))
			for i := 0; i <= 3; i++ {
				for j := 0; j <= 3; j++ {
					add(fmt.Sprintf("map orders, diff of %d and %d lines", i, j), "diff", detDiff(i, j))
				}
			}
			add("map orders, ed", "ed", detEd)
			add("map orders, kill -l", "kill", detKill)
			for _, m := range []string{"cat", "cksum", "head"} {
				add("map orders, "+m, m, detFiles(m))
			}
			add("map orders, locale", "locale", detLocale)
			return ts
		},
	})
}
