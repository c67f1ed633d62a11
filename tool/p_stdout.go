package main

// Standard output carries results only (C22).

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The text written is flattened: constants as they are, a decimal or octal number as N, text taken
// from the input, the arguments or the environment as T, an error's message as E, anything else U.
const (
	fNum  = '\ue001'
	fText = '\ue002'
	fErr  = '\ue003'
	fAny  = '\ue004'
)

func (e *Engine) flatten(s StrV) string {
	var b strings.Builder
	for _, p := range s.P {
		if !p.V {
			b.WriteString(p.C)
			continue
		}
		switch e.atoms[p.A].Fn {
		case "itoa", "formatint":
			b.WriteRune(fNum)
			continue
		}
		isErr, unknown, known := false, false, false
		e.atomDeep(p.A, func(a Atom) {
			i := e.atoms[a]
			switch {
			case i.Fn == "" && strings.HasPrefix(i.Name, "errmsg"):
				isErr = true
			case i.Fn == "" && i.Sort == 's' || strings.HasSuffix(i.Name, "?"):
				unknown = true
			case i.Fn != "" && i.Sort == 's':
				known = true
			}
		})
		switch {
		case isErr:
			b.WriteRune(fErr)
		case unknown || !known:
			b.WriteRune(fAny)
		default:
			b.WriteRune(fText)
		}
	}
	return b.String()
}

// show makes a flattened text readable.
func flatShow(s string) string {
	return strings.NewReplacer(string(fNum), "<number>", string(fText), "<input>", string(fErr), "<error message>", string(fAny), "<unknown>").Replace(s)
}

func grammar(item string) *regexp.Regexp {
	item = strings.NewReplacer("{N}", "(?:-?[0-9]+|"+string(fNum)+")", "{O}", "(?:[0-7]+|"+string(fNum)+"|"+string(fText)+")", "{T}", string(fText), "{X}", "[^\n"+string(fErr)+string(fAny)+"]*").Replace(item)
	return regexp.MustCompile("^(?:" + item + ")*$")
}

var resultItems = map[string]string{
	"cat":    "{T}",
	"cksum":  "{N} {N}(?: {X})?\n",
	"cmp":    "{X} {X} differ: char {N}, line {N}\n|{N} +{O} +{O}\n",
	"cut":    "{T}|\n",
	"diff":   "{N}(?:,{N})?[acd]{N}(?:,{N})?\n|[<>] {X}\n|---\n",
	"head":   "{T}|\n|==> {X} <==\n",
	"kill":   "[A-Z0-9]+[ \n]",
	"locale": "(?:LANG|LC_[A-Z]+)=\"?{X}\"?\n",
	"test":   "{T}",
	"tsort":  "{T}+\n",
}

// proseRe: constant text that is part of no result but cmp's and locale's.
var proseRe = regexp.MustCompile("[a-z]{2,}")

func stdoutMain(cmd string) func(e *Engine) {
	return func(e *Engine) {
		re := grammar(resultItems[cmd])
		judge := func(st *State, s string, at ssa.Instruction) {
			e.nObl++
			if re.MatchString(s) {
				return
			}
			if strings.ContainsRune(s, fAny) && !strings.ContainsRune(s, fErr) && !(cmd != "cmp" && cmd != "locale" && proseRe.MatchString(s)) {
				st.Lossy = "unknown text"
			}
			e.alarm(st, "stdout", at, "%s writes %q on standard output, which is no result of it", cmd, flatShow(s))
		}
		e.onPanic = func(*State, string, string, ssa.Instruction) bool { return true }
		e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State { return []*State{st} }
		e.onWrite = func(st *State, w WriteEv) []*State {
			if w.Kind != "stdout" {
				return []*State{st}
			}
			e.sites["writes to standard output"]++
			old, _ := st.Ghost["pend"].(StrV)
			p := e.normStr(st, SCat(old, w.Data))
			f := e.flatten(p)
			if re.MatchString(f) {
				e.nObl++
				st.Ghost["pend"] = StrV{}
				return []*State{st}
			}
			// judge the complete lines
			for i := len(p.P) - 1; i >= 0; i-- {
				if q := p.P[i]; !q.V && strings.Contains(q.C, "\n") {
					k := strings.LastIndexByte(q.C, '\n') + 1
					judge(st, e.flatten(SCat(StrV{p.P[:i]}, SC(q.C[:k]))), w.At)
					p = SCat(SC(q.C[k:]), StrV{p.P[i+1:]})
					break
				}
			}
			if len(p.P) > 200 {
				p = StrV{}
				st.Lossy = "a long line"
			}
			st.Ghost["pend"] = p
			return []*State{st}
		}
		e.onExit = func(st *State, code Val, at ssa.Instruction) {
			p, _ := st.Ghost["pend"].(StrV)
			judge(st, e.flatten(e.normStr(st, p)), at)
		}
		runMain(e, "cmd/"+cmd, func(st *State) { st.Ghost["pend"] = StrV{} })
	}
}

// ---- ed

var edItem = regexp.MustCompile("^(?:\\?[^\n]*|[0-9" + string(fNum) + "]+|[0-9" + string(fNum) + "]+\t[^" + string(fErr) + "]*|[" + string(fText) + "]*)$")

func (e *Engine) edStdout(lines []StrV, script string) {
	e.onEvent = func(st *State, ev string, args []Val, at ssa.Instruction) []*State { return []*State{st} }
	e.onPanic = func(*State, string, string, ssa.Instruction) bool { return true }
	e.edWriteHook = nil
	e.goWrites = true
	typed := map[string]bool{}
	for _, l := range strings.Split(script, "\n") {
		typed[strings.ToValidUTF8(l, "�")] = true
		typed[l] = true
	}
	e.edRun(lines, true, script+"\n", nil, func(st *State, at ssa.Instruction) {
		out, _ := st.Ghost["out"].(StrV)
		why := false // an answer with ? may go on over several lines
		for _, l := range outLines(e.normStr(st, out)) {
			f := e.flatten(l)
			e.nObl++
			if strings.HasPrefix(f, "?") {
				why = true
				continue
			}
			if why && f != "" && !edItem.MatchString(f) && !typed[f] {
				continue
			}
			if f != "" {
				why = false
			}
			if edItem.MatchString(f) || typed[f] || typed[strings.TrimSuffix(f, "$")] {
				continue
			}
			if strings.ContainsRune(f, fAny) {
				st.Lossy = "unknown text"
			}
			e.alarm(st, "stdout", at, "script %q: ed writes %q on standard output, which is neither a line of the buffer nor a number nor an answer with ?", script, flatShow(f))
			return
		}
	})
	e.sites["scripts"]++
}

func edStdoutAll(part, parts int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		i := 0
		do := func(lines []StrV, s string) {
			i++
			if i%parts == part {
				e.edStdout(lines, s)
			}
		}
		for _, o := range edOddities {
			for _, n := range []int{0, 3} {
				do(symLines(e, n), o+"\n,n\n.=")
			}
			do(nil, o+"\n,p")
		}
	}
}

// ---- packages

// stdoutWrites gives the ways in which a function writes on standard output itself.
func stdoutWrites(f *ssa.Function) (out []ssa.Instruction, what []string) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				switch n := callee(c.Common()); n {
				case "fmt.Print", "fmt.Println", "fmt.Printf":
					out, what = append(out, in), append(what, n)
				}
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && g.String() == "os.Stdout" {
					out, what = append(out, in), append(what, "os.Stdout")
				}
			}
		}
	}
	return
}

// stdoutPkgs: what packages offer beyond the programs does not write on standard output unasked.
func stdoutPkgs(p *Program, r *TaskResult) {
	run := map[*ssa.Function]bool{}
	for _, m := range detMains {
		for _, f := range p.mainReach("cmd/" + m) {
			run[f] = true
		}
	}
	asked := func(f *ssa.Function) bool {
		n := f.Name()
		if strings.HasPrefix(n, "yy") || f.Signature.Recv() != nil && strings.Contains(f.Signature.Recv().Type().String(), ".yy") {
			return true // what goyacc writes: its debugging is off
		}
		return strings.Contains(n, "Print") || strings.Contains(n, "Dump") || strings.Contains(n, "Write")
	}
	var roots []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !run[f] && !asked(f) {
			roots = append(roots, f)
		}
	}
	for path, pkg := range p.Pkgs {
		if !strings.HasPrefix(path, repoModule+"/pkg/") || pkg.Pkg.Name() == "main" {
			continue
		}
		for _, m := range pkg.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() || strings.HasPrefix(m.Name(), "init") {
					add(m)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if o := ms.At(i).Obj(); o.Exported() {
							add(p.Prog.MethodValue(ms.At(i)))
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, root := range roots {
		for _, f := range p.reach(root) {
			if seen[f] || run[f] || asked(f) {
				continue
			}
			seen[f] = true
			r.Functions = append(r.Functions, f.String())
			r.Obl++
			ins, what := stdoutWrites(f)
			for i, in := range ins {
				r.Violations = append(r.Violations, ssaAlarm(p, "stdout", in, "%s writes on standard output by %s, called from %s", f.String(), what[i], root.String()))
			}
		}
	}
	r.Sites["library functions"] = len(seen)
	r.Proved = len(r.Violations) == 0
}

func init() {
	pats := []string{"./pkg/..."}
	for _, m := range detMains {
		pats = append(pats, "./cmd/"+m)
	}
	register(&Prop{
		ID:    "C22",
		Pats:  pats,
		Rule:  "(1) On every path of the abstract executions of cat, cksum, cmp, cut, diff, head, kill, locale, test and tsort, failing operations included, the text on standard output is a sequence of items of the utility's result grammar (cat and head: pieces of input and head's headings; cksum: two numbers and a name; cmp: the difference line or -l lines; diff: hunks; kill: signal names; locale: settings; tsort: words; cut and test: no text of their own); the message of an error is part of none. (2) ed, followed on a list of valid and odd scripts, prints only lines of the buffer, numbers, and answers that begin with ?. (3) Functions of pkg/* that no program reaches do not write on standard output by fmt.Print* or os.Stdout, unless named Print, Dump or Write.",
		Trust: []string{"the models of the library", "within a result line, text from the input or the arguments is not judged further"},
		Tasks: func(p *Program) []Task {
			var ts []Task
			for _, c := range []string{"cat", "cksum", "cmp", "cut", "diff", "head", "kill", "locale", "test", "tsort"} {
				ts = append(ts, Task{Name: c, Pkg: "cmd/" + c, Par: true, Run: stdoutMain(c)})
			}
			for i := 0; i < 4; i++ {
				ts = append(ts, Task{Name: "ed, part " + string(rune('1'+i)), Pkg: "cmd/ed", Peeled: true, Par: true, Levels: []int{400}, Run: edStdoutAll(i, 4)})
			}
			ts = append(ts, Task{Name: "packages", Direct: stdoutPkgs})
			return ts
		},
	})
}
