package main

// C15: the option parser. Argument lists of every shape up to a bound, with symbolic operands and
// option arguments, are parsed abstractly; variables, operands and error are compared with what
// the guidelines give for the shape.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type flagArg struct {
	pre  string // constant part
	kind byte   // 0: constant; 'S': non-empty symbolic tail; 'O': symbolic operand; 'A': anything
}

func (a flagArg) show() string {
	switch a.kind {
	case 'S':
		return a.pre + "TEXT"
	case 'O':
		return "OPERAND"
	case 'A':
		return "ANY"
	}
	return strconv.Quote(a.pre)
}

// flagWant is what an argument list means.
type flagWant struct {
	bools map[rune]bool
	strs  map[rune]StrV
	ints  map[rune]int64
	rest  []StrV
	bad   bool
	ended bool
	want  rune // the option that waits for its argument
}

func (w *flagWant) clone() *flagWant {
	n := *w
	n.bools, n.strs, n.ints = map[rune]bool{}, map[rune]StrV{}, map[rune]int64{}
	for k, v := range w.bools {
		n.bools[k] = v
	}
	for k, v := range w.strs {
		n.strs[k] = v
	}
	for k, v := range w.ints {
		n.ints[k] = v
	}
	n.rest = append([]StrV(nil), w.rest...)
	return &n
}

var flagBools, flagStrs, flagInts = "vxé", "pü", "nm"

func (w *flagWant) value(c rune, v StrV) {
	if strings.ContainsRune(flagStrs, c) {
		w.strs[c] = v
		return
	}
	s, ok := v.Const()
	if !ok {
		panic("symbolic number")
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		w.bad = true
		return
	}
	w.ints[c] = n
}

// step adds an argument.
func (w *flagWant) step(a flagArg, v StrV) {
	switch {
	case w.ended:
		w.rest = append(w.rest, v)
		return
	case w.want != 0:
		c := w.want
		w.want = 0
		w.value(c, v)
		return
	case a.kind == 'O' || a.pre == "" || a.pre == "-" || a.pre[0] != '-':
		w.ended = true
		w.rest = append(w.rest, v)
		return
	case a.pre == "--" && a.kind == 0:
		w.ended = true
		return
	}
	for i, c := range a.pre {
		if i == 0 {
			continue
		}
		if strings.ContainsRune(flagBools, c) {
			w.bools[c] = true
			continue
		}
		if !strings.ContainsRune(flagStrs+flagInts, c) {
			w.bad = true
			return
		}
		tail := dropFront(v, i+utf8.RuneLen(c))
		if len(tail.P) == 0 {
			w.want = c
		} else {
			w.value(c, tail)
		}
		return
	}
}

var flagOptArgs = []flagArg{
	{"-v", 0}, {"-xé", 0}, {"-vv", 0}, {"-p", 0}, {"-p", 'S'}, {"-xp", 'S'}, {"-vp", 0}, {"-pv", 0}, {"-p-", 0}, {"-ü", 0}, {"-éü", 'S'},
	{"-n", 0}, {"-n5", 0}, {"-vm17", 0}, {"-n4x", 0}, {"-n-2", 0}, {"-q", 0}, {"-vq", 0}, {"-qp", 0}, {"--v", 0}, {"-v-", 0},
	{"--", 0}, {"-", 0}, {"", 0}, {"v", 0}, {"", 'O'},
}
var flagNums = []flagArg{{"5", 0}, {"-3", 0}, {"0", 0}, {"9000000000", 0}, {"9223372036854775808", 0}, {"4x", 0}, {"", 0}, {"--", 0}}

func flagParse(depth int, viaArgs bool) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 10
		e.validUTF8 = true
		pkg := e.P.Pkgs[repoModule+"/pkg/flag"]
		if pkg == nil {
			panic(giveUp{"package pkg/flag not found"})
		}
		ty := pkg.Type("Parser")
		if ty == nil {
			panic(giveUp{"the option parser is not there"})
		}
		var fn [4]*ssa.Function
		for i, n := range []string{"BoolVar", "StringVar", "IntVar", "Parse"} {
			if fn[i] = e.P.method(ty.Type(), n); fn[i] == nil {
				panic(giveUp{"the option parser has no " + n})
			}
		}
		input := -1
		sty, _ := ty.Type().Underlying().(*types.Struct)
		for i := 0; sty != nil && i < sty.NumFields(); i++ {
			if sty.Field(i).Name() == "Input" {
				input = i
			}
		}
		if input < 0 {
			panic(giveUp{"the option parser has no Input"})
		}
		st0 := e.newState()
		inits := e.runInit(st0, pkg)
		if len(inits) != 1 {
			panic(giveUp{"initialisation"})
		}
		st := inits[0]
		zero := e.zero(st, ty.Type())
		pid := e.alloc(st, &Obj{V: zero, Typ: ty.Type()})
		st.Ghost["parser"] = PtrV{Obj: pid}
		// declare the options
		cells := map[rune]PtrV{}
		work := []*State{st}
		for k, set := range []string{flagBools, flagStrs, flagInts} {
			t := []types.Type{types.Typ[types.Bool], types.Typ[types.String], types.Typ[types.Int64]}[k]
			for _, c := range set {
				var next []*State
				for _, s := range work {
					id := e.alloc(s, &Obj{V: e.zero(s, t), Typ: t})
					cells[c] = PtrV{Obj: id}
					s.Ghost["opt "+string(c)] = PtrV{Obj: id}
					for _, r := range e.call(s, fn[k], []Val{PtrV{Obj: pid}, PtrV{Obj: id}, K(int64(c))}, nil, nil) {
						next = append(next, r.St)
					}
				}
				work = next
			}
		}
		if len(work) != 1 {
			panic(giveUp{"declaring options takes more than one path"})
		}
		base := work[0]
		var rec func(args []flagArg, vals []StrV, w *flagWant)
		run := func(args []flagArg, vals []StrV, w *flagWant) {
			s := base.clone()
			for i, a := range args {
				switch a.kind {
				case 'S':
					t, _ := StrV{vals[i].P[len(vals[i].P)-1:]}.Atom()
					e.addGe(s, e.strLen(SA(t)).AddK(-1))
				case 'O':
					e.addGe(s, e.strLen(vals[i]).AddK(-1))
					e.addNe(s, e.byteAt(vals[i], K(0)).AddK(-'-'))
				}
			}
			var segs []Seg
			if viaArgs {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: SC("utility")})
			}
			for _, v := range vals {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: v})
			}
			sl := e.newSlice(s, strType, segs)
			var names []string
			for _, a := range args {
				names = append(names, a.show())
			}
			s.note("arguments %s", strings.Join(names, " "))
			s.Ghost["argv"] = sl
			if viaArgs {
				e.globalVal = func(st *State, g *ssa.Global) (Val, bool) {
					if g.String() == "os.Args" {
						return sl, true
					}
					return nil, false
				}
			} else {
				for _, x := range e.store(s, PtrV{Obj: pid, Path: []PE{{F: input}}}, sl) {
					s = x
				}
			}
			what := strings.Join(names, " ")
			for _, r := range e.call(s, fn[3], []Val{PtrV{Obj: pid}}, nil, nil) {
				e.flagCheck(r.St, r.V, w, what, lastInstr(fn[3]))
			}
		}
		n := 0
		rec = func(args []flagArg, vals []StrV, w *flagWant) {
			n++
			if w.want != 0 {
				x := w.clone()
				x.bad = true
				run(args, vals, x)
			} else {
				run(args, vals, w)
			}
			if len(args) == depth || w.bad {
				return
			}
			next := flagOptArgs
			switch {
			case w.ended, w.want != 0 && strings.ContainsRune(flagStrs, w.want):
				next = []flagArg{{"", 'A'}}
			case w.want != 0:
				next = flagNums
			}
			for _, a := range next {
				v := SC(a.pre)
				if a.kind != 0 {
					v = SCat(v, SA(e.fnAtom(string(a.kind)+"arg", 's', K(int64(len(args))))))
				}
				x := w.clone()
				x.step(a, v)
				rec(append(append([]flagArg(nil), args...), a), append(append([]StrV(nil), vals...), v), x)
			}
		}
		rec(nil, nil, &flagWant{bools: map[rune]bool{}, strs: map[rune]StrV{}, ints: map[rune]int64{}})
		e.sites["argument lists"] = n
	}
}

func (e *Engine) flagCheck(st *State, res Val, w *flagWant, what string, at ssa.Instruction) {
	e.nObl++
	t, ok := res.(TupleV)
	if !ok || len(t) != 2 {
		panic(giveUp{"Parse does not return operands and an error"})
	}
	isErr := -1
	if i, ok := t[1].(IfaceV); ok {
		isErr = 0
		if i.T != nil {
			isErr = 1
		}
	}
	if isErr < 0 {
		panic(giveUp{"unknown error value"})
	}
	if w.bad {
		if isErr == 0 {
			e.alarm(st, "accepted", at, "the arguments %s are accepted; they must be refused", what)
		}
		return
	}
	if isErr == 1 {
		e.alarm(st, "refused", at, "the arguments %s are refused; they are valid", what)
		return
	}
	for _, c := range flagBools + flagStrs + flagInts {
		rs := e.load(st, st.Ghost["opt "+string(c)].(PtrV))
		if len(rs) != 1 {
			continue
		}
		v := e.nv(rs[0].St, rs[0].V)
		switch {
		case strings.ContainsRune(flagBools, c):
			b, _ := v.(BoolV)
			if b.E == nil || e.evalB(st, b.E) != b2i(w.bools[c]) {
				e.alarm(st, "value", at, "after the arguments %s option -%c is %s, not %v", what, c, e.valString(v), w.bools[c])
			}
		case strings.ContainsRune(flagStrs, c):
			if s, ok := v.(StrV); !ok || e.strKnown(st, s, e.normStr(st, w.strs[c])) != 1 {
				e.alarm(st, "value", at, "after the arguments %s option -%c has the value %s, not %s", what, c, e.valString(v), e.valString(w.strs[c]))
			}
		default:
			if !e.proveEq(st, e.asLin(v).AddK(-w.ints[c])) {
				e.alarm(st, "value", at, "after the arguments %s option -%c has the value %s, not %d", what, c, e.valString(v), w.ints[c])
			}
		}
	}
	sl, ok := t[0].(SliceV)
	var got []Val
	if !ok || (sl.Arr != 0 && func() bool { got, ok = e.variadicStr(st, sl); return !ok }()) {
		panic(giveUp{"unknown operands"})
	}
	same := len(got) == len(w.rest)
	for i := 0; same && i < len(got); i++ {
		s, ok := got[i].(StrV)
		same = ok && e.strKnown(st, s, e.normStr(st, w.rest[i])) == 1
	}
	if !same {
		var ss []string
		for _, g := range got {
			ss = append(ss, e.valString(g))
		}
		e.alarm(st, "operands", at, "the arguments %s give the operands [%s]; there are %d", what, strings.Join(ss, " "), len(w.rest))
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// variadicStr lists the elements of a string slice of known length.
func (e *Engine) variadicStr(st *State, s SliceV) ([]Val, bool) {
	vs := e.view(st.clone(), s)
	if len(vs) != 1 {
		return nil, false
	}
	var out []Val
	for _, g := range vs[0].Segs {
		switch {
		case g.Kind == 'e':
			out = append(out, e.nv(st, g.V))
		case g.Kind == 'z' && g.Len.IsK():
			for i := int64(0); i < g.Len.C; i++ {
				out = append(out, StrV{})
			}
		default:
			return nil, false
		}
	}
	return out, true
}

func init() {
	register(&Prop{
		ID:    "C15",
		Pats:  []string{"./pkg/flag"},
		Rule:  "Every argument list of up to three arguments made of option bundles (declared and undeclared letters, one and two bytes long, with and without attached symbolic arguments), \"--\", \"-\", the empty argument, symbolic operands, numbers and arbitrary symbolic option arguments is parsed abstractly; on every path the error, the value of every declared option and the list of operands must be what the guidelines give for the list.",
		Trust: []string{"the models of strconv, utf8 and fmt", "arguments are valid UTF-8"},
		Tasks: func(p *Program) []Task {
			return []Task{
				{Name: "arguments", Peeled: true, Levels: []int{12}, PeelCap: 2000, Run: flagParse(3+deeper(), false)},
				{Name: "os.Args", Peeled: true, Levels: []int{12}, PeelCap: 2000, Run: flagParse(2, true)},
			}
		},
	})
	_ = fmt.Sprint
}
