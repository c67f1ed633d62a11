package main

// ed's goroutines (C21): one writer, no shared state, no lost or reordered commands.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// side is what one goroutine runs.
type side struct {
	name   string
	at     ssa.Instruction // the go statement; nil for the main one
	fns    map[*ssa.Function]bool
	ins    map[ssa.Instruction]bool // of functions only partly of this side; nil: all
	partly map[*ssa.Function]bool
	writes []ssa.Instruction
}

func (s *side) each(f func(fn *ssa.Function, in ssa.Instruction)) {
	var fns []*ssa.Function
	for fn := range s.fns {
		fns = append(fns, fn)
	}
	for fn := range s.partly {
		if !s.fns[fn] {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s.fns[fn] || s.ins[in] {
					f(fn, in)
				}
			}
		}
	}
}

// onlyGo: a closure that is nothing but the body of a go statement.
func onlyGo(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r.(type) {
		case *ssa.Go, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// grow adds what the instructions of a side call, in the same goroutine.
func (p *Program) grow(s *side, convs map[types.Type]bool) {
	done := map[ssa.Instruction]bool{}
	invoked := map[string]bool{}
	for changed := true; changed; {
		changed = false
		add := func(f *ssa.Function) {
			if f != nil && f.Blocks != nil && isRepoFn(f) && !s.fns[f] {
				s.fns[f] = true
				changed = true
			}
		}
		s.each(func(fn *ssa.Function, in ssa.Instruction) {
			if done[in] {
				return
			}
			done[in] = true
			g, isGo := in.(*ssa.Go)
			if mc, ok := in.(*ssa.MakeClosure); ok && onlyGo(mc) {
				return
			}
			for _, op := range in.Operands(nil) {
				f, ok := (*op).(*ssa.Function)
				if !ok || isGo && *op == g.Call.Value {
					continue
				}
				add(f)
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && !isGo {
				invoked[c.Common().Method.Name()] = true
			}
		})
		for t := range convs {
			ms := p.Prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if n := ms.At(i).Obj().Name(); invoked[n] {
					add(p.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
}

// after collects the instructions that may run after one, in its function.
func after(in ssa.Instruction, out map[ssa.Instruction]bool) {
	b := in.Block()
	i := 0
	for k, x := range b.Instrs {
		if x == in {
			i = k + 1
		}
	}
	for _, x := range b.Instrs[i:] {
		out[x] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				for _, x := range s.Instrs {
					out[x] = true
				}
				walk(s)
			}
		}
	}
	walk(b)
}

// isOutput: an instruction that writes text somewhere other than standard error or memory.
func isOutput(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	_, what := outputCall(c.Common())
	switch what {
	case "", "os.Exit", "syscall.Exit", "(*os.Process).Signal", "(*os.Process).Kill", "syscall.Kill":
		return false
	}
	com := c.Common()
	var dst ssa.Value
	if com.IsInvoke() {
		dst = com.Value
	} else if len(com.Args) > 0 && !strings.HasPrefix(what, "fmt.Print") {
		dst = com.Args[0]
	}
	for i := 0; i < 10; i++ {
		switch v := dst.(type) {
		case *ssa.MakeInterface:
			t := v.X.Type().String()
			if t == "*strings.Builder" || t == "*bytes.Buffer" {
				return false
			}
			dst = v.X
			continue
		case *ssa.ChangeInterface:
			dst = v.X
			continue
		case ssa.Value:
			if v.Type().String() == "*os.File" {
				u, ok := v.(*ssa.UnOp)
				if !ok {
					return false // a file, not what the caller or standard output gives
				}
				if g, ok := u.X.(*ssa.Global); ok {
					return g.String() == "os.Stdout"
				}
			}
		}
		break
	}
	return true
}

// chanRoots finds where a channel is made.
func chanRoots(v ssa.Value, callers map[*ssa.Function][]ssa.CallInstruction) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeChan:
			out[v] = true
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.Convert:
			walk(v.X)
		case *ssa.Phi:
			for _, x := range v.Edges {
				walk(x)
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				switch a := v.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
					walk(a)
				case *ssa.FieldAddr:
					out[fieldOf(a)] = true
				}
			}
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v {
					walk(s.Val)
				}
			}
		case *ssa.Global:
			out[v] = true
		case *ssa.FreeVar:
			f := v.Parent()
			for i, fv := range f.FreeVars {
				if fv != v || f.Parent() == nil {
					continue
				}
				for _, b := range f.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
							walk(mc.Bindings[i])
						}
					}
				}
			}
		case *ssa.Parameter:
			for i, pr := range v.Parent().Params {
				if pr != v {
					continue
				}
				for _, c := range callers[v.Parent()] {
					if i < len(c.Common().Args) {
						walk(c.Common().Args[i])
					}
				}
			}
		}
	}
	walk(v)
	return out
}

// fieldVal stands for a struct field among the roots of channels.
type fieldVal struct {
	ssa.Value
	f *types.Var
}

var fieldVals = map[*types.Var]*fieldVal{}

func fieldOf(a *ssa.FieldAddr) ssa.Value {
	f := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field)
	if fieldVals[f] == nil {
		fieldVals[f] = &fieldVal{f: f}
	}
	return fieldVals[f]
}

// shared adds the struct types that can be reached through pointers from a value of type t.
func shared(t types.Type, viaPtr bool, seen map[types.Type]bool, out map[*types.Struct]bool) {
	if s, ok := t.Underlying().(*types.Struct); ok && viaPtr {
		out[s] = true
	}
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		shared(u.Elem(), true, seen, out)
	case *types.Slice:
		shared(u.Elem(), true, seen, out)
	case *types.Map:
		shared(u.Elem(), true, seen, out)
		shared(u.Key(), true, seen, out)
	case *types.Array:
		shared(u.Elem(), viaPtr, seen, out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if viaPtr {
				if s, ok := ft.Underlying().(*types.Struct); ok {
					out[s] = true
				}
			}
			shared(ft, viaPtr, seen, out)
		}
	}
}

type access struct {
	write bool
	in    ssa.Instruction
}

// accesses collects a side's uses of fields of shared structs, of globals and of captured cells.
func accesses(s *side, structs map[*types.Struct]bool, cells map[ssa.Value]ssa.Value) map[interface{}][]access {
	out := map[interface{}][]access{}
	loc := func(a ssa.Value) interface{} {
		switch a := a.(type) {
		case *ssa.FieldAddr:
			st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if al, ok := a.X.(*ssa.Alloc); ok && !al.Heap {
				return nil
			}
			if structs[st] {
				return st.Field(a.Field)
			}
		case *ssa.Global:
			if isRepoPath(a.Pkg.Pkg.Path()) {
				return a
			}
		case *ssa.Alloc, *ssa.FreeVar:
			if c := cells[a]; c != nil {
				return c
			}
		}
		return nil
	}
	base := func(v ssa.Value) ssa.Value {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return u.X
		}
		return v
	}
	s.each(func(fn *ssa.Function, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if k := loc(in.Addr); k != nil {
				out[k] = append(out[k], access{true, in})
			}
			if x, ok := in.Addr.(*ssa.IndexAddr); ok {
				if k := loc(base(x.X)); k != nil {
					out[k] = append(out[k], access{true, in})
				}
			}
		case *ssa.MapUpdate:
			if k := loc(base(in.Map)); k != nil {
				out[k] = append(out[k], access{true, in})
			}
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if k := loc(in.X); k != nil {
					out[k] = append(out[k], access{false, in})
				}
			}
		case ssa.CallInstruction:
			for _, a := range in.Common().Args {
				if k := loc(a); k != nil {
					out[k] = append(out[k], access{false, in})
				}
			}
		}
	})
	return out
}

func locName(k interface{}) string {
	switch k := k.(type) {
	case *types.Var:
		return "the field " + k.Name()
	case *ssa.Global:
		return "the variable " + k.Name()
	case *ssa.Alloc:
		return "the variable " + k.Comment
	case *ssa.Parameter:
		return "the variable " + k.Name()
	}
	return "a variable"
}

func edSides(p *Program, r *TaskResult) {
	all := p.mainReach("cmd/ed")
	convs := map[types.Type]bool{}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	var gos []*ssa.Go
	for _, f := range all {
		r.Functions = append(r.Functions, f.String())
		for _, b := range f.Blocks {
			r.Instrs += len(b.Instrs)
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok {
					convs[m.X.Type()] = true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], c)
					}
				}
				if g, ok := in.(*ssa.Go); ok {
					gos = append(gos, g)
				}
			}
		}
	}
	bad := func(kind string, in ssa.Instruction, format string, args ...interface{}) {
		r.Violations = append(r.Violations, ssaAlarm(p, kind, in, format, args...))
	}
	r.Sites["go statements"] = len(gos)

	// the starting side: all it does, and what it does once a goroutine runs
	pkg := p.Pkgs[repoModule+"/cmd/ed"]
	first := &side{name: "the starting goroutine", fns: map[*ssa.Function]bool{pkg.Func("main"): true}, partly: map[*ssa.Function]bool{}}
	p.grow(first, convs)
	sides := []*side{}
	for _, g := range gos {
		body := g.Call.StaticCallee()
		if body == nil {
			r.Sites["go statements on unknown functions"]++
			r.Lossy = append(r.Lossy, ssaAlarm(p, "goroutine", g, "the function started is not known"))
			continue
		}
		s := &side{name: "the goroutine started at " + (&Engine{P: p}).instrPos(g), at: g, fns: map[*ssa.Function]bool{body: true}, partly: map[*ssa.Function]bool{}}
		p.grow(s, convs)
		sides = append(sides, s)

		// several at a time
		sends := ""
		s.each(func(fn *ssa.Function, in ssa.Instruction) {
			if _, ok := in.(*ssa.Send); ok {
				sends = "hand over commands"
			}
			if isOutput(in) {
				s.writes = append(s.writes, in)
			}
		})
		if len(s.writes) > 0 {
			sends = "write on the output"
		}
		r.Obl++
		if loop := cycleThrough(g.Block()); len(loop) > 0 && sends != "" && !waits(loop) {
			bad("order", g, "goroutines started in a loop %s in no fixed order", sends)
		}
	}
	first.each(func(fn *ssa.Function, in ssa.Instruction) {
		if isOutput(in) {
			first.writes = append(first.writes, in)
		}
	})

	for i, s := range sides {
		g := s.at.(*ssa.Go)
		// other sides that run beside it
		rest := &side{name: first.name, fns: map[*ssa.Function]bool{}, partly: map[*ssa.Function]bool{}, ins: map[ssa.Instruction]bool{}}
		work := []ssa.Instruction{g}
		seen := map[ssa.Instruction]bool{}
		for len(work) > 0 {
			in := work[0]
			work = work[1:]
			if seen[in] {
				continue
			}
			seen[in] = true
			after(in, rest.ins)
			rest.partly[in.Parent()] = true
			for _, b := range in.Parent().Blocks { // what is deferred runs at the end
				for _, d := range b.Instrs {
					if d, ok := d.(*ssa.Defer); ok {
						rest.ins[d] = true
						if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
							rest.ins[mc] = true
						}
					}
				}
			}
			for _, c := range callers[in.Parent()] {
				if _, ok := c.(*ssa.Go); !ok {
					work = append(work, c)
				}
			}
		}
		p.grow(rest, convs)
		beside := []*side{rest}
		for j, t := range sides {
			if j != i {
				beside = append(beside, t)
			}
		}

		// its channels
		type chUse struct{ send, close, recv bool }
		uses := func(s *side) map[ssa.Value]*chUse {
			out := map[ssa.Value]*chUse{}
			get := func(v ssa.Value, f func(u *chUse)) {
				for k := range chanRoots(v, callers) {
					if out[k] == nil {
						out[k] = &chUse{}
					}
					f(out[k])
				}
			}
			s.each(func(fn *ssa.Function, in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Send:
					get(in.Chan, func(u *chUse) { u.send = true })
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						get(in.X, func(u *chUse) { u.recv = true })
					}
				case *ssa.Select:
					for _, x := range in.States {
						x := x
						get(x.Chan, func(u *chUse) { u.send = u.send || x.Dir == types.SendOnly; u.recv = u.recv || x.Dir == types.RecvOnly })
					}
				case ssa.CallInstruction:
					if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
						get(in.Common().Args[0], func(u *chUse) { u.close = true })
					}
				}
			})
			return out
		}
		mine := uses(s)
		s.each(func(fn *ssa.Function, in ssa.Instruction) {
			sel, ok := in.(*ssa.Select)
			if !ok {
				return
			}
			r.Obl++
			sends, recvs := 0, 0
			for _, x := range sel.States {
				if x.Dir == types.SendOnly {
					sends++
				} else {
					recvs++
				}
			}
			if sends > 0 && !sel.Blocking {
				bad("lost", in, "a command that cannot be handed over at once is dropped")
			}
		})
		waited := false
		for _, t := range beside {
			theirs := uses(t)
			for k, u := range theirs {
				m := mine[k]
				if m == nil {
					continue
				}
				if m.send && u.send {
					r.Obl++
					bad("order", g, "%s and %s send on the same channel: the order of what they send depends on the schedule", s.name, t.name)
				}
				if u.recv && (m.send || m.close) {
					// does the goroutine write before it does this?
					waited = waited || m.close || !m.recv
				}
			}
		}
		done := false
		s.each(func(fn *ssa.Function, in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && callee(c.Common()) == "(*sync.WaitGroup).Done" {
				done = true
			}
		})
		rest.each(func(fn *ssa.Function, in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && callee(c.Common()) == "(*sync.WaitGroup).Wait" && done {
				waited = true
			}
		})

		// one writer
		r.Obl++
		if len(s.writes) > 0 {
			for _, t := range beside {
				var w []ssa.Instruction
				t.each(func(fn *ssa.Function, in ssa.Instruction) {
					if isOutput(in) {
						w = append(w, in)
					}
				})
				if len(w) > 0 {
					bad("writers", s.writes[0], "%s writes on the output while %s does so too (%s)", s.name, t.name, (&Engine{P: p}).instrPos(w[0]))
				}
			}
			if !waited {
				bad("lost", s.writes[0], "%s writes on the output and nobody waits for it", s.name)
			}
		}

		// no shared state
		structs := map[*types.Struct]bool{}
		tseen := map[types.Type]bool{}
		for _, a := range g.Call.Args {
			shared(a.Type(), false, tseen, structs)
		}
		cells := map[ssa.Value]ssa.Value{}
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			body := mc.Fn.(*ssa.Function)
			for k, b := range mc.Bindings {
				cells[b], cells[body.FreeVars[k]] = b, b
				if pt, ok := b.Type().Underlying().(*types.Pointer); ok {
					shared(pt.Elem(), true, tseen, structs)
				}
			}
		}
		for k := range mine {
			t := k.Type
			var ct types.Type
			if f, ok := k.(*fieldVal); ok {
				ct = f.f.Type()
			} else {
				ct = t()
			}
			if pt, ok := ct.(*types.Pointer); ok {
				ct = pt.Elem()
			}
			if c, ok := ct.Underlying().(*types.Chan); ok {
				shared(c.Elem(), false, map[types.Type]bool{}, structs)
			}
		}
		r.Sites["shared struct types"] += len(structs)
		ours := accesses(s, structs, cells)
		for _, t := range beside {
			theirs := accesses(t, structs, cells)
			var keys []interface{}
			for k := range ours {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return locName(keys[i]) < locName(keys[j]) })
			for _, k := range keys {
				us := theirs[k]
				if len(us) == 0 {
					continue
				}
				r.Obl++
				for _, a := range ours[k] {
					for _, b := range us {
						if !a.write && !b.write || (a.write || b.write) && handedOver(g, a, b, callers) {
							continue
						}
						bad("shared", a.in, "%s uses %s while %s does so too (%s), and one of them changes it", s.name, locName(k), t.name, (&Engine{P: p}).instrPos(b.in))
						goto next
					}
				}
			next:
			}
		}
	}
	r.Proved = len(r.Violations) == 0 && len(r.Lossy) == 0
}

// handedOver: the starting goroutine's use comes after the loop that takes what the other one
// sends, that is, when the other one has ended.
func handedOver(g *ssa.Go, a, b access, callers map[*ssa.Function][]ssa.CallInstruction) bool {
	f := g.Parent()
	if b.in.Parent() != f {
		return false
	}
	// receives of the function, after the go statement
	later := map[ssa.Instruction]bool{}
	after(g, later)
	from := map[ssa.Instruction]bool{}
	after(b.in, from)
	dom := false
	for in := range later {
		u, ok := in.(*ssa.UnOp)
		if ok && u.Op == token.ARROW || isWait(in) {
			if from[in] {
				return false // still receiving
			}
			if in.Block().Dominates(b.in.Block()) {
				dom = true
			}
		}
	}
	return dom
}

func isWait(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && callee(c.Common()) == "(*sync.WaitGroup).Wait"
}

// edSequences: several commands, valid and not, answered one by one.
func edSequences(part, parts int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		pool := []edCmd{
			{a: num(1), op: 'p'}, {sep: ",", op: 'n'}, {a: num(1), op: 'd'}, {a: num(2), op: 'a', text: []string{"first", "second"}}, {a: num(1), op: 'i', text: []string{"new"}},
			{raw: "z", op: '?'}, {raw: "9p", op: '?'}, {a: &edAddr{base: '.'}, op: '='}, {a: num(2), op: 'c', text: []string{"changed"}},
		}
		n := 0
		for i, a := range pool {
			for j, b := range pool {
				for k, c := range pool {
					if (i+2*j+4*k)%3 != 0 {
						continue
					}
					n++
					if n%parts != part {
						continue
					}
					e.edScript(symLines(e, 3), true, []edCmd{a, b, c, {a: &edAddr{base: '.'}, op: '='}, {sep: ",", op: 'p'}, {raw: "z", op: '?'}, {a: &edAddr{base: '$'}, op: '='}})
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:    "C21",
		Pats:  []string{"./cmd/ed"},
		Rule:  "(1) For each go statement of cmd/ed and what it reaches: the goroutine and what runs beside it (the starting goroutine from the go statement on, other goroutines) do not both write on an output; a goroutine that writes is waited for; no two of them send on the same channel and none that sends is started in a loop without being waited for; no send is dropped by a select with a default; no field of a struct reachable from what is captured, passed or sent, no global and no captured variable is used by both and changed by one, uses after the last receive excepted. (2) Followed from main, scripts of seven commands (every third triple of nine edits, queries and impossible commands, then four fixed ones) are answered line by line as a model of the editor says: each command once, in order, with the effects of those before it.",
		Trust: []string{"library functions start no goroutines that write on the output", "part (2) runs the reading goroutine to its end where it starts; that other schedules give the same is the business of part (1)"},
		Tasks: func(p *Program) []Task {
			ts := []Task{{Name: "goroutines", Pkg: "cmd/ed", Direct: edSides}}
			for i := 0; i < 4; i++ {
				ts = append(ts, Task{Name: "sequences, part " + string(rune('1'+i)), Pkg: "cmd/ed", Peeled: true, Par: true, Levels: []int{400}, Run: edSequences(i, 4)})
			}
			return ts
		},
	})
}
