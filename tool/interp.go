package main

// The abstract interpreter: SSA instructions, blocks, loops, calls.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Outcome is how a call ends: 'r' with a value, otherwise the state is gone (exit or panic).
type Outcome struct {
	St *State
	V  Val
}

// ---- running functions

func (e *Engine) depthOf(st *State, fn *ssa.Function) int {
	n := 0
	for _, f := range st.Frames {
		if f.Fn == fn {
			n++
		}
	}
	return n
}

// call runs fn on args and returns the states after it (with the frame popped).
func (e *Engine) call(st *State, fn *ssa.Function, args []Val, bind []Val, site ssa.Instruction) []SV {
	if len(fn.Blocks) == 0 {
		panic(giveUp{"function without body: " + fn.String()})
	}
	if len(st.Frames) > e.maxDepth {
		panic(giveUp{"call depth exceeded at " + fn.String()})
	}
	if e.depthOf(st, fn) > 0 {
		if e.depthOf(st, fn) > 3 {
			if e.unroll > 0 {
				e.dropped = true
				return nil
			}
			panic(giveUp{"recursion without a contract: " + fn.String()})
		}
	}
	fi := e.info(fn)
	if fi.irred {
		panic(giveUp{"irreducible control flow in " + fn.String()})
	}
	e.covFns[fn.RelString(nil)]++
	// only what the caller still needs survives the call
	if k := len(st.Frames); k > 0 && site != nil {
		live := e.liveAfter(site)
		top := st.Frames[k-1].clone()
		for v := range top.Regs {
			if !live[v] {
				delete(top.Regs, v)
			}
		}
		st.Frames[k-1] = top
	}
	fr := &Frame{Fn: fn, Regs: map[ssa.Value]Val{}, Site: site}
	for i, p := range fn.Params {
		fr.Regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.Regs[p] = bind[i]
	}
	st.Frames = append(st.Frames, fr)
	depth := len(st.Frames)
	r := &runner{e: e, fn: fn, fi: fi}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		all[b] = true
	}
	r.region(nil, fn.Blocks[0], []*State{st})
	outs := r.rets
	for i := range outs {
		s := outs[i].St
		if len(s.Frames) != depth {
			panic("frame depth")
		}
		s.Frames = s.Frames[:depth-1]
		// the caller's frame may be shared with other clones
		if depth >= 2 {
			s.Frames = append([]*Frame(nil), s.Frames...)
			s.Frames[depth-2] = s.Frames[depth-2].clone()
		}
	}
	if len(outs) > e.mergeCap {
		if e.unroll > 0 {
			e.dropped = true
			k := len(outs)
			for i := 0; i < e.mergeCap; i++ {
				outs[i] = outs[i*k/e.mergeCap]
			}
			outs = outs[:e.mergeCap]
		} else {
			outs = e.mergeSV(outs)
		}
	}
	if e.afterCall != nil {
		for _, o := range outs {
			e.afterCall(o.St, fn, args, o.V, site)
		}
	}
	return outs
}

type runner struct {
	e    *Engine
	fn   *ssa.Function
	fi   *fnInfo
	rets []SV
}

// region runs the blocks of a loop body (or of the whole function when l is nil) from its header.
// It returns the states that leave the region by block, and those that come back to the header.
func (r *runner) region(l *loopInfo, hdr *ssa.BasicBlock, sts []*State) (exits map[*ssa.BasicBlock][]*State, backs []*State) {
	e := r.e
	exits = map[*ssa.BasicBlock][]*State{}
	pending := map[*ssa.BasicBlock][]*State{hdr: sts}
	push := func(from, to *ssa.BasicBlock, st *State) {
		r.phis(st, from, to)
		switch {
		case l != nil && to == hdr:
			backs = append(backs, st)
		case l == nil || l.blocks[to]:
			pending[to] = append(pending[to], st)
		default:
			exits[to] = append(exits[to], st)
		}
	}
	for _, b := range r.fi.rpo {
		in := pending[b]
		if len(in) == 0 {
			continue
		}
		delete(pending, b)
		if li := r.fi.loops[b]; li != nil && li != l {
			ex := r.stabilise(li, in)
			var tos []*ssa.BasicBlock
			for to := range ex {
				tos = append(tos, to)
			}
			sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
			for _, to := range tos {
				for _, s := range ex[to] {
					switch {
					case l != nil && to == hdr:
						backs = append(backs, s)
					case l == nil || l.blocks[to]:
						pending[to] = append(pending[to], s)
					default:
						exits[to] = append(exits[to], s)
					}
				}
			}
			continue
		}
		if len(in) > e.mergeCap {
			if e.unroll > 0 {
				e.dropped = true
				in = sample(in, e.mergeCap)
			} else {
				in = e.mergeStates(in, r.fi.liveIn[b])
			}
		}
		for _, st := range in {
			for _, o := range r.block(b, st) {
				push(b, o.to, o.st)
			}
		}
	}
	return exits, backs
}

// phis assigns the phi nodes of block to for the edge from -> to.
func (r *runner) phis(st *State, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vs = append(vs, r.e.eval(st, ph.Edges[k]))
	}
	for i, ph := range ps {
		st.top().Regs[ph] = vs[i]
	}
}

type edge struct {
	to *ssa.BasicBlock
	st *State
}

// block runs the instructions of b after its phis.
func (r *runner) block(b *ssa.BasicBlock, st *State) []edge {
	e := r.e
	cur := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		e.covInstr[in] = true
		var out []edge
		switch in := in.(type) {
		case *ssa.Jump:
			for _, s := range cur {
				out = append(out, edge{b.Succs[0], s})
			}
			return out
		case *ssa.If:
			for _, s := range cur {
				c := e.eval(s, in.Cond).(BoolV).E
				switch e.evalB(s, c) {
				case 1:
					out = append(out, edge{b.Succs[0], s})
					continue
				case 0:
					out = append(out, edge{b.Succs[1], s})
					continue
				}
				for _, t := range e.assume(s.clone(), c, true) {
					t.note("%s: %s", e.instrPos(in.Cond.(ssa.Instruction)), e.boolString(c))
					out = append(out, edge{b.Succs[0], t})
				}
				for _, t := range e.assume(s, c, false) {
					t.note("%s: not %s", e.instrPos(in.Cond.(ssa.Instruction)), e.boolString(c))
					out = append(out, edge{b.Succs[1], t})
				}
			}
			return out
		case *ssa.Return:
			for _, s := range cur {
				var v Val
				switch len(in.Results) {
				case 0:
				case 1:
					v = e.eval(s, in.Results[0])
				default:
					t := make(TupleV, len(in.Results))
					for i, x := range in.Results {
						t[i] = e.eval(s, x)
					}
					v = t
				}
				r.rets = append(r.rets, SV{s, v})
			}
			return nil
		case *ssa.Panic:
			for _, s := range cur {
				e.curInstr = in
				e.panicAt(s, "panic", in, "explicit panic: %s", e.valString(e.eval(s, in.X)))
			}
			return nil
		}
		var next []*State
		for _, s := range cur {
			e.steps++
			if e.steps > e.maxSteps {
				panic(giveUp{"step budget exhausted"})
			}
			if e.steps&255 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
				panic(giveUp{"time budget exhausted"})
			}
			if e.steps&63 == 0 && memHigh.Load() {
				panic(giveUp{"memory budget exhausted"})
			}
			e.curInstr = in
			next = append(next, e.exec(s, in)...)
		}
		cur = next
		if len(cur) == 0 {
			return nil
		}
	}
	return nil
}

func (e *Engine) panicAt(st *State, kind string, at ssa.Instruction, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if e.onPanic != nil && e.onPanic(st, kind, msg, at) {
		return
	}
	e.alarm(st, kind, at, "%s", msg)
}

// ---- merging

// normalise prepares a state for comparison: live registers only, equalities applied.
func (e *Engine) normalise(st *State, live map[ssa.Value]bool) []*State {
	if live != nil {
		top := st.top()
		for v := range top.Regs {
			if !live[v] {
				delete(top.Regs, v)
			}
		}
	}
	e.flush(st)
	e.gc(st)
	out := e.concretise(st)
	for _, s := range out {
		e.flush(s)
		e.gc(s)
		e.project(s)
	}
	return out
}

func (e *Engine) mergeStates(in []*State, live map[ssa.Value]bool) []*State {
	var norm []*State
	for _, s := range in {
		norm = append(norm, e.normalise(s, live)...)
	}
	return e.joinBySig(norm)
}

func (e *Engine) joinBySig(norm []*State) []*State {
	old := map[ObjID]bool{}
	groups := map[string][]*State{}
	var order []string
	for _, s := range norm {
		k := e.sig(s, old, false)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		acc := g[0]
		var bind map[Atom]bool
		for _, s := range g[1:] {
			if e.subsumed(s, acc, bind) {
				continue
			}
			n, b, ok := e.join(acc, s, bind, 0)
			if !ok {
				out = append(out, s)
				continue
			}
			e.nJoins++
			acc, bind = n, b
		}
		out = append(out, acc)
	}
	return out
}

func (e *Engine) mergeSV(in []SV) []SV {
	var sts []*State
	for _, o := range in {
		if o.V != nil {
			o.St.Ghost["$ret"] = o.V
		} else {
			delete(o.St.Ghost, "$ret")
		}
		sts = append(sts, e.normalise(o.St, nil)...)
	}
	var out []SV
	for _, s := range e.joinBySig(sts) {
		v := s.Ghost["$ret"]
		delete(s.Ghost, "$ret")
		out = append(out, SV{s, v})
	}
	return out
}

type member struct {
	joins, last int
	sig         string
	st          *State
	bind        map[Atom]bool
	widen       int
	dirty       bool
	exits       map[*ssa.BasicBlock][]*State
	rets        []SV
	alarms      []Alarm
	runs        int
}

// stabilise computes the states at a loop head by iteration with widening.
func (r *runner) stabilise(l *loopInfo, in []*State) map[*ssa.BasicBlock][]*State {
	e := r.e
	e.nLoops++
	if out, ok := r.finite(l, in); ok {
		return out
	}
	if e.unroll > 0 {
		return r.peel(l, in)
	}
	live := r.fi.liveIn[l.hdr]
	members := map[string]*member{}
	var order []string
	old := map[ObjID]bool{}
	add := func(s *State, pre string, coarse bool) {
		k := pre + e.sig(s, old, coarse)
		m := members[k]
		if m == nil {
			members[k] = &member{sig: k, st: s, dirty: true}
			order = append(order, k)
			return
		}
		if e.subsumed(s, m.st, m.bind) {
			return
		}
		why := e.why
		// states that arrive before the member is followed again belong to one step
		m.joins++
		if m.widen == 0 || m.runs > m.last || !e.patient {
			m.widen++
			m.last = m.runs
		}
		n, b, ok := e.join(m.st, s, m.bind, m.widen)
		if !ok {
			k = fmt.Sprintf("%s~%d", k, len(order))
			members[k] = &member{sig: k, st: s, dirty: true}
			order = append(order, k)
			return
		}
		e.nJoins++
		if e.verbose {
			fmt.Printf("   loop %s#%d: member %d widen %d (%s)\n", r.fn.Name(), l.hdr.Index, len(order), m.widen, why)
		}
		if m.widen > 40 || m.joins > 120 {
			panic(giveUp{"loop does not stabilise: " + r.fn.String() + " at " + e.P.pos(r.fn.Pos()) + " (" + why + ")"})
		}
		m.st, m.bind, m.dirty = n, b, true
	}
	for _, s := range in {
		for id := range s.Heap {
			old[id] = true
		}
	}
	pre := ""
	if e.cfgPeel {
		pre = "E:"
	}
	for _, s := range in {
		for _, t := range e.normalise(s, live) {
			add(t, pre, false)
		}
	}
	buf := e.alarms
	for {
		var m *member
		for _, k := range order {
			if members[k].dirty {
				m = members[k]
				break
			}
		}
		if m == nil {
			break
		}
		m.dirty = false
		m.runs++
		var al []Alarm
		e.alarms = &al
		sub := &runner{e: e, fn: r.fn, fi: r.fi}
		st := m.st.clone()
		for i := range st.Frames {
			st.Frames[i] = st.Frames[i].clone()
		}
		exits, backs := sub.region(l, l.hdr, []*State{st})
		m.exits, m.rets, m.alarms = exits, sub.rets, al
		e.alarms = buf
		for _, s := range backs {
			for _, t := range e.normalise(s, live) {
				add(t, "", len(order) > 60)
			}
		}
		if len(order) > 200 {
			panic(giveUp{"too many loop states in " + r.fn.String()})
		}
	}
	e.alarms = buf
	out := map[*ssa.BasicBlock][]*State{}
	for _, k := range order {
		m := members[k]
		for to, ss := range m.exits {
			out[to] = append(out[to], ss...)
		}
		r.rets = append(r.rets, m.rets...)
		for _, a := range m.alarms {
			dup := false
			for _, x := range *e.alarms {
				if x.key() == a.key() {
					dup = true
				}
			}
			if !dup {
				*e.alarms = append(*e.alarms, a)
			}
		}
	}
	return out
}

// sample keeps n of the states, evenly spread.
func sample(in []*State, n int) []*State {
	out := make([]*State, n)
	for i := range out {
		out[i] = in[i*len(in)/n]
	}
	return out
}

// peel follows the first iterations of a loop without merging anything.
func (r *runner) peel(l *loopInfo, in []*State) map[*ssa.BasicBlock][]*State {
	e := r.e
	out := map[*ssa.BasicBlock][]*State{}
	for i := 0; i < e.unroll && len(in) > 0; i++ {
		if len(in) > e.peelCap {
			e.dropped = true
			in = sample(in, e.peelCap)
		}
		sub := &runner{e: e, fn: r.fn, fi: r.fi}
		exits, backs := sub.region(l, l.hdr, in)
		for to, ss := range exits {
			out[to] = append(out[to], ss...)
		}
		r.rets = append(r.rets, sub.rets...)
		in = backs
	}
	if len(in) > 0 {
		e.dropped = true
	}
	return out
}

// finite follows a loop whose exit test is decided in every state at its head: the iterations
// are kept apart and none is left out. false: the loop is not of that kind.
func (r *runner) finite(l *loopInfo, in []*State) (map[*ssa.BasicBlock][]*State, bool) {
	e := r.e
	iff, ok := l.hdr.Instrs[len(l.hdr.Instrs)-1].(*ssa.If)
	if !ok || len(in) > 64 {
		return nil, false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != l.hdr || !isIntT(cond.X.Type()) {
		return nil, false
	}
	shift := shiftLoop(l, cond)
	isK := func(s *State, v ssa.Value) bool {
		x, ok := e.eval(s, v).(Lin)
		return ok && e.n(s, x).IsK()
	}
	na, nx, nr := len(*e.alarms), len(e.exact), len(r.rets)
	undo := func() (map[*ssa.BasicBlock][]*State, bool) {
		*e.alarms, e.exact, r.rets = (*e.alarms)[:na], e.exact[:nx], r.rets[:nr]
		return nil, false
	}
	out := map[*ssa.BasicBlock][]*State{}
	for i := 0; len(in) > 0; i++ {
		if lim := max(100, e.mergeCap); len(in) > lim {
			if e.unroll == 0 {
				return undo()
			}
			e.dropped = true
			in = sample(in, lim)
		}
		if i > 40 {
			return undo()
		}
		for _, s := range in {
			if shift {
				break
			}
			to := map[*ssa.BasicBlock]bool{}
			for _, o := range (&runner{e: e, fn: r.fn, fi: r.fi}).block(l.hdr, s.clone()) {
				to[o.to] = true
				if !isK(o.st, cond.X) || !isK(o.st, cond.Y) {
					return undo()
				}
			}
			if len(to) > 1 {
				return undo()
			}
		}
		sub := &runner{e: e, fn: r.fn, fi: r.fi}
		cl := make([]*State, len(in))
		for k := range in {
			cl[k] = in[k].clone()
		}
		exits, backs := sub.region(l, l.hdr, cl)
		for to, ss := range exits {
			out[to] = append(out[to], ss...)
		}
		r.rets = append(r.rets, sub.rets...)
		in = backs
	}
	return out, true
}

// shiftLoop: the tested value is shifted right by a constant in every iteration, so that the
// number of iterations is bounded by its width.
func shiftLoop(l *loopInfo, cond *ssa.BinOp) bool {
	ph, ok := cond.X.(*ssa.Phi)
	if !ok || ph.Block() != l.hdr || !isUnsigned(ph.Type()) {
		return false
	}
	for i, v := range ph.Edges {
		if !l.blocks[ph.Block().Preds[i]] {
			continue
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.SHR || b.X != ph {
			return false
		}
		if k, ok := b.Y.(*ssa.Const); !ok || k.Value == nil || constant.Sign(k.Value) <= 0 {
			return false
		}
	}
	return true
}

// ---- values

func (e *Engine) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(st, t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return BoolV{bConst(constant.BoolVal(c.Value))}
		case b.Info()&types.IsString != 0:
			return SC(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return K(i)
			}
			if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return bvConst(u, 64)
			}
		}
	}
	return OpqV{A: e.fnAtom("const:"+c.Value.ExactString(), 'o'), T: t}
}

func (e *Engine) eval(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(st, v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Global:
		return e.globalPtr(st, v)
	case *ssa.Builtin:
		return FuncV{Ext: "builtin:" + v.Name()}
	}
	r, ok := st.top().Regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), v.Parent()))
	}
	return r
}

// globalPtr returns a pointer to a package variable.
func (e *Engine) globalPtr(st *State, g *ssa.Global) Val {
	id, ok := e.globals[g]
	if !ok {
		e.nextObj++
		id = e.nextObj
		e.globals[g] = id
		e.globalOrder = append(e.globalOrder, g)
	}
	if st.Heap[id] == nil {
		t := g.Type().(*types.Pointer).Elem()
		o := &Obj{Typ: t, Site: g.String()}
		st.Heap[id] = o
		if e.globalVal != nil {
			if v, ok := e.globalVal(st, g); ok {
				o.V = v
				return PtrV{Obj: id}
			}
		}
		if isRepoPath(g.Pkg.Pkg.Path()) {
			if at, ok := t.Underlying().(*types.Array); ok {
				o.Arr = &ArrC{Elem: at.Elem(), Segs: []Seg{{Kind: 'z', Len: K(at.Len())}}}
			} else {
				o.V = e.zero(st, t)
			}
		} else {
			o.V = e.extGlobal(st, g, t)
		}
	}
	return PtrV{Obj: id}
}

func set(st *State, v ssa.Value, x Val) { st.top().Regs[v] = x }

func (e *Engine) setAll(rs []SV, v ssa.Value) []*State {
	var out []*State
	for _, r := range rs {
		set(r.St, v, r.V)
		out = append(out, r.St)
	}
	return out
}

// require splits off the states in which cond fails, as a panic.
func (e *Engine) require(st *State, cond *BExpr, kind string, at ssa.Instruction, format string, args ...interface{}) []*State {
	e.nObl++
	switch e.evalB(st, cond) {
	case 1:
		return []*State{st}
	}
	bad := e.assume(st.clone(), cond, false)
	for _, b := range bad {
		if !e.feasible(b) {
			continue
		}
		e.panicAt(b, kind, at, format, args...)
		break
	}
	return e.assume(st, cond, true)
}

// exec runs one instruction.
func (e *Engine) exec(st *State, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := &Obj{Typ: t, Site: e.instrPos(in)}
		if at, ok := t.Underlying().(*types.Array); ok {
			o.Arr = &ArrC{Elem: at.Elem(), Segs: []Seg{{Kind: 'z', Len: K(at.Len())}}}
		} else {
			o.V = e.zero(st, t)
		}
		set(st, in, PtrV{Obj: e.alloc(st, o)})
		return []*State{st}
	case *ssa.BinOp:
		return e.setAll(e.binop(st, in), in)
	case *ssa.UnOp:
		return e.setAll(e.unop(st, in), in)
	case *ssa.ChangeType:
		v := e.eval(st, in.X)
		if o, ok := v.(OpqV); ok {
			v = OpqV{o.A, in.Type()}
		}
		set(st, in, v)
		return []*State{st}
	case *ssa.ChangeInterface:
		set(st, in, e.eval(st, in.X))
		return []*State{st}
	case *ssa.MakeInterface:
		set(st, in, IfaceV{in.X.Type(), e.eval(st, in.X)})
		return []*State{st}
	case *ssa.Convert:
		return e.setAll(e.convert(st, e.eval(st, in.X), in.X.Type(), in.Type()), in)
	case *ssa.Extract:
		v := e.eval(st, in.Tuple)
		t, ok := v.(TupleV)
		if !ok {
			panic(giveUp{fmt.Sprintf("extract from %T at %s", v, e.instrPos(in))})
		}
		set(st, in, t[in.Index])
		return []*State{st}
	case *ssa.Field:
		v := e.eval(st, in.X)
		if s, ok := v.(StructV); ok {
			set(st, in, s.F[in.Field])
		} else {
			set(st, in, e.havoc(st, in.Type(), "field"))
		}
		return []*State{st}
	case *ssa.FieldAddr:
		var out []*State
		for _, r := range e.nonNil(st, e.eval(st, in.X), in) {
			switch p := r.V.(type) {
			case PtrV:
				set(r.St, in, PtrV{p.Obj, appendPath(p.Path, PE{F: in.Field})})
			case NodeV:
				set(r.St, in, NodeV{p.List, p.K, appendPath(p.Path, PE{F: in.Field})})
			default:
				// a field of an unknown object: an unknown cell
				t := in.Type().(*types.Pointer).Elem()
				id := e.alloc(r.St, &Obj{Typ: t, V: e.havoc(r.St, t, "field")})
				set(r.St, in, PtrV{Obj: id})
			}
			out = append(out, r.St)
		}
		return out
	case *ssa.IndexAddr:
		return e.indexAddr(st, in)
	case *ssa.Index:
		return e.setAll(e.index(st, e.eval(st, in.X), e.asLin(e.eval(st, in.Index)), in, in.Type()), in)
	case *ssa.Lookup:
		return e.setAll(e.lookupInstr(st, in), in)
	case *ssa.Slice:
		return e.setAll(e.sliceInstr(st, in), in)
	case *ssa.SliceToArrayPointer:
		panic(giveUp{"slice to array pointer conversion"})
	case *ssa.MakeSlice:
		n := e.asLin(e.eval(st, in.Len))
		c := e.asLin(e.eval(st, in.Cap))
		t := in.Type().Underlying().(*types.Slice)
		var out []*State
		for _, s := range e.require(st, bAnd(bGe(n), bGe(c.Sub(n))), "makeslice", in, "make with a negative or too large length") {
			set(s, in, e.newSlice(s, t.Elem(), []Seg{{Kind: 'z', Len: n}}))
			out = append(out, s)
		}
		return out
	case *ssa.MakeMap:
		t := in.Type().Underlying().(*types.Map)
		id := e.alloc(st, &Obj{Typ: in.Type(), Map: &MapC{Key: t.Key(), Val: t.Elem(), N: K(0)}})
		set(st, in, MapV{id})
		return []*State{st}
	case *ssa.MakeChan:
		id := e.alloc(st, &Obj{Typ: in.Type(), V: ModelV{Kind: "chan", F: map[string]Val{}}})
		set(st, in, ChanV{id})
		return []*State{st}
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range in.Bindings {
			b = append(b, e.eval(st, x))
		}
		set(st, in, FuncV{Fn: in.Fn.(*ssa.Function), Bind: b})
		return []*State{st}
	case *ssa.MapUpdate:
		m := e.eval(st, in.Map)
		k, v := e.eval(st, in.Key), e.eval(st, in.Value)
		mv, ok := m.(MapV)
		if !ok {
			return []*State{st}
		}
		if mv.Obj == 0 {
			e.panicAt(st, "nilmap", in, "assignment to entry in nil map")
			return nil
		}
		k = e.ifaceKey(k)
		return e.mapUpdate(st, mv.Obj, k, v)
	case *ssa.Range:
		switch x := e.eval(st, in.X).(type) {
		case StrV:
			set(st, in, &MapIter{IsStr: true, Str: x})
		case MapV:
			set(st, in, &MapIter{Map: x.Obj})
		default:
			panic(giveUp{fmt.Sprintf("range over %T", x)})
		}
		return []*State{st}
	case *ssa.Next:
		return e.next(st, in)
	case *ssa.Store:
		return e.storeInstr(st, e.eval(st, in.Addr), e.eval(st, in.Val), in)
	case *ssa.TypeAssert:
		return e.setAll(e.typeAssert(st, in), in)
	case *ssa.Call:
		return e.setAll(e.callInstr(st, &in.Call, in), in)
	case *ssa.Defer:
		fr := st.top()
		d := Deferred{Call: in.Call, Pos: in}
		if in.Call.IsInvoke() {
			d.Fn = e.eval(st, in.Call.Value)
		} else {
			d.Fn = e.eval(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.Args = append(d.Args, e.eval(st, a))
		}
		fr.Defers = append(fr.Defers[:len(fr.Defers):len(fr.Defers)], d)
		return []*State{st}
	case *ssa.RunDefers:
		return e.runDefers(st)
	case *ssa.Go:
		return e.goInstr(st, in)
	case *ssa.Send:
		ev := e.eval(st, in.Chan)
		return e.send(st, ev, e.eval(st, in.X), in)
	case *ssa.Select:
		panic(giveUp{"select statement"})
	}
	panic(giveUp{fmt.Sprintf("unsupported instruction %T at %s", in, e.instrPos(in))})
}

func appendPath(p []PE, x PE) []PE { return append(append([]PE(nil), p...), x) }

func (e *Engine) asLin(v Val) Lin {
	switch v := v.(type) {
	case Lin:
		return v
	case BVV:
		return e.bvToLin(v)
	case OpqV:
		return LA(e.fnAtom("opqint", 'i', v))
	}
	panic(giveUp{fmt.Sprintf("integer expected, have %T", v)})
}

// nonNil checks that a pointer can be dereferenced.
func (e *Engine) nonNil(st *State, v Val, at ssa.Instruction) []SV {
	switch p := v.(type) {
	case PtrV:
		e.nObl++
		if p.Obj == 0 {
			e.panicAt(st, "nilderef", at, "nil pointer dereference")
			return nil
		}
		return one(st, v)
	case NodeV:
		return one(st, v)
	case OpqV:
		var out []SV
		c := bNot(e.boolTerm("isnil", p))
		for _, s := range e.require(st, c, "nilderef", at, "possible nil pointer dereference of %s", e.atomName(p.A)) {
			out = append(out, SV{s, v})
		}
		return out
	case ModelV:
		return one(st, v)
	}
	return one(st, v)
}

func (e *Engine) runDefers(st *State) []*State {
	cur := []*State{st}
	for {
		var next []*State
		busy := false
		for _, s := range cur {
			fr := s.top()
			n := len(fr.Defers)
			if n == 0 {
				next = append(next, s)
				continue
			}
			busy = true
			d := fr.Defers[n-1]
			fr.Defers = fr.Defers[: n-1 : n-1]
			for _, r := range e.callVal(s, &d.Call, d.Fn, d.Args, d.Pos) {
				next = append(next, r.St)
			}
		}
		cur = next
		if !busy {
			return cur
		}
	}
}

func (e *Engine) goInstr(st *State, in *ssa.Go) []*State {
	if e.goSync {
		return e.runGo(st, in)
	}
	if e.onEvent != nil {
		return e.onEvent(st, "go", nil, in)
	}
	panic(giveUp{"go statement"})
}

func (e *Engine) send(st *State, ch Val, v Val, at ssa.Instruction) []*State {
	if e.goSync {
		return e.chanSend(st, ch, v, at)
	}
	if e.onEvent != nil {
		return e.onEvent(st, "send", []Val{ch, v}, at)
	}
	return []*State{st}
}

// ---- loads and stores

func (e *Engine) unop(st *State, in *ssa.UnOp) []SV {
	x := e.eval(st, in.X)
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok && !isRepoPath(g.Pkg.Pkg.Path()) {
			_ = g
		}
		var out []SV
		for _, r := range e.nonNil(st, x, in) {
			switch p := r.V.(type) {
			case PtrV:
				ls := e.load(r.St, p)
				if len(ls) == 0 && r.St.Heap[p.Obj] != nil {
					// not representable: an unknown value
					ls = one(r.St, e.havoc(r.St, in.Type(), "load"))
				}
				for _, q := range ls {
					q.V = e.copyVal(q.St, q.V, in.Type())
					out = append(out, q)
				}
			case NodeV:
				out = append(out, e.loadNode(r.St, p, in.Type())...)
			default:
				out = append(out, SV{r.St, e.havoc(r.St, in.Type(), "deref")})
			}
		}
		return out
	case token.SUB:
		return one(st, e.wrapInt(st, e.asLin(x).Neg(), in.Type()))
	case token.NOT:
		return one(st, BoolV{bNot(x.(BoolV).E)})
	case token.XOR:
		w := intWidth(in.Type())
		if l, ok := x.(Lin); ok && l.IsK() && !isUnsigned(in.Type()) {
			return one(st, K(^l.C))
		}
		b := e.toBV(x, w)
		n := make([]BitX, w)
		for i := range n {
			n[i] = BitX{C: !b.Bits[i].C, V: b.Bits[i].V}
		}
		return one(st, BVV{n})
	case token.ARROW:
		if e.goSync {
			return e.chanRecv(st, x, in)
		}
		if e.onEvent != nil {
			var out []SV
			for _, s := range e.onEvent(st, "recv", []Val{x}, in) {
				v, ok := s.Ghost["$recv"]
				if !ok {
					v = e.havoc(s, in.Type(), "recv")
				}
				delete(s.Ghost, "$recv")
				out = append(out, SV{s, v})
			}
			return out
		}
		return one(st, e.havoc(st, in.Type(), "recv"))
	}
	panic(giveUp{"unary operator " + in.Op.String()})
}

// copyVal: loading an array value copies it.
func (e *Engine) copyVal(st *State, v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Array); ok {
		if s, ok := v.(SliceV); ok && s.Arr != 0 {
			o := st.Heap[s.Arr]
			return SliceV{Arr: e.alloc(st, &Obj{Typ: o.Typ, Arr: o.Arr}), Len: s.Len}
		}
	}
	return v
}

func (e *Engine) storeInstr(st *State, addr, v Val, at ssa.Instruction) []*State {
	var out []*State
	for _, r := range e.nonNil(st, addr, at) {
		switch p := r.V.(type) {
		case PtrV:
			out = append(out, e.store(r.St, p, v)...)
		case NodeV:
			out = append(out, e.storeNode(r.St, p, v)...)
		default:
			out = append(out, r.St)
		}
	}
	return out
}

func (e *Engine) indexAddr(st *State, in *ssa.IndexAddr) []*State {
	x := e.eval(st, in.X)
	idx := e.asLin(e.eval(st, in.Index))
	var out []*State
	switch p := x.(type) {
	case SliceV:
		for _, s := range e.require(st, bAnd(bGe(idx), bGe(p.Len.Sub(idx).AddK(-1))), "index", in, "index %s out of range [0,%s)", e.linString(e.n(st, idx)), e.linString(e.n(st, p.Len))) {
			set(s, in, PtrV{p.Arr, []PE{{IsI: true, Idx: p.Off.Add(idx)}}})
			out = append(out, s)
		}
	case PtrV: // pointer to array
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		for _, s := range e.require(st, bAnd(bGe(idx), bGe(K(at.Len()).Sub(idx).AddK(-1))), "index", in, "index %s out of range [0,%d)", e.linString(e.n(st, idx)), at.Len()) {
			set(s, in, PtrV{p.Obj, appendPath(p.Path, PE{IsI: true, Idx: idx})})
			out = append(out, s)
		}
	default:
		// an unknown slice
		n := LA(e.fnAtom("opqlen", 'i', x))
		e.addGe(st, n)
		for _, s := range e.require(st, bAnd(bGe(idx), bGe(n.Sub(idx).AddK(-1))), "index", in, "index may be out of range of an unknown slice") {
			t := in.Type().(*types.Pointer).Elem()
			id := e.alloc(s, &Obj{Typ: t, V: e.havoc(s, t, "elem")})
			set(s, in, PtrV{Obj: id})
			out = append(out, s)
		}
	}
	return out
}

func (e *Engine) index(st *State, x Val, idx Lin, at ssa.Instruction, t types.Type) []SV {
	var out []SV
	switch p := x.(type) {
	case SliceV: // array value
		for _, s := range e.require(st, bAnd(bGe(idx), bGe(p.Len.Sub(idx).AddK(-1))), "index", at, "index out of range") {
			out = append(out, e.readElem(s, p.Arr, p.Off.Add(idx))...)
		}
	case StrV:
		p = e.normStr(st, p)
		for _, s := range e.require(st, bAnd(bGe(idx), bGe(e.strLen(p).Sub(idx).AddK(-1))), "index", at, "index %s out of range of string %s", e.linString(e.n(st, idx)), e.valString(p)) {
			out = append(out, SV{s, e.byteAt(e.normStr(s, p), e.n(s, idx))})
		}
	default:
		return one(st, e.havoc(st, t, "elem"))
	}
	return out
}

func (e *Engine) ifaceKey(k Val) Val {
	return k
}

func (e *Engine) lookupInstr(st *State, in *ssa.Lookup) []SV {
	x := e.eval(st, in.X)
	k := e.eval(st, in.Index)
	if _, ok := x.(StrV); ok {
		return e.index(st, x, e.asLin(k), in, in.Type())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	res := func(s *State, v Val, ok bool) SV {
		if in.CommaOk {
			return SV{s, TupleV{v, BoolV{bConst(ok)}}}
		}
		return SV{s, v}
	}
	m, ok := x.(MapV)
	if !ok {
		v := e.havoc(st, mt.Elem(), "lookup")
		if in.CommaOk {
			return one(st, TupleV{v, BoolV{e.newBool("found")}})
		}
		return one(st, v)
	}
	if m.Obj == 0 {
		return []SV{res(st, e.zero(st, mt.Elem()), false)}
	}
	var out []SV
	for _, r := range e.lookup(st, m.Obj, e.ifaceKey(k)) {
		out = append(out, res(r.St, r.V, r.Found))
	}
	return out
}

func (e *Engine) sliceInstr(st *State, in *ssa.Slice) []SV {
	x := e.eval(st, in.X)
	lo := K(0)
	if in.Low != nil {
		lo = e.asLin(e.eval(st, in.Low))
	}
	var hi Lin
	hasHi := in.High != nil
	if hasHi {
		hi = e.asLin(e.eval(st, in.High))
	}
	switch p := x.(type) {
	case StrV:
		p = e.normStr(st, p)
		n := e.strLen(p)
		if !hasHi {
			hi = n
		}
		var out []SV
		for _, s := range e.require(st, bAnd(bGe(lo), bGe(hi.Sub(lo)), bGe(n.Sub(hi))), "slice", in, "string bounds [%s:%s] out of range of length %s", e.linString(e.n(st, lo)), e.linString(e.n(st, hi)), e.linString(e.n(st, n))) {
			out = append(out, SV{s, e.subStr(e.normStr(s, p), e.n(s, lo), e.n(s, hi))})
		}
		return out
	case SliceV:
		if !hasHi {
			hi = p.Len
		}
		// The capacity beyond the length is not used: a re-slice past the length is reported.
		var out []SV
		for _, s := range e.require(st, bAnd(bGe(lo), bGe(hi.Sub(lo)), bGe(p.Len.Sub(hi))), "slice", in, "slice bounds [%s:%s] out of range of length %s", e.linString(e.n(st, lo)), e.linString(e.n(st, hi)), e.linString(e.n(st, p.Len))) {
			out = append(out, SV{s, SliceV{p.Arr, p.Off.Add(lo), hi.Sub(lo), p.Max && !hasHi || in.Max != nil}})
		}
		return out
	case PtrV:
		if p.Obj == 0 {
			e.panicAt(st, "nilderef", in, "slice of a nil array pointer")
			return nil
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !hasHi {
			hi = K(at.Len())
		}
		obj := p.Obj
		if len(p.Path) > 0 {
			ls := e.load(st, p)
			if len(ls) != 1 {
				panic(giveUp{"slice of a nested array"})
			}
			obj = ls[0].V.(SliceV).Arr
		}
		var out []SV
		for _, s := range e.require(st, bAnd(bGe(lo), bGe(hi.Sub(lo)), bGe(K(at.Len()).Sub(hi))), "slice", in, "slice bounds out of range of array") {
			out = append(out, SV{s, SliceV{obj, lo, hi.Sub(lo), in.Max != nil}})
		}
		return out
	}
	return one(st, e.havoc(st, in.Type(), "slice"))
}

func (e *Engine) next(st *State, in *ssa.Next) []*State {
	it := e.eval(st, in.Iter).(*MapIter)
	var out []*State
	if it.IsStr {
		s := e.normStr(st, it.Str)
		n := e.strLen(s)
		more := bGe(n.Sub(it.Pos).AddK(-1))
		for _, t := range e.assume(st.clone(), more, true) {
			pos := e.n(t, it.Pos)
			for _, r := range e.runeAt(t, e.normStr(t, s), pos) {
				tv := r.V.(TupleV)
				ni := *it
				ni.Pos = pos.Add(tv[1].(Lin))
				r.St.top().Regs[in.Iter] = &ni
				set(r.St, in, TupleV{BoolV{bTrue}, pos, tv[0]})
				out = append(out, r.St)
			}
		}
		for _, t := range e.assume(st, more, false) {
			set(t, in, TupleV{BoolV{bFalse}, K(0), K(0)})
			out = append(out, t)
		}
		return out
	}
	tt := in.Type().(*types.Tuple)
	done := func(s *State) {
		set(s, in, TupleV{BoolV{bFalse}, e.zeroOr(s, tt.At(1).Type()), e.zeroOr(s, tt.At(2).Type())})
		out = append(out, s)
	}
	if it.Map == 0 {
		done(st)
		return out
	}
	mc := st.Heap[it.Map].Map
	rest := false
	known := mc.Known
	if e.mapDir == 2 {
		known = nil
		for i := len(mc.Known) - 1; i >= 0; i-- {
			known = append(known, mc.Known[i])
		}
	}
	if e.mapDir > 2 {
		known = append(known[:0:0], mc.Known...)
		sort.SliceStable(known, func(i, j int) bool { return (keyOf(known[i].K) < keyOf(known[j].K)) == (e.mapDir == 3) })
	}
	for _, ent := range known {
		if it.seen(ent.K) || rest && e.mapDir > 0 {
			continue
		}
		rest = true
		s := st.clone()
		ni := *it
		ni.Visited = append(append([]string(nil), it.Visited...), keyOf(ent.K))
		sort.Strings(ni.Visited)
		s.top().Regs[in.Iter] = &ni
		set(s, in, TupleV{BoolV{bTrue}, ent.K, ent.V})
		out = append(out, s)
	}
	if mc.Rest != nil && !mc.Rest.Bot {
		s := st.clone()
		if k, v, ok := e.instantiate(s, mc.Rest, Lin{}, mc.Val, mc.Key); ok {
			okAll := true
			for _, ent := range mc.Known { // another key
				r := e.assume(s, e.keyEq(ent.K, k), false)
				if len(r) == 0 {
					okAll = false
					break
				}
				s = r[0]
			}
			if okAll {
				ni := *it
				ni.Sum = true
				s.top().Regs[in.Iter] = &ni
				set(s, in, TupleV{BoolV{bTrue}, k, v})
				out = append(out, s)
			}
		}
	}
	if !rest {
		done(st)
	}
	return out
}

func (e *Engine) zeroOr(st *State, t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return K(0)
	}
	return e.zero(st, t)
}

// pinned is the constant that the facts fix a value to, if they do.
func (e *Engine) pinned(st *State, l Lin) Lin {
	l = e.n(st, l)
	if l.IsK() {
		return l
	}
	if lo, hi, a, b := e.boundsOf(st, l, nil); a && b && lo == hi {
		return K(lo)
	}
	return l
}

// runeAt decodes the rune at pos: (rune, width).
func (e *Engine) runeAt(st *State, s StrV, pos Lin) []SV {
	if pos.IsK() {
		if c, ok := s.Const(); ok {
			for i, r := range c {
				if int64(i) == pos.C {
					w := int64(len(string(r)))
					if r == 0xFFFD && !strings.HasPrefix(c[i:], "\uFFFD") {
						w = 1
					}
					return one(st, TupleV{K(int64(r)), K(w)})
				}
			}
		}
	}
	if pos.IsK() && len(s.P) > 0 && !s.P[0].V && pos.C >= 0 && pos.C < int64(len(s.P[0].C)) && utf8.FullRuneInString(s.P[0].C[pos.C:]) {
		r, w := utf8.DecodeRuneInString(s.P[0].C[pos.C:])
		return one(st, TupleV{K(int64(r)), K(int64(w))})
	}
	if pos.IsK() && len(s.P) > 1 { // the part it lies in
		q, p := StrV{s.P}, pos.C
		for len(q.P) > 1 {
			n := e.pinned(st, e.strLen(StrV{q.P[:1]}))
			if !n.IsK() || n.C > p {
				break
			}
			p -= n.C
			q = StrV{q.P[1:]}
		}
		if len(q.P) < len(s.P) {
			return e.runeAt(st, q, K(p))
		}
	}
	if pos.IsK() && pos.C == 0 && len(s.P) > 1 {
		if n := e.pinned(st, e.strLen(StrV{s.P[:1]})); n.IsK() && n.C == 1 {
			b := e.n(st, e.byteAt(StrV{s.P[:1]}, pos))
			if e.evalB(st, bGe(K(127).Sub(b))) == 1 {
				return one(st, TupleV{b, K(1)})
			}
		}
	}
	b := e.byteAt(s, pos)
	var out []SV
	ascii := bGe(K(127).Sub(b))
	for _, t := range e.assume(st.clone(), ascii, true) {
		out = append(out, SV{t, TupleV{b, K(1)}})
	}
	for _, t := range e.assume(st, ascii, false) {
		r := e.fnAtom("runeval", 'i', s, pos)
		e.atoms[r].HasB, e.atoms[r].Lo, e.atoms[r].Hi = true, 128, 0x10FFFF
		w := e.fnAtom("runewidth", 'i', s, pos)
		e.atoms[w].HasB, e.atoms[w].Lo, e.atoms[w].Hi = true, 1, 4
		if !e.addGe(t, e.strLen(s).Sub(pos).Sub(LA(w))) {
			continue
		}
		out = append(out, SV{t, TupleV{LA(r), LA(w)}})
	}
	return out
}

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert) []SV {
	x := e.eval(st, in.X)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	fail := func(s *State) []SV {
		if in.CommaOk {
			return one(s, TupleV{e.zero(s, in.AssertedType), BoolV{bFalse}})
		}
		e.panicAt(s, "typeassert", in, "type assertion to %s fails", in.AssertedType)
		return nil
	}
	okv := func(s *State, v Val) []SV {
		if in.CommaOk {
			return one(s, TupleV{v, BoolV{bTrue}})
		}
		return one(s, v)
	}
	switch v := x.(type) {
	case IfaceV:
		if v.T == nil {
			return fail(st)
		}
		if toIface {
			if types.Implements(v.T, in.AssertedType.Underlying().(*types.Interface)) {
				return okv(st, v)
			}
			if m, ok := v.V.(ErrV); ok {
				_ = m
				var out []SV
				out = append(out, fail(st.clone())...)
				return append(out, okv(st, v)...)
			}
			return fail(st)
		}
		if types.Identical(v.T, in.AssertedType) {
			return okv(st, v.V)
		}
		if _, ok := v.V.(ErrV); ok { // an error whose concrete type is not modelled
			var out []SV
			p := e.newBool("isPathError")
			for _, s := range e.assume(st.clone(), p, false) {
				out = append(out, fail(s)...)
			}
			if !strings.Contains(v.T.String(), "errorString") {
				for _, s := range e.assume(st, p, true) {
					out = append(out, okv(s, e.havoc(s, in.AssertedType, "asserted"))...)
				}
			}
			return out
		}
		return fail(st)
	}
	// unknown dynamic type
	var out []SV
	p := e.newBool("typeis")
	for _, s := range e.assume(st.clone(), p, true) {
		out = append(out, okv(s, e.havoc(s, in.AssertedType, "asserted"))...)
	}
	for _, s := range e.assume(st, p, false) {
		out = append(out, fail(s)...)
	}
	return out
}

// ---- calls

func (e *Engine) callInstr(st *State, c *ssa.CallCommon, at ssa.Instruction) []SV {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.eval(st, a))
	}
	return e.callVal(st, c, e.eval(st, c.Value), args, at)
}

func (e *Engine) callVal(st *State, c *ssa.CallCommon, fv Val, args []Val, at ssa.Instruction) []SV {
	rt := resultType(c.Signature())
	if c.IsInvoke() {
		return e.invoke(st, fv, c.Method, args, rt, at)
	}
	switch f := fv.(type) {
	case FuncV:
		if strings.HasPrefix(f.Ext, "builtin:") {
			return e.builtin(st, f.Ext[len("builtin:"):], args, c, at)
		}
		if f.Fn != nil {
			return e.callFn(st, f.Fn, args, f.Bind, at)
		}
		if f.Ext != "" {
			if m := e.models[f.Ext]; m != nil {
				return m(&Call{E: e, St: st, Name: f.Ext, Args: append(append([]Val(nil), f.Bind...), args...), Typ: rt, At: at, Sig: c.Signature()})
			}
			return e.unknown(&Call{E: e, St: st, Name: f.Ext, Args: args, Typ: rt, At: at, Sig: c.Signature()})
		}
		e.panicAt(st, "nilfunc", at, "call of a nil function")
		return nil
	}
	return e.unknown(&Call{E: e, St: st, Name: "func value", Args: args, Typ: rt, At: at, Sig: c.Signature()})
}

func resultType(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 0:
		return nil
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

var fnNames sync.Map

func fnName(fn *ssa.Function) string {
	if n, ok := fnNames.Load(fn); ok {
		return n.(string)
	}
	n := fnName1(fn)
	fnNames.Store(fn, n)
	return n
}

func fnName1(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// callFn calls a known function: the repository's by its body, others by their model.
func (e *Engine) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, at ssa.Instruction) []SV {
	name := fnName(fn)
	rt := resultType(fn.Signature)
	if m := e.contracts[name]; m != nil {
		return m(&Call{E: e, St: st, Fn: fn, Name: name, Args: args, Typ: rt, At: at, Sig: fn.Signature})
	}
	if v, ok := e.fold(st, name, args); ok {
		return one(st, v)
	}
	if m := e.models[name]; m != nil {
		return m(&Call{E: e, St: st, Fn: fn, Name: name, Args: args, Typ: rt, At: at, Sig: fn.Signature})
	}
	if len(fn.Blocks) > 0 && (fn.Pkg == nil || isRepoPath(fn.Pkg.Pkg.Path()) || fn.Synthetic != "") {
		if e.beforeCall != nil {
			e.beforeCall(st, fn, args, at)
		}
		if out, ok := e.recCall(st, fn, args, bind, at); ok {
			return out
		}
		return e.call(st, fn, args, bind, at)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		return one(st, nil)
	}
	return e.unknown(&Call{E: e, St: st, Fn: fn, Name: name, Args: args, Typ: rt, At: at, Sig: fn.Signature})
}

// unknown is a call without a model: any result.
func (e *Engine) unknown(c *Call) []SV {
	e.unmodelled[c.Name]++
	c.St.Lossy = "unmodelled " + c.Name
	if c.Typ == nil {
		return one(c.St, nil)
	}
	return one(c.St, e.havoc(c.St, c.Typ, shortName(c.Name)))
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (e *Engine) invoke(st *State, recv Val, m *types.Func, args []Val, rt types.Type, at ssa.Instruction) []SV {
	switch v := recv.(type) {
	case IfaceV:
		if v.T == nil {
			e.panicAt(st, "nilderef", at, "method call on a nil interface")
			return nil
		}
		if er, ok := v.V.(ErrV); ok && m.Name() == "Error" {
			if len(er.Msg.P) > 0 {
				return one(st, er.Msg)
			}
			return one(st, e.newStr("errmsg"))
		}
		fn := e.P.Prog.LookupMethod(v.T, m.Pkg(), m.Name())
		if fn != nil {
			return e.callFn(st, fn, append([]Val{v.V}, args...), nil, at)
		}
	case OpqV:
		c := bNot(e.boolTerm("isnil", v))
		var out []SV
		for _, s := range e.require(st, c, "nilderef", at, "method call on a possibly nil interface") {
			out = append(out, e.unknown(&Call{E: e, St: s, Name: "invoke " + m.FullName(), Args: args, Typ: rt, At: at})...)
		}
		return out
	}
	return e.unknown(&Call{E: e, St: st, Name: "invoke " + m.FullName(), Args: args, Typ: rt, At: at})
}

func (e *Engine) builtin(st *State, name string, args []Val, c *ssa.CallCommon, at ssa.Instruction) []SV {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case StrV:
			return one(st, e.strLen(e.normStr(st, x)))
		case SliceV:
			return one(st, x.Len)
		case MapV:
			if x.Obj == 0 {
				return one(st, K(0))
			}
			return one(st, st.Heap[x.Obj].Map.N)
		}
		n := e.newInt("len")
		e.addGe(st, n)
		return one(st, n)
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			n := e.newInt("cap")
			e.addGe(st, n.Sub(x.Len))
			return one(st, n)
		}
		n := e.newInt("cap")
		e.addGe(st, n)
		return one(st, n)
	case "append":
		return e.appendB(st, args, c)
	case "copy":
		return e.copyB(st, args, at)
	case "delete":
		if m, ok := args[0].(MapV); ok && m.Obj != 0 {
			var out []SV
			for _, s := range e.mapDelete(st, m.Obj, args[1]) {
				out = append(out, SV{s, nil})
			}
			return out
		}
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "close":
		if e.goSync {
			var out []SV
			for _, s := range e.chanClose(st, args[0], at) {
				out = append(out, SV{s, nil})
			}
			return out
		}
		if e.onEvent != nil {
			var out []SV
			for _, s := range e.onEvent(st, "close", args, at) {
				out = append(out, SV{s, nil})
			}
			return out
		}
		return one(st, nil)
	case "recover":
		return one(st, IfaceV{})
	case "min", "max":
		acc := []SV{{st, args[0]}}
		for _, b := range args[1:] {
			var next []SV
			for _, s := range acc {
				x, y := e.asLin(s.V), e.asLin(b)
				if name == "max" {
					x, y = x.Neg(), y.Neg()
				}
				c := bGe(y.Sub(x))
				for _, t := range e.assume(s.St.clone(), c, true) {
					next = append(next, SV{t, s.V})
				}
				for _, t := range e.assume(s.St, c, false) {
					next = append(next, SV{t, b})
				}
			}
			acc = next
		}
		return acc
	case "clear":
		if m, ok := args[0].(MapV); ok && m.Obj != 0 {
			mc := *st.Heap[m.Obj].Map
			mc.Known, mc.Rest, mc.N = nil, nil, K(0)
			e.setMap(st, m.Obj, &mc)
			return one(st, nil)
		}
	case "ssa:wrapnilchk":
		var out []SV
		for _, r := range e.nonNil(st, args[0], at) {
			out = append(out, r)
		}
		return out
	}
	panic(giveUp{"builtin " + name})
}

// segsOf lists the segments of a slice or string.
func (e *Engine) segsOf(st *State, v Val) []ViewR {
	switch x := v.(type) {
	case SliceV:
		return e.view(st, x)
	case StrV:
		n := e.strLen(e.normStr(st, x))
		if n.Is0() {
			return []ViewR{{st, nil}}
		}
		return []ViewR{{st, []Seg{{Kind: 'b', V: e.normStr(st, x), Len: n}}}}
	}
	n := LA(e.fnAtom("opqlen", 'i', v))
	e.addGe(st, n)
	return []ViewR{{st, []Seg{{Kind: 'u', Len: n}}}}
}

func (e *Engine) appendB(st *State, args []Val, c *ssa.CallCommon) []SV {
	st0 := c.Args[0].Type().Underlying().(*types.Slice)
	var out []SV
	if len(args) < 2 {
		return one(st, args[0])
	}
	// nothing appended: the same slice
	for _, a := range e.segsOf(st, args[0]) {
		for _, b := range e.segsOf(a.St, args[1]) {
			segs := append(append([]Seg(nil), a.Segs...), b.Segs...)
			segs = e.coalesce(b.St, segs)
			if len(segs) == 0 {
				out = append(out, SV{b.St, args[0]})
				continue
			}
			st := b.St
			x, ok := args[0].(SliceV)
			if ok && x.Arr != 0 && !x.Max && st.Heap[x.Arr] != nil && st.Heap[x.Arr].Arr != nil {
				// room behind the slice is written over
				total := segsLen(st.Heap[x.Arr].Arr.Segs)
				end := x.Off.Add(x.Len)
				if !e.entailsEq(st, e.n(st, total.Sub(end))) {
					add := segsLen(b.Segs)
					room := bGe(total.Sub(end).Sub(add))
					for _, s := range e.assume(st.clone(), room, true) {
						s = e.splice(s, SliceV{Arr: x.Arr, Off: end, Len: add}, add, b.Segs)
						out = append(out, SV{s, SliceV{Arr: x.Arr, Off: x.Off, Len: x.Len.Add(add)}})
					}
					for _, s := range e.assume(st, room, false) {
						out = append(out, SV{s, e.newSlice(s, st0.Elem(), segs)})
					}
					continue
				}
			}
			out = append(out, SV{st, e.newSlice(st, st0.Elem(), segs)})
		}
	}
	return out
}

// coalesce merges neighbouring parts of the same input.
func (e *Engine) coalesce(st *State, segs []Seg) []Seg {
	var r []Seg
	for _, g := range segs {
		if n := len(r); n > 0 && r[n-1].Kind == g.Kind && (g.Kind == 'i' || g.Kind == 'b' || g.Kind == 'r') {
			p := r[n-1]
			if p.Name == g.Name && keyOf(p.V) == keyOf(g.V) && e.n(st, p.From.Add(p.Len).Sub(g.From)).Is0() {
				p.Len = p.Len.Add(g.Len)
				r[n-1] = p
				continue
			}
		}
		r = append(r, g)
	}
	return r
}

// copyB overwrites the front of dst with src.
func (e *Engine) copyB(st *State, args []Val, at ssa.Instruction) []SV {
	dst, ok := args[0].(SliceV)
	if !ok {
		return one(st, e.newInt("copied"))
	}
	var srcLen Lin
	switch x := args[1].(type) {
	case SliceV:
		srcLen = x.Len
	case StrV:
		srcLen = e.strLen(e.normStr(st, x))
	default:
		srcLen = LA(e.fnAtom("opqlen", 'i', x))
		e.addGe(st, srcLen)
	}
	var out []SV
	less := bGe(dst.Len.Sub(srcLen))
	do := func(s *State, n Lin) {
		if n.Is0() {
			out = append(out, SV{s, n})
			return
		}
		var src Val = args[1]
		switch x := src.(type) {
		case SliceV:
			src = SliceV{Arr: x.Arr, Off: x.Off, Len: n}
		case StrV:
			x = e.normStr(s, x)
			src = e.subStr(x, K(0), n)
		}
		for _, sv := range e.segsOf(s, src) {
			out = append(out, SV{e.splice(sv.St, dst, n, sv.Segs), n})
		}
	}
	for _, s := range e.assume(st.clone(), less, true) {
		do(s, e.n(s, srcLen))
	}
	for _, s := range e.assume(st, less, false) {
		do(s, e.n(s, dst.Len))
	}
	return out
}

// splice replaces the first n elements of dst with segs (which have n elements).
func (e *Engine) splice(st *State, dst SliceV, n Lin, segs []Seg) *State {
	o := st.Heap[dst.Arr]
	total := segsLen(o.Arr.Segs)
	cut := func(lo, ln Lin) []Seg {
		if e.entailsEq(st, e.n(st, ln)) {
			return nil
		}
		if len(o.Arr.Segs) == 1 {
			return []Seg{e.cutSeg(o.Arr.Segs[0], lo, ln)}
		}
		if vs := e.view(st.clone(), SliceV{Arr: dst.Arr, Off: lo, Len: ln}); len(vs) == 1 {
			return vs[0].Segs
		}
		return []Seg{{Kind: 'u', Len: ln}} // which elements these are depends
	}
	rest := total.Sub(dst.Off).Sub(n)
	pre, suf := cut(K(0), dst.Off), cut(dst.Off.Add(n), rest)
	all := append(append(append([]Seg(nil), pre...), segs...), suf...)
	ob := *o
	ob.Arr = &ArrC{Elem: o.Arr.Elem, Segs: e.coalesce(st, all)}
	st.Heap[dst.Arr] = &ob
	return st
}
