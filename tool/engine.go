package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/fwip/posix-utils"

// Program is the type-checked repository in SSA form.
type Program struct {
	Fset *token.FileSet
	Prog *ssa.Program
	Pkgs map[string]*ssa.Package // repository packages by path
	Root string
	Init []*packages.Package
}

// loadRepo type-checks the given packages of the repository and builds their SSA form.
func loadRepo(root string, pats ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  root,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{Fset: prog.Fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, Root: root, Init: pkgs}
	for _, p := range prog.AllPackages() {
		if isRepoPath(p.Pkg.Path()) {
			p.Build()
			P.Pkgs[p.Pkg.Path()] = p
		}
	}
	return P, nil
}

// pos renders a position relative to the repository.
func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	q := p.Fset.Position(x)
	return strings.TrimPrefix(q.Filename, p.Root+"/") + fmt.Sprintf(":%d", q.Line)
}

// Alarm is a violation candidate found by the analysis.
type Alarm struct {
	Kind  string
	Msg   string
	Pos   string
	Func  string
	Stack []string
	Facts string
	Trace []string
	Lossy string
}

func (a Alarm) key() string { return a.Kind + "|" + a.Pos + "|" + a.Func + "|" + a.Msg }

type giveUp struct{ why string }

// Engine interprets SSA functions over the abstract domain.
type Engine struct {
	P       *Program
	atoms   []AtomInfo
	atomIdx map[string]Atom

	nextObj     ObjID
	globals     map[*ssa.Global]ObjID
	globalOrder []*ssa.Global
	fixed       map[Atom]bool
	keepAtoms   map[Atom]bool
	witStrs     map[Atom]bool
	tmplAtoms   map[Atom]bool
	atomCache   map[*State]map[Atom]bool
	laters      map[*joiner][]func()
	inputObjs   map[string]ObjID
	scratchAtom Atom
	nEntail     int
	why         string

	structFn  map[string]bool // integer functions whose applications are joined argument by argument
	termHook  func(fn string, args []Val) Val
	axiomHook func(a Atom, ai *AtomInfo) []Lin
	predHook  func(st *State, p Atom, ai AtomInfo, want bool) []*State
	sigInts   func(l Lin) string
	derived   func(j *joiner) []nslot
	bvJoin    func(j *joiner, vs []Val) Val
	bvMatch   func(t *matcher, x, y Val) bool

	infos  map[*ssa.Function]*fnInfo
	alarms *[]Alarm
	seenAl map[string]bool

	models     map[string]modelFn
	contracts  map[string]modelFn
	onExit     func(st *State, code Val, at ssa.Instruction)
	onWrite    func(st *State, w WriteEv) []*State
	onEvent    func(st *State, ev string, args []Val, at ssa.Instruction) []*State
	onPanic    func(st *State, kind, msg string, at ssa.Instruction) bool // true: not an alarm
	wantOut    bool                                                       // the task judges standard output
	argLoad    func(st *State, idx Lin) []SV                              // the value of an argument, when the harness knows
	globalVal  func(st *State, g *ssa.Global) (Val, bool)
	beforeCall func(st *State, fn *ssa.Function, args []Val, at ssa.Instruction)
	afterCall  func(st *State, fn *ssa.Function, args []Val, res Val, at ssa.Instruction)
	mapDet     bool // iterate maps with distinguished entries first

	memoInf map[h128]bool
	memoBnd map[h128]bnd
	nEvents int
	recMemo map[*ssa.Function]bool
	recDone map[*ssa.Function]bool

	edWriteHook func(st *State, w WriteEv) []*State
	oneLine     map[Atom]bool // texts without newline
	oneWord     map[Atom]bool // texts without white space, not empty
	goWrites    bool          // a goroutine may write on standard output
	mapDir      int           // 0: maps are iterated in every order, 1, 2: as filled, forwards or backwards; 3, 4: by key, up or down
	sortFork    bool          // sort unknown elements by forking
	goSync      bool          // goroutines are followed
	inGo        int           // goroutines being followed
	args        []StrV        // the arguments, when the task fixes them
	stdinText   *StrV         // standard input, when the task fixes it

	cfgPeel  bool
	dropped  bool // peeling left something out
	unroll   int  // >0: only the first iterations of every loop, kept apart
	exact    []Alarm
	deadline time.Time
	nAdd     int
	mergeCap int
	bvCanon  func(BVV) (Lin, bool)
	patient  bool // widen only when a member has been followed again
	maxDepth int
	steps    int
	maxSteps int
	curInstr ssa.Instruction

	unmodelled map[string]int
	sites      map[string]int // what the refuting pass reached, by kind
	peelCap    int
	validUTF8  bool // texts are taken to be valid UTF-8
	covFns     map[string]int
	covInstr   map[ssa.Instruction]bool
	nLoops     int
	nJoins     int
	nObl       int // obligations discharged or alarmed
	verbose    bool
}

type modelFn func(c *Call) []SV

// Call is a call of an external function.
type Call struct {
	E    *Engine
	St   *State
	Fn   *ssa.Function
	Name string
	Args []Val
	Typ  types.Type // result type (tuple or single)
	At   ssa.Instruction
	Sig  *types.Signature
}

// WriteEv is data sent to a writer.
type WriteEv struct {
	Dst  Val    // the writer's model value (pointer to a file, ...)
	Kind string // stdout, stderr, file, other
	Data StrV
	At   ssa.Instruction
}

func newEngine(p *Program) *Engine {
	e := &Engine{P: p, memoInf: map[h128]bool{}, memoBnd: map[h128]bnd{}, atomIdx: map[string]Atom{}, globals: map[*ssa.Global]ObjID{}, fixed: map[Atom]bool{}, keepAtoms: map[Atom]bool{},
		witStrs: map[Atom]bool{}, tmplAtoms: map[Atom]bool{}, atomCache: map[*State]map[Atom]bool{}, laters: map[*joiner][]func(){},
		inputObjs: map[string]ObjID{}, infos: map[*ssa.Function]*fnInfo{}, seenAl: map[string]bool{}, models: map[string]modelFn{},
		structFn: map[string]bool{"atoi": true}, contracts: map[string]modelFn{}, unmodelled: map[string]int{}, covFns: map[string]int{}, covInstr: map[ssa.Instruction]bool{}}
	e.alarms = new([]Alarm)
	e.mergeCap = 16
	e.peelCap = 48
	e.sites = map[string]int{}
	e.maxDepth = 24
	e.maxSteps = 4000000
	e.newAtom("reserved", 'i') // atom 0 is never used
	installModels(e)
	return e
}

func (e *Engine) newState() *State {
	return &State{F: newFacts(), Heap: map[ObjID]*Obj{}, Ghost: map[string]Val{}}
}

// isWit reports whether a value is a distinguished (witness) value.
func (e *Engine) isWit(v Val) bool {
	if len(e.witStrs) == 0 {
		return false
	}
	switch v := v.(type) {
	case StrV:
		if len(v.P) != 1 || !v.P[0].V {
			return false
		}
		return e.witStrs[v.P[0].A]
	case Lin:
		a, ok := v.IsAtom()
		return ok && e.witStrs[a]
	case StructV:
		for _, x := range v.F {
			if e.isWit(x) {
				return true
			}
		}
	case IfaceV:
		return v.T != nil && e.isWit(v.V)
	case OpqV:
		return e.witStrs[v.A]
	}
	return false
}

func (e *Engine) isWitB(b *BExpr) bool {
	return b.K == 'p' && e.witStrs[b.P]
}

// bvToLin turns a bit vector into an integer term.
func (e *Engine) bvToLin(b BVV) Lin {
	if c, ok := b.Const(); ok {
		return K(int64(c))
	}
	// the bits of one atom, in order: the atom itself
	a := Atom(-1)
	same := true
	for i, x := range b.Bits {
		if len(x.V) == 0 && !x.C {
			continue
		}
		if x.C || len(x.V) != 1 || x.V[0].I != i || (a >= 0 && x.V[0].A != a) {
			same = false
			break
		}
		a = x.V[0].A
	}
	if same && a >= 0 {
		w := e.atomWidth(a)
		full := w > 0
		for i := 0; i < w; i++ {
			if i >= len(b.Bits) || len(b.Bits[i].V) == 0 {
				full = false
			}
		}
		if full {
			if e.atoms[a].Fn == "lin" {
				return e.atoms[a].Args[0].(Lin)
			}
			return LA(a)
		}
	}
	x := e.fnAtom("bv", 'i', b)
	n := 0
	for i, q := range b.Bits {
		if q.C || len(q.V) > 0 {
			n = i + 1
		}
	}
	if n < 62 {
		e.atoms[x].HasB, e.atoms[x].Lo, e.atoms[x].Hi = true, 0, 1<<uint(n)-1
	}
	return LA(x)
}

// atomWidth is the number of bits that hold a non-negative atom, 0 if unknown.
func (e *Engine) atomWidth(a Atom) int {
	ai := e.atoms[a]
	if !ai.HasB || ai.Lo < 0 {
		return 0
	}
	w := 0
	for w < 62 && ai.Hi >= 1<<uint(w) {
		w++
	}
	return w
}

// ---- control-flow information

type loopInfo struct {
	hdr    *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

type fnInfo struct {
	rpo     []*ssa.BasicBlock
	rpoNum  map[*ssa.BasicBlock]int
	loops   map[*ssa.BasicBlock]*loopInfo // by header
	inner   map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	index   map[ssa.Value]int
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveOut map[*ssa.BasicBlock]map[ssa.Value]bool
	after   map[ssa.Instruction]map[ssa.Value]bool
	irred   bool
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi := e.infos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{rpoNum: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{},
		index: map[ssa.Value]int{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveOut: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	e.infos[fn] = fi
	n := 0
	for _, p := range fn.Params {
		fi.index[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.index[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.index[v] = n
				n++
			}
		}
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpoNum[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.rpoNum[s] <= fi.rpoNum[b] {
				if !s.Dominates(b) {
					fi.irred = true
					continue
				}
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{hdr: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return fi.rpoNum[ls[i].hdr] < fi.rpoNum[ls[j].hdr]
	})
	for _, l := range ls {
		l.parent = fi.inner[l.hdr]
		for b := range l.blocks {
			fi.inner[b] = l
		}
	}
	// liveness
	for _, b := range fi.rpo {
		fi.liveIn[b] = map[ssa.Value]bool{}
		fi.liveOut[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[ph] = true
				}
				for v := range fi.liveIn[s] {
					if !phis[v] {
						out[v] = true
					}
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for ph := range phis {
						if x := ph.(*ssa.Phi).Edges[pi]; trackable(x) {
							out[x] = true
						}
					}
				}
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if _, ok := ins.(*ssa.Phi); ok {
					continue // the results stay live at the (post-phi) entry
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && trackable(*op) {
						in[*op] = true
					}
				}
			}
			if len(out) != len(fi.liveOut[b]) || len(in) != len(fi.liveIn[b]) {
				changed = true
			}
			fi.liveOut[b], fi.liveIn[b] = out, in
		}
	}
	return fi
}

// liveAfter is the set of registers read after an instruction.
func (e *Engine) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	b := in.Block()
	fi := e.info(b.Parent())
	if m := fi.after[in]; m != nil {
		return m
	}
	live := map[ssa.Value]bool{}
	for v := range fi.liveOut[b] {
		live[v] = true
	}
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		ins := b.Instrs[j]
		if ins == in {
			break
		}
		if v, ok := ins.(ssa.Value); ok {
			delete(live, v)
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil && trackable(*op) {
				live[*op] = true
			}
		}
	}
	fi.after[in] = live
	return live
}

// ---- alarms

// dataAlarm is an alarm about written data: inexact when the data hold text that is not modelled.
func (e *Engine) dataAlarm(st *State, d StrV, kind string, at ssa.Instruction, format string, args ...interface{}) {
	for _, p := range d.P {
		if p.V {
			e.atomDeep(p.A, func(a Atom) {
				if strings.HasSuffix(e.atoms[a].Name, "?") {
					st.Lossy = "unmodelled formatting"
				}
			})
		}
	}
	e.alarm(st, kind, at, format, args...)
}

func (e *Engine) alarm(st *State, kind string, at ssa.Instruction, format string, args ...interface{}) {
	a := Alarm{Kind: kind, Msg: fmt.Sprintf(format, args...)}
	if at != nil {
		a.Pos = e.instrPos(at)
		if at.Parent() != nil {
			a.Func = at.Parent().RelString(nil)
		}
	}
	if st != nil {
		for _, f := range st.Frames {
			s := f.Fn.RelString(nil)
			if f.Site != nil {
				s += " called at " + e.instrPos(f.Site)
			}
			a.Stack = append(a.Stack, s)
		}
		a.Trace = st.traceStrings()
		a.Facts = e.factsString(st)
		a.Lossy = st.Lossy
	}
	if a.Lossy == "" {
		dup := false
		for _, x := range e.exact {
			if x.key() == a.key() {
				dup = true
			}
		}
		if !dup {
			e.exact = append(e.exact, a)
		}
	}
	for _, x := range *e.alarms {
		if x.key() == a.key() {
			return
		}
	}
	*e.alarms = append(*e.alarms, a)
}

func (e *Engine) instrPos(at ssa.Instruction) string {
	if at == nil {
		return "?"
	}
	if at.Pos().IsValid() {
		return e.P.pos(at.Pos())
	}
	// an implicit instruction: the nearest one with a position
	b := at.Block()
	if b == nil {
		return "?"
	}
	k := -1
	for i, x := range b.Instrs {
		if x == at {
			k = i
		}
	}
	for d := 1; d < len(b.Instrs); d++ {
		for _, j := range []int{k - d, k + d} {
			if j >= 0 && j < len(b.Instrs) && b.Instrs[j].Pos().IsValid() {
				return e.P.pos(b.Instrs[j].Pos())
			}
		}
	}
	return e.P.pos(at.Parent().Pos())
}

// dump prints a state (debugging).
func (e *Engine) dump(st *State) string {
	var b strings.Builder
	for _, k := range ghostKeys(st) {
		fmt.Fprintf(&b, "  ghost %s = %s\n", k, e.valString(e.nv(st, st.Ghost[k])))
	}
	for _, f := range st.Frames {
		fmt.Fprintf(&b, "  frame %s\n", f.Fn.Name())
		for v, x := range f.Regs {
			fmt.Fprintf(&b, "    %s = %s\n", v.Name(), e.valString(e.nv(st, x)))
		}
	}
	for id, o := range st.Heap {
		fmt.Fprintf(&b, "  obj %d %s: ", id, o.Site)
		e.eachObjVal(o, func(v Val) { fmt.Fprintf(&b, "%s ", e.valString(e.nv(st, v))) })
		b.WriteString("\n")
	}
	return b.String()
}
