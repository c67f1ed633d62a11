package main

// The driver: one property per run. It loads the repository's source, runs the
// property's analyses and reports what they decided.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Task is one analysis: it installs its hooks in a fresh engine and runs it.
type Task struct {
	Name string
	Pkg  string // the package whose absence makes the task fail
	Run  func(e *Engine)
	// Configs to try; the first that proves the task wins. nil: the default ones.
	Strict   bool  // an obligation that no fixpoint proves counts, if only joins lost precision
	Peeled   bool  // only the refuting pass: no fixpoint is attempted
	PeelCap  int   // states kept apart at a loop of the refuting pass
	MergeCap int   // states kept apart at a merge point
	Levels   []int // peeled iterations, for a task without a fixpoint
	Unroll   int   // peeled iterations of the refuting pass
	Par      bool  // runs side by side with the other tasks
	Direct   func(p *Program, r *TaskResult)
}

// Prop is a property and the analyses that decide it.
type Prop struct {
	ID    string
	Pats  []string
	Rule  string
	Trust []string
	Tasks func(p *Program) []Task
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// TaskResult is what one task decided.
type TaskResult struct {
	Name       string
	Proved     bool
	Undecided  string
	Violations []Alarm
	Lossy      []Alarm
	Functions  []string
	Instrs     int
	Loops      int
	Joins      int
	Obl        int
	Unmodelled []string
	Notes      []string
	Sites      map[string]int
}

var theTier = "quick"

// deeper is 1 in the thorough tier.
func deeper() int {
	if theTier == "thorough" {
		return 1
	}
	return 0
}

var verbose = flag.Bool("v", false, "print the analysis")

func main() {
	repo := flag.String("repo", "/repo", "repository")
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "/verif", "where evidence goes")
	only := flag.String("task", "", "only this task (debugging)")
	prof := flag.String("cpuprofile", "", "write a profile (debugging)")
	flag.Parse()
	go watchMemory()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	theTier = *tier
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	start := time.Now()
	debug.SetGCPercent(400)
	root, _ := filepath.EvalSymlinks(*repo)
	P, err := loadRepo(root, p.Pats...)
	var results []*TaskResult
	if err != nil {
		// Source that does not type-check is not judged.
		results = append(results, &TaskResult{Name: "load", Undecided: "the repository does not load: " + err.Error()})
	} else {
		var ts []Task
		for _, t := range p.Tasks(P) {
			if *only == "" || t.Name == *only {
				ts = append(ts, t)
			}
		}
		results = runTasks(P, ts, *tier)
	}
	viol := 0
	var first *Alarm
	for _, r := range results {
		state := "PROVED"
		switch {
		case len(r.Violations) > 0:
			state = "VIOLATED"
		case !r.Proved:
			state = "UNDECIDED: " + r.Undecided
			if strings.HasPrefix(r.Undecided, "held") {
				state = "BOUNDED: " + r.Undecided
			}
		}
		fmt.Printf("%s %-28s %s (functions %d, obligations %d, loops %d)\n", p.ID, r.Name, state, len(r.Functions), r.Obl, r.Loops)
		for _, n := range r.Notes {
			fmt.Println("   ", n)
		}
		if *verbose {
			for _, k := range sortedInts(r.Sites) {
				fmt.Println("    reached:", k, r.Sites[k])
			}
		}
		for i := range r.Violations {
			viol++
			if first == nil {
				first = &r.Violations[i]
			}
			if i < 4 || *verbose {
				printAlarm("violation", r.Violations[i])
			}
		}
		for i, a := range r.Lossy {
			if i >= 6 && !*verbose {
				break
			}
			if !r.Proved {
				printAlarm("not proved", a)
			}
		}
	}
	writeEvidence(*out, p, *tier, results, viol, time.Since(start).Seconds())
	if viol > 0 {
		path := filepath.Join(*out, "evidence", p.ID+".violation.json")
		var all []Alarm
		for _, r := range results {
			all = append(all, r.Violations...)
		}
		b, _ := json.MarshalIndent(all, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.Exit(1)
	}
}

func printAlarm(what string, a Alarm) {
	fmt.Printf("   %s [%s] %s in %s: %s\n", what, a.Kind, a.Pos, a.Func, a.Msg)
	if a.Lossy != "" {
		fmt.Printf("      (%s)\n", a.Lossy)
	}
	if *verbose {
		for _, s := range a.Stack {
			fmt.Println("      stack:", s)
		}
		for _, s := range a.Trace {
			fmt.Println("      path:", s)
		}
		fmt.Println("      facts:", a.Facts)
	}
}

type runMode struct {
	name   string
	peel   bool
	unroll int
	budget time.Duration
	cap    int // states kept apart at a merge point, at least
}

// runTasks runs the tasks; those that are independent of each other's time, side by side.
func runTasks(P *Program, ts []Task, tier string) []*TaskResult {
	e := newEngine(P)
	e.errType()
	e.fileInfoType()
	res := make([]*TaskResult, len(ts))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, t := range ts {
		if !t.Par {
			continue
		}
		wg.Add(1)
		go func(i int, t Task) {
			defer wg.Done()
			sem <- true
			res[i] = runTask(P, t, tier)
			<-sem
		}(i, t)
	}
	wg.Wait()
	for i, t := range ts {
		if !t.Par {
			res[i] = runTask(P, t, tier)
		}
	}
	return res
}

func runTask(P *Program, t Task, tier string) *TaskResult {
	res := &TaskResult{Name: t.Name, Sites: map[string]int{}}
	if t.Direct != nil {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if g, ok := x.(giveUp); ok {
						res.Undecided = g.why
						return
					}
					res.Undecided = fmt.Sprint("internal: ", x)
					if *verbose {
						debug.PrintStack()
					}
				}
			}()
			t.Direct(P, res)
		}()
		return res
	}
	k := t.Unroll
	if k == 0 {
		k = 4
	}
	modes := []runMode{{"fixpoint", false, 0, 90 * time.Second, 0}, {"fixpoint, first iteration apart", true, 0, 90 * time.Second, 0}, {"fixpoint, first iteration and paths apart", true, 0, 120 * time.Second, 300}}
	if t.Peeled {
		modes = nil
	}
	fns := map[string]bool{}
	var exact, lossy []Alarm
	complete := true
	for _, m := range modes {
		e, why := attempt(P, t, m)
		collect(res, e, fns)
		res.Notes = append(res.Notes, fmt.Sprintf("%s: %d alarms, %d exact%s", m.name, len(*e.alarms), len(e.exact), orNone(why)))
		exact = append(exact, e.exact...)
		if why == "" && len(*e.alarms) == 0 && len(e.exact) == 0 {
			res.Proved = true
			return res
		}
		lossy = *e.alarms
		if why != "" {
			res.Undecided = why
			complete = false
		}
		if len(exact) > 0 {
			break
		}
	}
	levels := []int{k}
	if t.Peeled {
		levels = nil
		if tier == "thorough" {
			k++
		}
		for l := 2; l <= k; l++ {
			levels = append(levels, l)
		}
		if t.Levels != nil {
			levels = t.Levels
		}
	}
	for _, l := range levels {
		if len(exact) > 0 {
			break
		}
		m := runMode{fmt.Sprintf("%d iterations peeled", l), false, l, 60 * time.Second, 400}
		if tier == "thorough" {
			m.budget = 300 * time.Second
		}
		e, why := attempt(P, t, m)
		part := ""
		if e.dropped {
			part = ", a part of the paths"
		}
		res.Notes = append(res.Notes, fmt.Sprintf("%s%s: %d exact%s", m.name, part, len(e.exact), orNone(why)))
		if t.Peeled && (why == "" || len(levels) == 0 || l == levels[0]) {
			res.Undecided = fmt.Sprintf("held on every path followed (up to %d iterations of each loop%s); no fixpoint", l, part)
			collect(res, e, fns)
			lossy = *e.alarms
		}
		exact = append(exact, e.exact...)
		if why != "" {
			break
		}
	}
	seen := map[string]bool{}
	for _, a := range exact {
		if !seen[a.key()] {
			seen[a.key()] = true
			res.Violations = append(res.Violations, a)
		}
	}
	if len(exact) == 0 && t.Strict && complete {
		var sel []Alarm
		for _, a := range lossy {
			if a.Lossy == "joined" {
				sel = append(sel, a)
			} else {
				sel = nil
				break
			}
		}
		res.Violations = sel
	}
	res.Lossy = lossy
	if len(res.Violations) == 0 && res.Undecided == "" {
		res.Undecided = fmt.Sprintf("%d obligations not proved", len(lossy))
	}
	return res
}

// memHigh is set while the analyser holds more memory than it may: the analyses in progress stop.
var memHigh atomic.Bool

func watchMemory() {
	debug.SetMemoryLimit(9 << 30)
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		n := sample[0].Value.Uint64()
		switch {
		case n > 11<<30:
			memHigh.Store(true)
		case memHigh.Load():
			runtime.GC()
			metrics.Read(sample)
			memHigh.Store(sample[0].Value.Uint64() > 5<<30)
		}
	}
}

func orNone(why string) string {
	if why == "" {
		return ""
	}
	return "; stopped: " + why
}

func collect(r *TaskResult, e *Engine, fns map[string]bool) {
	for f := range e.covFns {
		if !fns[f] {
			fns[f] = true
			r.Functions = append(r.Functions, f)
		}
	}
	sort.Strings(r.Functions)
	if n := len(e.covInstr); n > r.Instrs {
		r.Instrs = n
	}
	r.Loops, r.Joins, r.Obl = e.nLoops, e.nJoins, e.nObl
	for k, n := range e.sites {
		r.Sites[k] = n
	}
	r.Unmodelled = nil
	for k := range e.unmodelled {
		r.Unmodelled = append(r.Unmodelled, k)
	}
	sort.Strings(r.Unmodelled)
}

func attempt(P *Program, t Task, m runMode) (e *Engine, why string) {
	e = newEngine(P)
	e.cfgPeel = m.peel
	e.unroll = m.unroll
	e.mergeCap = max(e.mergeCap, t.MergeCap, m.cap)
	e.patient = m.cap > 0
	if t.PeelCap > 0 {
		e.peelCap = t.PeelCap
		if m.unroll > 0 {
			e.mergeCap = max(e.mergeCap, t.PeelCap)
		}
	}
	e.verbose = *verbose
	e.deadline = time.Now().Add(m.budget)
	defer func() {
		if x := recover(); x != nil {
			if g, ok := x.(giveUp); ok {
				why = g.why
				return
			}
			why = fmt.Sprint("internal: ", x)
			if *verbose {
				fmt.Println(why)
				fmt.Println(string(debug.Stack()))
			}
		}
	}()
	t.Run(e)
	return e, ""
}

func writeEvidence(out string, p *Prop, tier string, rs []*TaskResult, viol int, wall float64) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	proved, obl := 0, 0
	fns := map[string]bool{}
	var tasks []map[string]interface{}
	var und []string
	for _, r := range rs {
		if r.Proved {
			proved++
		} else if len(r.Violations) == 0 {
			und = append(und, r.Name+": "+r.Undecided)
		}
		obl += r.Obl
		for _, f := range r.Functions {
			fns[f] = true
		}
		tasks = append(tasks, map[string]interface{}{
			"task": r.Name, "proved": r.Proved, "undecided": r.Undecided, "violations": len(r.Violations),
			"functions": r.Functions, "instructions": r.Instrs, "loops": r.Loops, "joins": r.Joins, "obligations": r.Obl,
			"unmodelled_calls": r.Unmodelled, "notes": r.Notes, "sites": r.Sites,
		})
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":      p.Rule,
			"rule":             p.Rule,
			"tasks_proved":     proved,
			"tasks":            len(rs),
			"obligations":      obl,
			"functions":        len(fl),
			"functions_listed": fl,
			"analyses":         tasks,
			"undecided":        und,
		},
		"assumptions": p.Trust,
		"wall_s":      wall,
		"violations":  viol,
	}
	if p.Trust == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	os.WriteFile(filepath.Join(out, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
	_ = strings.Join
}

func sortedInts(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
