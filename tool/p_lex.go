package main

// C24: the lexer of locale definitions. The package's state functions are followed over a text
// that is not given but determined where the lexer looks at it: every character is unknown except
// for what the lexer has found out about it; a word is one of the known keywords or another one.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const lexPkg = "github.com/bbuck/go-lexer"

// lexKw: the keywords that begin a line of each category, with the kind of their operand
// (c: characters, p: pairs of characters, s: string, S: strings, i: integer, I: integers, m: expression).
var lexKw = map[string]string{
	"LC_CTYPE":    "upper:c lower:c alpha:c digit:c alnum:c space:c cntrl:c punct:c graph:c print:c xdigit:c blank:c charclass:S toupper:p tolower:p",
	"LC_TIME":     "abday:S day:S abmon:S mon:S d_t_fmt:s d_fmt:s t_fmt:s am_pm:S t_fmt_ampm:s era:S era_d_fmt:s era_t_fmt:s era_d_t_fmt:s alt_digits:S",
	"LC_NUMERIC":  "decimal_point:s thousands_sep:s grouping:i",
	"LC_MONETARY": "int_curr_symbol:s currency_symbol:s mon_decimal_point:s mon_thousands_sep:s mon_grouping:I positive_sign:s negative_sign:s int_frac_digits:i frac_digits:i p_cs_precedes:i p_sep_by_space:i n_cs_precedes:i n_sep_by_space:i p_sign_posn:i n_sign_posn:i int_p_cs_precedes:i int_p_sep_by_space:i int_n_cs_precedes:i int_n_sep_by_space:i int_p_sign_posn:i int_n_sign_posn:i",
	"LC_MESSAGES": "yesexpr:m noexpr:m",
	"LC_COLLATE":  "collating-element: collating-symbol: order_start:",
}

var lexInline = map[string]bool{"forward": true, "backward": true, "position": true, "order_end": true, "from": true}

func lexCats() (cs []string) {
	for c := range lexKw {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	return
}

func lexWords(cat string) map[string]string {
	m := map[string]string{}
	for _, f := range strings.Fields(lexKw[cat]) {
		i := strings.Index(f, ":")
		m[f[:i]] = f[i+1:]
	}
	return m
}

type ival [2]int64

// ivals lists the ranges of the ASCII characters in (or not in) a set.
func ivals(chars string, in bool) (out []ival) {
	for c := int64(1); c < 128; c++ {
		if strings.IndexByte(chars, byte(c)) >= 0 == in {
			if n := len(out); n > 0 && out[n-1][1] == c-1 {
				out[n-1][1] = c
			} else {
				out = append(out, ival{c, c})
			}
		}
	}
	return
}

type lexer struct {
	e      *Engine
	pkg    *ssa.Package
	toks   map[string]int64 // token by name
	budget int
	prep   bool // only what precedes the lexing is followed
	full   bool // the text is given as a whole: nothing is added to it
	n      int
	sets   map[Atom][]ival
	start  Val
}

// ---- the state of the lexer's text, in ghost variables

func lxInt(st *State, k string) int {
	if v, ok := st.Ghost[k].(Lin); ok {
		return int(v.C)
	}
	return 0
}
func lxSet(st *State, k string, n int) { st.Ghost[k] = K(int64(n)) }
func lxStr(st *State, k string) string {
	v, _ := st.Ghost[k].(StrV)
	s, _ := v.Const()
	return s
}
func lxCells(st *State) TupleV { t, _ := st.Ghost["lx.cells"].(TupleV); return t }

func (x *lexer) add(st *State, v StrV) {
	t := lxCells(st)
	st.Ghost["lx.cells"] = append(t[:len(t):len(t)], v)
}

// fresh is an unknown ASCII character out of a set.
func (x *lexer) fresh(st *State, set []ival) {
	e := x.e
	s := SA(e.fnAtom("lexchar", 's', K(int64(len(lxCells(st))))))
	e.addEq(st, e.strLen(s).AddK(-1))
	b := e.byteAt(s, K(0))
	e.addGe(st, b.AddK(-1))
	e.addGe(st, K(127).Sub(b))
	x.add(st, s)
	if len(set) > 0 {
		lxSetIv(st, len(lxCells(st))-1, set)
	}
}

func lxSetIv(st *State, i int, set []ival) {
	var t TupleV
	for _, v := range set {
		t = append(t, K(v[0]), K(v[1]))
	}
	st.Ghost[fmt.Sprintf("lx.set%d", i)] = t
}
func lxIv(st *State, i int) (out []ival) {
	t, ok := st.Ghost[fmt.Sprintf("lx.set%d", i)].(TupleV)
	if !ok {
		return []ival{{1, 127}}
	}
	for k := 0; k+1 < len(t); k += 2 {
		out = append(out, ival{t[k].(Lin).C, t[k+1].(Lin).C})
	}
	return
}

func (x *lexer) char(st *State, i int) Lin {
	s := lxCells(st)[i].(StrV)
	if c, ok := s.Const(); ok {
		return K(int64([]rune(c)[0]))
	}
	return x.e.pinned(st, x.e.byteAt(s, K(0)))
}

// split forks on the ranges of cell i within the given ones.
func (x *lexer) split(st *State, i int, set []ival) (out []*State) {
	r := x.char(st, i)
	if r.IsK() {
		for _, v := range set {
			if v[0] <= r.C && r.C <= v[1] {
				return []*State{st}
			}
		}
		return nil
	}
	for _, have := range lxIv(st, i) {
		for _, v := range set {
			lo, hi := have[0], have[1]
			if v[0] > lo {
				lo = v[0]
			}
			if v[1] < hi {
				hi = v[1]
			}
			if lo > hi {
				continue
			}
			s := st.clone()
			if x.e.addGe(s, r.AddK(-lo)) && x.e.addGe(s, K(hi).Sub(r)) && x.e.feasible(s) {
				lxSetIv(s, i, []ival{{lo, hi}})
				out = append(out, s)
			}
		}
	}
	return
}

// atEnd: the text may end here (only after a newline; it has one at its end).
func (x *lexer) atEnd(st *State) []*State {
	t := lxCells(st)
	s := st.clone()
	lxSet(s, "lx.eof", 1)
	if len(t) == 0 {
		return []*State{s}
	}
	return x.split(s, len(t)-1, []ival{{10, 10}})
}

// bar: characters that cannot stand at the frontier (a comment sign in front, a continued line).
func (x *lexer) bar(st *State, set []ival) []ival {
	t := lxCells(st)
	no := ""
	if len(t) == 0 || x.maybe(st, len(t)-1, '\n') {
		no += "#"
	}
	if len(t) > 0 && x.maybe(st, len(t)-1, '\\') {
		no += "\n"
	}
	var out []ival
	for _, v := range set {
		for _, w := range ivals(no, false) {
			lo, hi := v[0], v[1]
			if w[0] > lo {
				lo = w[0]
			}
			if w[1] < hi {
				hi = w[1]
			}
			if lo <= hi {
				out = append(out, ival{lo, hi})
			}
		}
	}
	return out
}

func (x *lexer) maybe(st *State, i int, c int64) bool {
	return len(x.split(st.clone(), i, []ival{{c, c}})) > 0
}

func (x *lexer) spend(st *State) bool {
	if x.full {
		return false
	}
	n := lxInt(st, "lx.n") + 1
	lxSet(st, "lx.n", n)
	if n > x.budget {
		x.e.dropped = true
		return false
	}
	return true
}

// tick notes a call; many calls without getting further in the text mean that it never ends.
func (x *lexer) tick(st *State, at ssa.Instruction) bool {
	pos := lxInt(st, "lx.pos")
	if pos > lxInt(st, "lx.max") {
		lxSet(st, "lx.max", pos)
		lxSet(st, "lx.idle", 0)
		return true
	}
	n := lxInt(st, "lx.idle") + 1
	lxSet(st, "lx.idle", n)
	if n > 150 {
		x.e.nObl++
		x.e.alarm(st, "endless", at, "lexing never ends: the lexer makes no headway in the text %s", x.show(st))
		return false
	}
	return true
}

func (x *lexer) show(st *State) string {
	s := ""
	for i := range lxCells(st) {
		r := x.char(st, i)
		if r.IsK() {
			s += string(rune(r.C))
		} else {
			iv := lxIv(st, i)
			s += string(rune(iv[len(iv)/2][0])) // one of them
		}
	}
	return fmt.Sprintf("%q", s)
}

func (x *lexer) pushRw(st *State, c byte) { st.Ghost["lx.rw"] = SC(lxStr(st, "lx.rw") + string(c)) }

// next determines and consumes a character.
func (x *lexer) next(st *State) (out []SV) {
	pos := lxInt(st, "lx.pos")
	eof := func(s *State) {
		x.pushRw(s, 'e')
		out = append(out, SV{s, K(-1)})
	}
	if pos == len(lxCells(st)) {
		if lxInt(st, "lx.eof") == 1 {
			eof(st)
			return
		}
		if x.full {
			eof(st)
			return
		}
		for _, s := range x.atEnd(st) {
			eof(s)
		}
		if !x.spend(st) {
			return
		}
		x.fresh(st, x.bar(st, []ival{{1, 127}}))
	}
	for _, s := range x.split(st, pos, lxIv(st, pos)) {
		r := x.char(s, pos)
		x.pushRw(s, 'r')
		lxSet(s, "lx.pos", pos+1)
		out = append(out, SV{s, r})
	}
	return
}

// wordsIn lists the words that are told apart in the present category; all others are as one.
func (x *lexer) wordsIn(st *State) (ws []string) {
	cat := lxStr(st, "lx.cat")
	if cat == "" {
		return lexCats()
	}
	ws = append(ws, "END", cat, "LC_ALL")
	for w := range lexWords(cat) {
		ws = append(ws, w)
	}
	if cat == "LC_COLLATE" {
		for w := range lexInline {
			ws = append(ws, w)
		}
	}
	sort.Strings(ws)
	return
}

// take consumes the characters of a set.
func (x *lexer) take(st *State, chars string, began bool) (out []*State) {
	pos := lxInt(st, "lx.pos")
	on := func(s *State) {
		x.pushRw(s, 'r')
		lxSet(s, "lx.pos", pos+1)
		out = append(out, x.take(s, chars, true)...)
	}
	if pos < len(lxCells(st)) {
		out = append(out, x.split(st.clone(), pos, ivals(chars, false))...)
		if !began && !x.full && pos == len(lxCells(st))-1 && !x.char(st, pos).IsK() { // the first character of a keyword
			for _, w := range x.wordsIn(st) {
				if strings.IndexByte(chars, w[0]) < 0 {
					continue
				}
				for _, s := range x.split(st.clone(), pos, []ival{{int64(w[0]), int64(w[0])}}) {
					if !x.spend(s) {
						continue
					}
					for _, c := range w[1:] {
						x.add(s, SC(string(c)))
					}
					lxSet(s, "lx.gen", pos+len(w)+1)
					on(s)
				}
			}
		}
		for _, s := range x.split(st, pos, ivals(chars, true)) {
			on(s)
		}
		return
	}
	if x.full || lxInt(st, "lx.eof") == 1 {
		return []*State{st}
	}
	out = append(out, x.atEnd(st)...)
	if !x.spend(st) {
		return
	}
	if set := x.bar(st, ivals(chars, false)); len(set) > 0 { // another character
		s := st.clone()
		x.fresh(s, set)
		out = append(out, s)
	}
	if set := x.bar(st, ivals(chars, true)); len(set) > 0 && lxInt(st, "lx.gen") != pos+1 { // another word of one character
		for _, v := range set {
			s := st.clone()
			x.fresh(s, []ival{v})
			for _, t := range x.split(s, pos, []ival{v}) {
				lxSet(t, "lx.gen", pos+2)
				on(t)
			}
		}
	}
	if began {
		return
	}
	for _, w := range x.wordsIn(st) {
		if strings.IndexByte(chars, w[0]) < 0 {
			continue
		}
		s := st.clone()
		for _, c := range w {
			x.add(s, SC(string(c)))
		}
		lxSet(s, "lx.gen", pos+len(w)+1) // no other character right behind it
		on(s)
	}
	return
}

func (x *lexer) current(st *State) StrV {
	v := StrV{}
	for i := lxInt(st, "lx.start"); i < lxInt(st, "lx.pos"); i++ {
		c := x.e.normStr(st, lxCells(st)[i].(StrV))
		if r := x.char(st, i); r.IsK() {
			c = SC(string(rune(r.C)))
		}
		v = SCat(v, c)
	}
	return v
}

func (x *lexer) rewind(st *State) {
	rw := lxStr(st, "lx.rw")
	if rw == "" {
		return
	}
	if rw[len(rw)-1] == 'r' {
		lxSet(st, "lx.pos", lxInt(st, "lx.pos")-1)
	}
	st.Ghost["lx.rw"] = SC(rw[:len(rw)-1])
}

func (x *lexer) tokName(n int64) string {
	if n > 0 && n < 127 {
		return fmt.Sprintf("%q", rune(n))
	}
	for k, v := range x.toks {
		if v == n {
			return k
		}
	}
	return fmt.Sprint(n)
}

// due names the token of a word in a category, "" if it has none of its own.
func (x *lexer) due(cat, w string) string {
	if cat == "" {
		if lexKw[w] != "" {
			return w + "_STR"
		}
		return ""
	}
	_, kw := lexWords(cat)[w]
	if w == "END" || kw || cat == "LC_COLLATE" && lexInline[w] {
		return strings.ToUpper(strings.Replace(w, "-", "_", -1)) + "_STR"
	}
	return ""
}

func (x *lexer) emit(st *State, tv Val, at ssa.Instruction) {
	e := x.e
	cur := x.current(st)
	t := e.n(st, e.asLin(tv))
	if !t.IsK() {
		panic(giveUp{"unknown token"})
	}
	toks, _ := st.Ghost["lx.toks"].(TupleV)
	st.Ghost["lx.toks"] = append(toks[:len(toks):len(toks)], t)
	w, known := cur.Const()
	cat := lxStr(st, "lx.cat")
	if known && w != "" {
		if d := x.due(cat, w); d != "" {
			e.nObl++
			if v, ok := x.toks[d]; ok && t.C != v && lxInt(st, "lx.end") == 0 {
				e.alarm(st, "token", at, "the word %s%s gives the token %s, not %s", w, in(cat), x.tokName(t.C), d)
			}
		}
		switch {
		case w == "order_start" || w == "order_end":
			lxSet(st, "lx.order", b2i(w == "order_start"))
		case lexKw[w] != "" && lxInt(st, "lx.end") == 1:
			e.nObl++
			if v, ok := x.toks[w+"_STR"]; ok && t.C != v {
				e.alarm(st, "token", at, "END %s gives the token %s, not %s_STR", w, x.tokName(t.C), w)
			}
			st.Ghost["lx.cat"] = SC("")
			lxSet(st, "lx.end", 0)
		case lexKw[w] != "" && cat == "":
			st.Ghost["lx.cat"] = SC(w)
		case w == "END" && cat != "":
			lxSet(st, "lx.end", 1)
		}
	}
	lxSet(st, "lx.start", lxInt(st, "lx.pos"))
	st.Ghost["lx.rw"] = SC("")
}

func in(cat string) string {
	if cat == "" {
		return ""
	}
	return " in " + cat
}

// refused judges an error: it must not be about a keyword in its place.
func (x *lexer) refused(st *State, at ssa.Instruction) {
	e := x.e
	e.nObl++
	if lxInt(st, "lx.ok") == 1 {
		e.alarm(st, "refused", at, "the definition %s is refused", x.show(st))
		return
	}
	cat, start := lxStr(st, "lx.cat"), lxInt(st, "lx.start")
	if cat == "" || start == 0 || lxInt(st, "lx.end") == 1 || lxInt(st, "lx.order") == 1 {
		return
	}
	// at the beginning of a line?
	if r := x.char(st, start-1); !r.IsK() || r.C != '\n' {
		return
	}
	w, i := "", start
	for ; i < len(lxCells(st)); i++ {
		r := x.char(st, i)
		if !r.IsK() || !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-", rune(r.C)) {
			break
		}
		w += string(rune(r.C))
	}
	if _, ok := lexWords(cat)[w]; !ok {
		return
	}
	if i < len(lxCells(st)) && len(x.split(st.clone(), i, []ival{{9, 9}, {32, 32}})) == 0 {
		return
	}
	e.alarm(st, "keyword", at, "the keyword %s of %s is refused", w, cat)
}

func (x *lexer) install() {
	e := x.e
	m := e.models
	name := func(f string) string { return "(*" + lexPkg + ".L)." + f }
	m[lexPkg+".New"] = func(c *Call) []SV {
		st := c.St
		if v, ok := c.Args[0].(StrV); ok {
			st.Ghost["lx.src"] = e.normStr(st, v)
		}
		x.start = c.Args[1]
		t := c.Typ.(*types.Pointer).Elem()
		id := e.alloc(st, &Obj{V: e.zero(st, t), Typ: t})
		return one(st, PtrV{Obj: id})
	}
	run := func(c *Call) []SV {
		if x.prep {
			return one(c.St, nil)
		}
		if x.start == nil {
			panic(giveUp{"a lexer that was not made by New"})
		}
		work := []SV{{c.St, x.start}}
		var out []SV
		for len(work) > 0 {
			w := work[len(work)-1]
			work = work[:len(work)-1]
			if v, ok := w.V.(FuncV); ok && v.Fn == nil && v.Ext == "" || w.V == nil {
				out = append(out, SV{w.St, nil})
				continue
			}
			if !x.tick(w.St, c.At) {
				continue
			}
			f, ok := w.V.(FuncV)
			if !ok || f.Fn == nil {
				panic(giveUp{"unknown state function"})
			}
			work = append(work, e.callFn(w.St, f.Fn, []Val{c.Args[0]}, f.Bind, c.At)...)
		}
		return out
	}
	m[name("Start")] = run
	m[name("StartSync")] = run
	m[name("Next")] = func(c *Call) []SV {
		if !x.tick(c.St, c.At) {
			return nil
		}
		return x.next(c.St)
	}
	m[name("Peek")] = func(c *Call) (out []SV) {
		if !x.tick(c.St, c.At) {
			return nil
		}
		for _, r := range x.next(c.St) {
			x.rewind(r.St)
			out = append(out, r)
		}
		return
	}
	m[name("Take")] = func(c *Call) (out []SV) {
		if !x.tick(c.St, c.At) {
			return nil
		}
		chars, ok := e.normStr(c.St, c.Args[1].(StrV)).Const()
		if !ok {
			panic(giveUp{"a set of characters that is not known"})
		}
		for _, s := range x.take(c.St, chars, false) {
			out = append(out, SV{s, nil})
		}
		return
	}
	m[name("Rewind")] = func(c *Call) []SV {
		if !x.tick(c.St, c.At) {
			return nil
		}
		x.rewind(c.St)
		return one(c.St, nil)
	}
	m[name("Ignore")] = func(c *Call) []SV {
		if !x.tick(c.St, c.At) {
			return nil
		}
		lxSet(c.St, "lx.start", lxInt(c.St, "lx.pos"))
		c.St.Ghost["lx.rw"] = SC("")
		return one(c.St, nil)
	}
	m[name("Current")] = func(c *Call) []SV {
		if !x.tick(c.St, c.At) {
			return nil
		}
		return one(c.St, x.current(c.St))
	}
	m[name("Emit")] = func(c *Call) []SV {
		if !x.tick(c.St, c.At) {
			return nil
		}
		x.emit(c.St, c.Args[1], c.At)
		return one(c.St, nil)
	}
	m[name("Error")] = func(c *Call) []SV {
		x.refused(c.St, c.At)
		p, ok := c.Args[0].(PtrV)
		sty := c.Sig.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; ok && i < sty.NumFields(); i++ {
			if sty.Field(i).Name() == "ErrorHandler" {
				q := p
				q.Path = append(q.Path[:len(q.Path):len(q.Path)], PE{F: i})
				for _, r := range e.load(c.St, q) {
					if v, ok := r.V.(FuncV); ok && (v.Fn != nil || v.Ext != "") {
						panic(giveUp{"the lexer goes on after an error"})
					}
				}
			}
		}
		return nil // the library panics
	}
}

func newLex(e *Engine, budget int) *lexer {
	pkg := e.P.Pkgs[repoModule+"/pkg/locale"]
	if pkg == nil {
		panic(giveUp{"package pkg/locale not found"})
	}
	x := &lexer{e: e, pkg: pkg, toks: map[string]int64{}, budget: budget}
	for n, m := range pkg.Members {
		if c, ok := m.(*ssa.NamedConst); ok {
			if v, ok := constant.Int64Val(constant.ToInt(c.Value.Value)); ok {
				x.toks[n] = v
			}
		}
	}
	x.install()
	return x
}

// lexAll follows the lexer over every text that begins with pre.
func lexAll(pre string, budget int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		x := newLex(e, budget)
		e.onPanic = func(st *State, kind, msg string, at ssa.Instruction) bool { return kind == "panic" } // an error is reported so
		x.run(pre, nil)
	}
}

// run lexes a text: constants, and 0 for an unknown plain character.
func (x *lexer) run(text string, at ssa.Instruction) []*State {
	e := x.e
	fn := x.pkg.Func("NewLexer")
	if fn == nil {
		panic(giveUp{"the package has no NewLexer"})
	}
	inits := e.runInit(e.newState(), x.pkg)
	if len(inits) != 1 {
		panic(giveUp{"initialisation"})
	}
	st := inits[0]
	for _, c := range text {
		if c == 0 {
			x.fresh(st, ivals("\"\\\n\r;,<>()#", false))
			continue
		}
		x.add(st, SC(string(c)))
	}
	if x.full {
		lxSet(st, "lx.ok", 1)
		lxSet(st, "lx.eof", 1)
	}
	var out []*State
	for _, r := range e.call(st, fn, []Val{SC("")}, nil, at) {
		out = append(out, r.St)
	}
	return out
}

// lexLines follows the lexer over a definition for each keyword, its operand of unknown characters.
func lexLines(cat string) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		x := newLex(e, 0)
		x.full = true
		var ws []string
		kinds := lexWords(cat)
		for w := range kinds {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		n := 0
		for _, w := range ws {
			for _, o := range lexOperands[kinds[w]] {
				for _, sep := range []string{" ", "  \t"} {
					want := []string{cat + "_STR", "EOL", x.due(cat, w)}
					want = append(want, strings.Fields(o[1])...)
					want = append(want, "EOL", "END_STR", cat+"_STR", "EOL")
					n++
					for _, s := range x.run(cat+"\n"+w+sep+o[0]+"\nEND "+cat+"\n\n", nil) {
						x.tokens(s, want)
					}
				}
			}
		}
		if cat == "LC_COLLATE" {
			for _, o := range [][2]string{
				{"order_start\n<A>\n<b>\norder_end", "ORDER_START_STR EOL CHARSYMBOL EOL CHARSYMBOL EOL ORDER_END_STR"},
				{"order_start forward\n<A>\norder_end", "ORDER_START_STR FORWARD_STR EOL CHARSYMBOL EOL ORDER_END_STR"},
				{"order_start backward\n<A>\norder_end", "ORDER_START_STR BACKWARD_STR EOL CHARSYMBOL EOL ORDER_END_STR"},
				{"order_start position\norder_end", "ORDER_START_STR POSITION_STR EOL ORDER_END_STR"},
				{"collating-element <ch> from \"\x00\x00\"", "COLLATING_ELEMENT_STR CHARSYMBOL FROM_STR \" CHAR CHAR \""},
			} {
				want := append([]string{cat + "_STR", "EOL"}, strings.Fields(o[1])...)
				want = append(want, "EOL", "END_STR", cat+"_STR", "EOL")
				n++
				for _, s := range x.run(cat+"\n"+o[0]+"\nEND "+cat+"\n\n", nil) {
					x.tokens(s, want)
				}
			}
		}
		e.sites["definitions"] = n
	}
}

var lexOperands = map[string][][2]string{
	"c": {{"<A>", "CHARSYMBOL"}, {"<a-b>;<two>;<C9>", "CHARSYMBOL ; CHARSYMBOL ; CHARSYMBOL"}},
	"p": {{"(<a>,<A>)", "( CHARSYMBOL , CHARSYMBOL )"}, {"(<a>,<A>);(<b>,<B>)", "( CHARSYMBOL , CHARSYMBOL ) ; ( CHARSYMBOL , CHARSYMBOL )"}},
	"s": {{"\"\"", "TWO_DOUBLE_QUOTE_STR"}, {"\"\x00\x00\x00\"", "\" CHAR CHAR CHAR \""}, {"\"\x00\\;\x00\"", "\" CHAR CHAR CHAR \""}, {"\"\\x41\x00\"", "\" HEX_CHAR CHAR \""}, {"\"\\101\x00\"", "\" OCTAL_CHAR CHAR \""}, {"\"\\d065\x00\"", "\" DECIMAL_CHAR CHAR \""}, {"\"\\d65x\"", "\" DECIMAL_CHAR CHAR \""}},
	"S": {{"\"\x00\"", "\" CHAR \""}, {"\"\x00\x00\";\"\x00\";\"\"", "\" CHAR CHAR \" ; \" CHAR \" ; TWO_DOUBLE_QUOTE_STR"}},
	"i": {{"2", "NUMBER"}, {"-1", "NUMBER"}, {"1234567890", "NUMBER"}, {"0", "NUMBER"}},
	"I": {{"3", "NUMBER"}, {"3;3;-1", "NUMBER ; NUMBER ; NUMBER"}},
	"m": {{"\"\x00\x00\x00\"", "\" EXTENDED_REG_EXP \""}},
}

func (x *lexer) tokens(st *State, want []string) {
	e := x.e
	e.nObl++
	toks, _ := st.Ghost["lx.toks"].(TupleV)
	var got []string
	same := true
	k := 0
	for _, t := range toks {
		n := t.(Lin).C
		if n == x.toks["WHITESPACE"] {
			continue
		}
		got = append(got, x.tokName(n))
		if k >= len(want) {
			same = false
			continue
		}
		w := want[k]
		v, ok := x.toks[w]
		if len(w) == 1 {
			v, ok = int64(w[0]), true
		}
		if ok && v != n {
			same = false
		}
		k++
	}
	if !same || k != len(want) {
		e.alarm(st, "tokens", lastInstr(x.pkg.Func("NewLexer")), "the definition %s gives the tokens %s; due are %s", x.show(st), strings.Join(got, " "), strings.Join(want, " "))
	}
}

// lexPrep: comments, continued lines and the lines that set the two characters.
func lexPrep(depth int) func(e *Engine) {
	return func(e *Engine) {
		e.maxSteps *= 100
		x := newLex(e, 0)
		x.prep = true
		e.onPanic = func(st *State, kind, msg string, at ssa.Instruction) bool { return kind == "panic" } // an error is reported so
		if e.oneLine == nil {
			e.oneLine = map[Atom]bool{}
		}
		fn := x.pkg.Func("NewLexer")
		if fn == nil {
			panic(giveUp{"the package has no NewLexer"})
		}
		inits := e.runInit(e.newState(), x.pkg)
		if len(inits) != 1 {
			panic(giveUp{"initialisation"})
		}
		// X: unknown text
		lines := []string{"era_d_t_fmt \"X\"", "# comments, X.", "# comments, X\\", "era_d_t_fmt \"X\";\\", "            \"X\"  ", "escape_char /", "comment_char %", "% comments, X.", "era_d_t_fmt \"X\";/", "", "d_fmt \"é\""}
		n := 0
		var rec func(ls []string)
		rec = func(ls []string) {
			if len(ls) > 0 {
				n++
				st := inits[0].clone()
				var input StrV
				parts := make([]StrV, len(ls))
				for i, l := range ls {
					if i > 0 {
						input = SCat(input, SC("\n"))
					}
					v := SC(l)
					if k := strings.Index(l, "X"); k >= 0 {
						a := e.fnAtom("lextext", 's', K(int64(i)))
						e.oneLine[a] = true
						v = SCat(SC(l[:k]), SA(a), SC(l[k+1:]))
					}
					parts[i] = v
					input = SCat(input, v)
				}
				want, ok := lexPrepWant(ls, parts)
				if !ok {
					return
				}
				st.note("a definition of the lines %q (X: any text)", ls)
				rs := e.call(st, fn, []Val{input}, nil, nil)
				if len(ls) < depth { // another text after this one
					a := SA(e.fnAtom("lextext", 's', K(100)))
					e.oneLine[e.fnAtom("lextext", 's', K(100))] = true
					for _, r := range rs {
						second := []string{"era_d_t_fmt \"X\";\\", "era_d_t_fmt \"X\";/", "# comments, X.", "% comments, X."}
						var ps []StrV
						var in2 StrV
						for i, l := range second {
							k := strings.Index(l, "X")
							ps = append(ps, SCat(SC(l[:k]), a, SC(l[k+1:])))
							if i > 0 {
								in2 = SCat(in2, SC("\n"))
							}
							in2 = SCat(in2, ps[i])
						}
						due, _ := lexPrepWant(second, ps)
						for _, r2 := range e.call(r.St.clone(), fn, []Val{in2}, nil, nil) {
							e.nObl++
							got, ok := r2.St.Ghost["lx.src"].(StrV)
							if ok && e.strKnown(r2.St, got, due) != 1 && !lexForeign(e, got) {
								e.alarm(r2.St, "text", lastInstr(fn), "of the lines %q (X: any text), lexed after %q, the lexer reads %s; due is %s", second, ls, e.valString(got), e.valString(due))
							}
						}
					}
				}
				for _, r := range rs {
					e.nObl++
					got, ok := r.St.Ghost["lx.src"].(StrV)
					if !ok {
						panic(giveUp{"the lexer's text is not known"})
					}
					if e.strKnown(r.St, got, e.normStr(r.St, want)) != 1 {
						if lexForeign(e, got) { // a term that cannot be compared
							e.dropped = true
							continue
						}
						e.alarm(r.St, "text", lastInstr(fn), "of the lines %q (X: any text) the lexer reads %s; due is %s", ls, e.valString(got), e.valString(want))
					}
				}
			}
			if len(ls) == depth {
				return
			}
			for _, l := range lines {
				rec(append(ls[:len(ls):len(ls)], l))
			}
		}
		rec(nil)
		e.sites["texts"] = n
	}
}

func lexForeign(e *Engine, v StrV) (foreign bool) {
	e.eachAtom(v, func(a Atom) {
		if f := e.atoms[a].Fn; f != "lextext" {
			foreign = true
		}
	})
	return
}

// lexPrepWant is the text that is left to lex.
func lexPrepWant(ls []string, parts []StrV) (out StrV, ok bool) {
	comment, escape := byte('#'), byte('\\')
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		switch {
		case l != "" && l[0] == comment:
		case strings.HasPrefix(l, "comment_char "):
			comment = l[len(l)-1]
		case strings.HasPrefix(l, "escape_char "):
			escape = l[len(l)-1]
		default:
			v := parts[i]
			for len(l) > 0 && l[len(l)-1] == escape && i+1 < len(ls) {
				i++
				if n := ls[i]; n != "" && (n[0] == comment || n[0] == '#' || n[0] == '%' || strings.Contains(n, "_char")) {
					return out, false // the standard does not say
				}
				v = SCat(dropBack(v, 1), trimEnds(parts[i]))
				l = l[:len(l)-1] + strings.TrimSpace(ls[i])
			}
			out = SCat(out, v, SC("\n"))
		}
	}
	return out, true
}

// trimEnds works on a text that is known at its ends.
func trimEnds(v StrV) StrV {
	if len(v.P) == 0 {
		return v
	}
	p := append(v.P[:0:0], v.P...)
	a, b := SC(strings.TrimLeft(p[0].C, " ")), SC(strings.TrimRight(p[len(p)-1].C, " "))
	if len(p) == 1 {
		return SC(strings.TrimSpace(p[0].C))
	}
	if p[len(p)-1].V {
		b = StrV{p[len(p)-1:]}
	}
	return SCat(a, StrV{p[1 : len(p)-1]}, b)
}

func init() {
	register(&Prop{
		ID:    "C24",
		Pats:  []string{"./pkg/locale"},
		Rule:  "The state functions of the lexer are followed from NewLexer over an unknown text: a character is determined only as far as the lexer has looked at it, a word is one of the keywords or another one. On no path may the lexer make 150 calls without getting further in the text (it would do so for ever); every word that is a category or a keyword of the category it stands in must be emitted as the token of its name, and no keyword at the beginning of a line of its category may be refused. For every keyword with operands of its kind (unknown characters in strings) the whole list of tokens must be the one the grammar expects.",
		Trust: []string{"the methods of go-lexer's L (Next, Take, Emit ...) do what version 1.0 of the module does; an error ends the lexing", "characters are ASCII; the text is what is left when comments and continued lines have been dealt with"},
		Tasks: func(p *Program) []Task {
			var ts []Task
			add := func(name string, run func(e *Engine)) {
				ts = append(ts, Task{Name: name, Peeled: true, Levels: []int{200}, PeelCap: 200000, Run: run})
			}
			add("comments and continued lines", lexPrep(3+deeper()))
			add("any text", lexAll("", 6+2*deeper()))
			for _, c := range lexCats() {
				add("text in "+c, lexAll(c+"\n", 5+2*deeper()))
				add("definitions of "+c, lexLines(c))
			}
			for _, pre := range []string{"LC_COLLATE\norder_start", "LC_COLLATE\norder_start\n<A>\n", "LC_COLLATE\ncollating-element <A>", "LC_CTYPE\nupper <A>", "LC_CTYPE\ntoupper (<A>", "LC_TIME\nabday \"a", "LC_TIME\nd_fmt \"a\\", "LC_MONETARY\nmon_grouping 3", "LC_MESSAGES\nyesexpr \"", "LC_NUMERIC\ngrouping 1\nEND "} {
				add(fmt.Sprintf("text after %q", pre), lexAll(pre, 5+2*deeper()))
			}
			return ts
		},
	})
}
