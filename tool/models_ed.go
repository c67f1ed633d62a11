package main

// Channels of a task that follows goroutines, regular expressions, and readers of known text.

import (
	"bufio"
	"go/types"
	"regexp"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// runGo runs a goroutine to its end where it is started. What it sends waits in the channel.
// A goroutine that would have to wait for another one, or that writes results, is beyond this.
func (e *Engine) runGo(st *State, in *ssa.Go) []*State {
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, e.eval(st, a))
	}
	var fv Val
	if !in.Call.IsInvoke() {
		fv = e.eval(st, in.Call.Value)
	} else {
		panic(giveUp{"go statement on a method of an interface"})
	}
	e.inGo++
	defer func() { e.inGo-- }()
	var out []*State
	for _, r := range e.callVal(st, &in.Call, fv, args, in) {
		out = append(out, r.St)
	}
	return out
}

func (e *Engine) chanOf(st *State, ch Val) (ModelV, PtrV) {
	c, ok := ch.(ChanV)
	if !ok || c.Obj == 0 {
		panic(giveUp{"unknown channel"})
	}
	m, p, ok := e.modelAt(st, PtrV{Obj: c.Obj})
	if !ok {
		panic(giveUp{"unknown channel"})
	}
	return m, p
}

func (e *Engine) chanSend(st *State, ch, v Val, at ssa.Instruction) []*State {
	m, p := e.chanOf(st, ch)
	if isBoolT(m.F["closed"]) {
		e.panicAt(st, "chan", at, "send on a closed channel")
		return nil
	}
	q, _ := m.F["q"].(TupleV)
	e.setField(st, p, m, "q", append(q[:len(q):len(q)], v))
	return []*State{st}
}

func (e *Engine) chanClose(st *State, ch Val, at ssa.Instruction) []*State {
	m, p := e.chanOf(st, ch)
	if isBoolT(m.F["closed"]) {
		e.panicAt(st, "chan", at, "close of a closed channel")
		return nil
	}
	e.setField(st, p, m, "closed", BoolV{bTrue})
	return []*State{st}
}

func (e *Engine) chanRecv(st *State, ch Val, in *ssa.UnOp) []SV {
	m, p := e.chanOf(st, ch)
	q, _ := m.F["q"].(TupleV)
	el := in.X.Type().Underlying().(*types.Chan).Elem()
	if len(q) > 0 {
		e.setField(st, p, m, "q", q[1:len(q):len(q)])
		if in.CommaOk {
			return one(st, TupleV{q[0], BoolV{bTrue}})
		}
		return one(st, q[0])
	}
	if isBoolT(m.F["closed"]) {
		if in.CommaOk {
			return one(st, TupleV{e.zero(st, el), BoolV{bFalse}})
		}
		return one(st, e.zero(st, el))
	}
	if e.inGo > 0 {
		panic(giveUp{"a goroutine waits for another one"})
	}
	e.panicAt(st, "hang", in, "receive from a channel that nothing is sent on and nobody closes: the program hangs")
	return nil
}

// scanConst is Scan over a known text; ok false: not that case.
func (e *Engine) scanConst(c *Call, m ModelV, p PtrV) ([]SV, bool) {
	full := e.normStr(c.St, fstr(m, "content"))
	text, ok := full.Const()
	pos := e.n(c.St, fint(m, "pos"))
	if m.F["nofail"] == nil {
		return nil, false
	}
	split, _ := fstr(m, "split").Const()
	if !ok && split == "words" {
		return e.scanWord(c, m, p, full, pos)
	}
	if !ok || !pos.IsK() {
		return nil, false
	}
	f := map[string]bufio.SplitFunc{"lines": bufio.ScanLines, "words": bufio.ScanWords}[split]
	if f == nil {
		return nil, false
	}
	rest := text[pos.C:]
	adv, tok, err := f([]byte(rest), true)
	if err != nil {
		return nil, false
	}
	if tok == nil {
		e.setField(c.St, p, m, "tok", StrV{}, "done", BoolV{bTrue})
		return one(c.St, BoolV{bFalse}), true
	}
	e.setField(c.St, p, m, "pos", K(pos.C+int64(adv)), "tok", SC(string(tok)))
	return one(c.St, BoolV{bTrue}), true
}

// scanWord is Scan for the next word of a text of known parts and unknown words.
func (e *Engine) scanWord(c *Call, m ModelV, p PtrV, full StrV, pos Lin) ([]SV, bool) {
	rest := e.subStr(full, pos, e.strLen(full))
	if _, ok := e.words(rest); !ok {
		return nil, false
	}
	var tok StrV
	adv := K(0)
	end := false
	for _, q := range rest.P {
		if end {
			break
		}
		if q.V {
			tok, adv = SCat(tok, SA(q.A)), adv.Add(e.strLen(SA(q.A)))
			continue
		}
		for _, r := range q.C {
			n := int64(len(string(r)))
			if !unicode.IsSpace(r) {
				tok = SCat(tok, SC(string(r)))
			} else if len(tok.P) > 0 {
				adv, end = adv.AddK(n), true
				break
			}
			adv = adv.AddK(n)
		}
	}
	if len(tok.P) == 0 {
		e.setField(c.St, p, m, "tok", StrV{}, "done", BoolV{bTrue})
		return one(c.St, BoolV{bFalse}), true
	}
	e.setField(c.St, p, m, "pos", e.n(c.St, pos.Add(adv)), "tok", tok)
	return one(c.St, BoolV{bTrue}), true
}

func multiReaderModel(c *Call) []SV {
	e := c.E
	rs, ok := e.variadic(c.St, c.Args[0])
	if !ok {
		return e.unknown(c)
	}
	var text StrV
	for _, r := range rs {
		m, p, ok := e.source(c.St, r)
		if !ok || (m.F["nofail"] == nil && fkind(m) != "mem") {
			return e.unknown(c)
		}
		content := e.normStr(c.St, fstr(m, "content"))
		text = SCat(text, e.subStr(content, e.n(c.St, fint(m, "pos")), e.strLen(content)))
		e.setField(c.St, p, m, "pos", e.newInt("readahead"))
	}
	f := map[string]Val{"content": e.normStr(c.St, text), "pos": K(0), "kind": SC("mem"), "name": StrV{}, "nofail": BoolV{bTrue}}
	id := e.alloc(c.St, &Obj{V: ModelV{"strings.Reader", f}})
	return one(c.St, IfaceV{types.NewPointer(e.P.extType("strings", "Reader")), PtrV{Obj: id}})
}

func installEd(e *Engine) {
	m := e.models
	m["io.MultiReader"] = multiReaderModel
	compiled := map[string]*regexp.Regexp{}
	comp := func(posix bool, s string) (*regexp.Regexp, error) {
		k := s
		if posix {
			k = "\x00" + s
		}
		if r := compiled[k]; r != nil {
			return r, nil
		}
		var r *regexp.Regexp
		var err error
		if posix {
			r, err = regexp.CompilePOSIX(s)
		} else {
			r, err = regexp.Compile(s)
		}
		if err == nil {
			compiled[k] = r
		}
		return r, err
	}
	mk := func(posix, must bool) modelFn {
		return func(c *Call) []SV {
			s, ok := c.str(0).Const()
			if !ok {
				return e.unknown(c)
			}
			_, err := comp(posix, s)
			if err != nil {
				if must {
					e.panicAt(c.St, "regexp", c.At, "regexp %q does not compile", s)
					return nil
				}
				return one(c.St, TupleV{PtrV{}, e.mkErr("regexp", SC(err.Error()))})
			}
			id := e.alloc(c.St, &Obj{V: ModelV{"regexp", map[string]Val{"re": SC(s), "posix": BoolV{bConst(posix)}}}})
			if must {
				return one(c.St, PtrV{Obj: id})
			}
			return one(c.St, TupleV{PtrV{Obj: id}, IfaceV{}})
		}
	}
	m["regexp.MustCompile"] = mk(false, true)
	m["regexp.MustCompilePOSIX"] = mk(true, true)
	m["regexp.Compile"] = mk(false, false)
	m["regexp.CompilePOSIX"] = mk(true, false)
	re := func(c *Call) (*regexp.Regexp, string) {
		mm, _, ok := e.modelAt(c.St, c.Args[0])
		if !ok || mm.Kind != "regexp" {
			return nil, ""
		}
		s, _ := fstr(mm, "re").Const()
		r, _ := comp(isBoolT(mm.F["posix"]), s)
		return r, s
	}
	match := func(c *Call) []SV {
		r, pat := re(c)
		if r == nil {
			return e.unknown(c)
		}
		srcs := []SV{{c.St, c.Args[1]}}
		if _, ok := c.Args[1].(StrV); !ok {
			srcs = e.sliceToString(c.St, c.Args[1], true)
		}
		var out []SV
		for _, q := range srcs {
			s := e.normStr(q.St, q.V.(StrV))
			if k, ok := s.Const(); ok {
				out = append(out, SV{q.St, BoolV{bConst(r.MatchString(k))}})
				continue
			}
			out = append(out, SV{q.St, BoolV{e.boolTerm("rematch", SC(pat), s)}})
		}
		return out
	}
	m["(*regexp.Regexp).Match"] = match
	m["(*regexp.Regexp).MatchString"] = match
	m["(*regexp.Regexp).FindString"] = func(c *Call) []SV {
		r, _ := re(c)
		k, ok := c.str(1).Const()
		if r == nil || !ok {
			return e.unknown(c)
		}
		return one(c.St, SC(r.FindString(k)))
	}
	m["(*regexp.Regexp).FindStringIndex"] = func(c *Call) []SV {
		r, _ := re(c)
		k, ok := c.str(1).Const()
		if r == nil || !ok {
			return e.unknown(c)
		}
		ix := r.FindStringIndex(k)
		if ix == nil {
			return one(c.St, SliceV{})
		}
		return one(c.St, e.newSlice(c.St, types.Typ[types.Int], []Seg{{Kind: 'e', Len: K(1), V: K(int64(ix[0]))}, {Kind: 'e', Len: K(1), V: K(int64(ix[1]))}}))
	}
	m["(*regexp.Regexp).FindStringSubmatch"] = func(c *Call) []SV {
		r, _ := re(c)
		k, ok := c.str(1).Const()
		if r == nil || !ok {
			return e.unknown(c)
		}
		ms := r.FindStringSubmatch(k)
		if ms == nil {
			return one(c.St, SliceV{})
		}
		var segs []Seg
		for _, x := range ms {
			segs = append(segs, Seg{Kind: 'e', Len: K(1), V: SC(x)})
		}
		return one(c.St, e.newSlice(c.St, types.Typ[types.String], segs))
	}
	m["(*regexp.Regexp).ReplaceAllString"] = func(c *Call) []SV {
		r, _ := re(c)
		k, ok := c.str(1).Const()
		d, ok2 := c.str(2).Const()
		if r == nil || !ok || !ok2 {
			return e.unknown(c)
		}
		return one(c.St, SC(r.ReplaceAllString(k, d)))
	}
	m["(*regexp.Regexp).String"] = func(c *Call) []SV {
		_, s := re(c)
		return one(c.St, SC(s))
	}
	m["path/filepath.Dir"] = pure(func(c *Call) Val {
		if k, ok := c.str(0).Const(); ok {
			return SC(dirOf(k))
		}
		return e.strTerm("dirname", c.str(0))
	})
	m["path/filepath.Base"] = pure(func(c *Call) Val {
		if k, ok := c.str(0).Const(); ok {
			return SC(k[strings.LastIndexByte(k, '/')+1:])
		}
		return e.strTerm("basename", c.str(0))
	})
}

func dirOf(s string) string {
	i := strings.LastIndexByte(s, '/')
	switch {
	case i < 0:
		return "."
	case i == 0:
		return "/"
	}
	return s[:i]
}
