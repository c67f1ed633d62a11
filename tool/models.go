package main

// Models of the standard library functions the repository uses.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) event(st *State, ev string, at ssa.Instruction, args ...Val) []*State {
	e.nEvents++
	if e.onEvent == nil {
		return []*State{st}
	}
	return e.onEvent(st, ev, args, at)
}

// ---- errors

var errT types.Type

// errType is a concrete error type of the standard library.
func (e *Engine) errType() types.Type {
	if errT == nil {
		if p := e.P.Prog.ImportedPackage("errors"); p != nil {
			errT = types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
		} else {
			errT = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "errorString", nil), types.NewStruct(nil, nil), nil))
		}
	}
	return errT
}

func (e *Engine) mkErr(kind string, msg StrV) Val {
	return IfaceV{e.errType(), ErrV{Kind: kind, Msg: msg}}
}

func (e *Engine) failErr(kind string) Val { return e.mkErr(kind, e.newStr("errmsg")) }

func errKind(v Val) string {
	if i, ok := v.(IfaceV); ok && i.T != nil {
		if x, ok := i.V.(ErrV); ok {
			return x.Kind
		}
		return "?"
	}
	return ""
}

// ---- globals of other packages

func (e *Engine) extGlobal(st *State, g *ssa.Global, t types.Type) Val {
	switch g.String() {
	case "os.Args":
		if e.args != nil {
			var segs []Seg
			for _, a := range e.args {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: a})
			}
			return e.newSlice(st, types.Typ[types.String], segs)
		}
		n := e.argc()
		id := e.alloc(st, &Obj{Typ: t, Arr: &ArrC{Elem: types.Typ[types.String], Segs: []Seg{{Kind: 'i', Name: "args", Len: n}}}})
		e.addGe(st, n.AddK(-1))
		return SliceV{Arr: id, Len: n}
	case "os.Stdin":
		return e.stdFile(st, "stdin")
	case "os.Stdout":
		return e.stdFile(st, "stdout")
	case "os.Stderr":
		return e.stdFile(st, "stderr")
	case "io.EOF":
		return e.mkErr("EOF", SC("EOF"))
	case "io.ErrUnexpectedEOF":
		return e.mkErr("UEOF", SC("unexpected EOF"))
	case "os.ErrNotExist", "io/fs.ErrNotExist":
		return e.mkErr("ErrNotExist", SC("file does not exist"))
	case "io.Discard", "io/ioutil.Discard":
		return IfaceV{e.errType(), ModelV{Kind: "discard", F: map[string]Val{}}}
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return e.mkErr("sentinel:"+g.String(), SC(g.String()))
	}
	return e.havoc(st, t, g.String())
}

func (e *Engine) argc() Lin {
	a := e.fnAtom("argc", 'i')
	return LA(a)
}

func (e *Engine) stdFile(st *State, kind string) Val {
	f := map[string]Val{"kind": SC(kind)}
	if kind == "stdin" {
		f["content"] = SA(e.fnAtom("stdin", 's'))
		f["pos"] = K(0)
		f["name"] = SC("-")
		if e.stdinText != nil {
			f["content"], f["nofail"] = *e.stdinText, BoolV{bTrue}
		}
	}
	id := e.alloc(st, &Obj{V: ModelV{Kind: "os.File", F: f}, Site: kind})
	return PtrV{Obj: id}
}

// model access

func (e *Engine) modelAt(st *State, v Val) (ModelV, PtrV, bool) {
	if i, ok := v.(IfaceV); ok && i.T != nil {
		v = i.V
	}
	switch p := v.(type) {
	case PtrV:
		if p.Obj == 0 {
			return ModelV{}, p, false
		}
		for _, r := range e.load(st, p) {
			if m, ok := r.V.(ModelV); ok {
				if sl, ok := m.F["arr"].(SliceV); ok { // a reader of a slice: what the slice holds now
					if o := st.Heap[sl.Arr]; o != nil && o.Arr != nil {
						if rs := e.sliceToString(st.clone(), sl, true); len(rs) == 1 {
							f := make(map[string]Val, len(m.F))
							for k, v := range m.F {
								f[k] = v
							}
							f["content"] = rs[0].V
							m = ModelV{m.Kind, f}
						}
					}
				}
				return m, p, true
			}
		}
		return ModelV{}, p, false
	case ModelV:
		return p, PtrV{}, true
	}
	return ModelV{}, PtrV{}, false
}

func (e *Engine) setField(st *State, p PtrV, m ModelV, kv ...interface{}) ModelV {
	f := make(map[string]Val, len(m.F)+1)
	for k, v := range m.F {
		f[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		f[kv[i].(string)] = kv[i+1]
	}
	n := ModelV{m.Kind, f}
	if p.Obj != 0 {
		e.store(st, p, n)
	}
	return n
}

func fstr(m ModelV, k string) StrV {
	if v, ok := m.F[k].(StrV); ok {
		return v
	}
	return StrV{}
}
func fint(m ModelV, k string) Lin {
	if v, ok := m.F[k].(Lin); ok {
		return v
	}
	return K(0)
}
func fkind(m ModelV) string { s, _ := fstr(m, "kind").Const(); return s }

// ---- reading

// source finds the stream behind a reader: the model that holds content and pos.
func (e *Engine) source(st *State, v Val) (ModelV, PtrV, bool) {
	m, p, ok := e.modelAt(st, v)
	if !ok {
		return m, p, false
	}
	if _, has := m.F["content"]; !has {
		if src, has := m.F["src"]; has {
			return e.source(st, src)
		}
		return m, p, false
	}
	return m, p, true
}

// openFile models the opening of a file for reading.
func openModel(c *Call) []SV {
	e := c.E
	name := e.normStr(c.St, c.Args[0].(StrV))
	pt := c.Typ.(*types.Tuple).At(0).Type()
	_ = pt
	var out []SV
	bad := c.St.clone()
	bad.note("%s: opening %s fails", e.instrPos(c.At), e.valString(name))
	for _, s := range e.event(bad, "openfail", c.At, name) {
		out = append(out, SV{s, TupleV{PtrV{}, e.failErr("open")}})
	}
	if k, ok := name.Const(); ok && k == "" {
		return out // there is no file without a name
	}
	for _, s := range e.event(c.St, "open", c.At, name) {
		id := e.alloc(s, &Obj{V: ModelV{"os.File", map[string]Val{"kind": SC("file"), "name": name, "content": e.strTerm("content", name), "pos": K(0)}}})
		out = append(out, SV{s, TupleV{PtrV{Obj: id}, IfaceV{}}})
	}
	return out
}

func createModel(c *Call) []SV {
	e := c.E
	name := e.normStr(c.St, c.Args[0].(StrV))
	var out []SV
	bad := c.St.clone()
	bad.note("%s: creating %s fails", e.instrPos(c.At), e.valString(name))
	for _, s := range e.event(bad, "createfail", c.At, name) {
		out = append(out, SV{s, TupleV{PtrV{}, e.failErr("create")}})
	}
	fl := Val(K(0o1002)) // as os.Create opens
	if len(c.Args) > 1 {
		fl = e.n(c.St, e.asLin(c.Args[1]))
	}
	if k, ok := name.Const(); ok && k == "" {
		return out // there is no file without a name
	}
	for _, s := range e.event(c.St, "create", c.At, name, fl) {
		id := e.alloc(s, &Obj{V: ModelV{"os.File", map[string]Val{"kind": SC("out"), "name": name}}})
		out = append(out, SV{s, TupleV{PtrV{Obj: id}, IfaceV{}}})
	}
	return out
}

// readTo models delimiter-terminated reads. mk builds the data value.
func (e *Engine) readTo(c *Call, delim Lin, mk func(*State, StrV) Val) []SV {
	st := c.St
	m, p, ok := e.source(st, c.Args[0])
	if !ok {
		return e.unknown(c)
	}
	content, pos := e.normStr(st, fstr(m, "content")), e.n(st, fint(m, "pos"))
	n := e.strLen(content)
	var out []SV
	emit := func(s *State, from, to Lin, err Val, what string) {
		d := e.subStr(content, from, to)
		e.setField(s, p, m, "pos", to)
		for _, t := range e.event(s, what, c.At, content, from, to) {
			out = append(out, SV{t, TupleV{mk(t, d), err}})
		}
	}
	// a read error
	{
		s := st.clone()
		q := e.newInt("errpos")
		if e.addGe(s, q.Sub(pos)) && e.addGe(s, n.Sub(q)) {
			s.note("%s: reading fails", e.instrPos(c.At))
			emit(s, pos, q, e.failErr("read"), "readfail")
		}
	}
	if d := e.n(st, delim); e.stdinText != nil && len(content.P) > 1 && d.IsK() && d.C > 0 && d.C < 128 {
		rest := e.normStr(st, e.subStr(content, pos, n))
		if fs, ok := e.findByte(st.clone(), rest, byte(d.C)); ok {
			for _, f := range fs {
				if f.ok {
					emit(f.st, pos, e.n(f.st, pos.Add(f.at).AddK(1)), IfaceV{}, "readrec")
				} else {
					emit(f.st, pos, n, e.mkErr("EOF", SC("EOF")), "readeof")
				}
			}
			return out
		}
	}
	// the end of the input
	{
		s := st.clone()
		if e.addGe(s, n.Sub(pos)) {
			q := e.boolTerm("hasdelim", content, pos, delim)
			for _, t := range e.assume(s, q, false) {
				t.note("%s: end of input", e.instrPos(c.At))
				if e.unroll > 0 {
					// the rest is empty or does not end in the delimiter
					for _, u := range e.assume(t.clone(), bEq0(e.n(t, n.Sub(pos))), true) {
						emit(u, pos, n, e.mkErr("EOF", SC("EOF")), "readeof")
					}
					if e.addGe(t, n.Sub(pos).AddK(-1)) && e.addNe(t, e.byteAt(content, e.n(t, n.AddK(-1))).Sub(delim)) {
						emit(t, pos, n, e.mkErr("EOF", SC("EOF")), "readeof")
					}
					continue
				}
				emit(t, pos, n, e.mkErr("EOF", SC("EOF")), "readeof")
			}
		}
	}
	// a delimited record
	x := LA(e.fnAtom("next", 'i', content, pos, delim))
	if e.addGe(st, n.Sub(x).AddK(-1)) && e.addGe(st, x.Sub(pos)) {
		for _, t := range e.assume(st, e.boolTerm("hasdelim", content, pos, delim), true) {
			if !e.addEq(t, e.byteAt(content, x).Sub(delim)) {
				continue
			}
			emit(t, pos, x.AddK(1), IfaceV{}, "readrec")
		}
	}
	return out
}

func (e *Engine) bytesOf(st *State, s StrV) Val {
	n := e.strLen(s)
	if n.Is0() {
		return e.newSlice(st, types.Typ[types.Uint8], nil)
	}
	return e.newSlice(st, types.Typ[types.Uint8], []Seg{{Kind: 'b', V: s, Len: n}})
}

func readByteModel(c *Call) []SV {
	e, st := c.E, c.St
	m, p, ok := e.source(st, c.Args[0])
	if !ok {
		return e.unknown(c)
	}
	content, pos := e.normStr(st, fstr(m, "content")), e.n(st, fint(m, "pos"))
	n := e.strLen(content)
	var out []SV
	if fkind(m) != "mem" {
		bad := st.clone()
		bad.note("%s: reading fails", e.instrPos(c.At))
		for _, s := range e.event(bad, "readfail", c.At, content, pos, pos) {
			out = append(out, SV{s, TupleV{K(0), e.failErr("read")}})
		}
	}
	end := st.clone()
	if e.addGe(end, pos.Sub(n)) {
		end.note("%s: end of input", e.instrPos(c.At))
		for _, s := range e.event(end, "readeof", c.At, content, pos, pos) {
			out = append(out, SV{s, TupleV{K(0), e.mkErr("EOF", SC("EOF"))}})
		}
	}
	if e.addGe(st, n.Sub(pos).AddK(-1)) {
		e.setField(st, p, m, "pos", pos.AddK(1))
		b := e.byteAt(content, pos)
		for _, s := range e.event(st, "readbyte", c.At, content, pos, pos.AddK(1)) {
			out = append(out, SV{s, TupleV{b, IfaceV{}}})
		}
	}
	return out
}

// readAll consumes the rest of a source.
func (e *Engine) readAll(c *Call, src Val, f func(st *State, data StrV, err Val) []SV) []SV {
	st := c.St
	m, p, ok := e.source(st, src)
	if !ok {
		data := e.newStr("data")
		var out []SV
		bad := st.clone()
		for _, s := range e.event(bad, "readfail", c.At, data, K(0), K(0)) {
			out = append(out, f(s, data, e.failErr("read"))...)
		}
		return append(out, f(st, data, IfaceV{})...)
	}
	content, pos := e.normStr(st, fstr(m, "content")), e.n(st, fint(m, "pos"))
	n := e.strLen(content)
	var out []SV
	bad := st.clone()
	q := e.newInt("errpos")
	if e.addGe(bad, q.Sub(pos)) && e.addGe(bad, n.Sub(q)) {
		bad.note("%s: reading fails", e.instrPos(c.At))
		e.setField(bad, p, m, "pos", q)
		for _, s := range e.event(bad, "readfail", c.At, content, pos, q) {
			out = append(out, f(s, e.subStr(content, pos, q), e.failErr("read"))...)
		}
	}
	if !e.addGe(st, n.Sub(pos)) {
		return out
	}
	e.setField(st, p, m, "pos", n)
	for _, s := range e.event(st, "readall", c.At, content, pos, n) {
		out = append(out, f(s, e.subStr(content, pos, n), IfaceV{})...)
	}
	return out
}

// readBuf models Read(buf).
func readBufModel(c *Call) []SV {
	e, st := c.E, c.St
	m, p, ok := e.source(st, c.Args[0])
	buf, ok2 := c.Args[1].(SliceV)
	if !ok || !ok2 {
		return e.unknown(c)
	}
	content, pos := e.normStr(st, fstr(m, "content")), e.n(st, fint(m, "pos"))
	n := e.strLen(content)
	var out []SV
	if fkind(m) != "mem" {
		bad := st.clone()
		bad.note("%s: reading fails", e.instrPos(c.At))
		for _, s := range e.event(bad, "readfail", c.At, content, pos, pos) {
			out = append(out, SV{s, TupleV{K(0), e.failErr("read")}})
		}
	}
	end := st.clone()
	if e.addGe(end, pos.Sub(n)) {
		for _, s := range e.event(end, "readeof", c.At, content, pos, pos) {
			out = append(out, SV{s, TupleV{K(0), e.mkErr("EOF", SC("EOF"))}})
		}
	}
	k := e.newInt("nread")
	if e.addGe(st, k.AddK(-1)) && e.addGe(st, n.Sub(pos).Sub(k)) && e.addGe(st, buf.Len.Sub(k)) {
		e.setField(st, p, m, "pos", pos.Add(k))
		st = e.splice(st, buf, k, []Seg{{Kind: 'b', V: content, From: pos, Len: k}})
		for _, s := range e.event(st, "readbuf", c.At, content, pos, pos.Add(k)) {
			out = append(out, SV{s, TupleV{k, IfaceV{}}})
		}
	}
	return out
}

// newBuffered wraps a reader: it takes over the source's stream.
func newBuffered(kind string) modelFn {
	return func(c *Call) []SV {
		e, st := c.E, c.St
		src := c.Args[0]
		f := map[string]Val{}
		if m, p, ok := e.source(st, src); ok {
			for k, v := range m.F {
				f[k] = v
			}
			// read-ahead: where the source stands afterwards is unknown
			q := e.newInt("readahead")
			e.addGe(st, q.Sub(fint(m, "pos")))
			e.addGe(st, e.strLen(fstr(m, "content")).Sub(q))
			e.setField(st, p, m, "pos", q)
		} else {
			f["content"] = e.newStr("input")
			f["pos"] = K(0)
			f["kind"] = SC("unknown")
			f["name"] = StrV{}
		}
		if kind == "bufio.Scanner" {
			f["split"] = SC("lines")
			f["err"] = IfaceV{}
			f["tok"] = StrV{}
			f["done"] = BoolV{bFalse}
		}
		id := e.alloc(st, &Obj{V: ModelV{kind, f}})
		return one(st, PtrV{Obj: id})
	}
}

// ---- bufio.Scanner

func scanModel(c *Call) []SV {
	e, st := c.E, c.St
	m, p, ok := e.modelAt(st, c.Args[0])
	if !ok || m.F["content"] == nil {
		return e.unknown(c)
	}
	if r, ok := e.scanConst(c, m, p); ok {
		return r
	}
	content, pos := e.normStr(st, fstr(m, "content")), e.n(st, fint(m, "pos"))
	n := e.strLen(content)
	split, _ := fstr(m, "split").Const()
	var out []SV
	fail := func(s *State, err Val, what string) {
		e.setField(s, p, m, "err", err, "tok", StrV{}, "done", BoolV{bTrue})
		for _, t := range e.event(s, what, c.At, content, pos, n) {
			out = append(out, SV{t, BoolV{bFalse}})
		}
	}
	if d, ok := m.F["done"].(BoolV); ok && d.E.K == 'T' {
		return one(st, BoolV{bFalse})
	}
	bad := st.clone()
	bad.note("%s: scanning fails (read error or token too long)", e.instrPos(c.At))
	fail(bad, e.failErr("scan"), "readfail")
	more := e.boolTerm("more:"+split, content, pos)
	for _, s := range e.assume(st.clone(), more, false) {
		s.note("%s: end of input", e.instrPos(c.At))
		fail(s, IfaceV{}, "readeof")
	}
	for _, s := range e.assume(st, more, true) {
		q := LA(e.fnAtom("after:"+split, 'i', content, pos))
		if !e.addGe(s, q.Sub(pos).AddK(-1)) || !e.addGe(s, n.Sub(q)) {
			continue
		}
		tok := e.strTerm("tok:"+split, content, pos)
		if split == "words" {
			if !e.addGe(s, e.strLen(tok).AddK(-1)) {
				continue
			}
		}
		if !e.addGe(s, q.Sub(pos).Sub(e.strLen(tok))) {
			continue
		}
		e.setField(s, p, m, "pos", q, "tok", tok)
		for _, t := range e.event(s, "scantok", c.At, content, pos, q, tok) {
			out = append(out, SV{t, BoolV{bTrue}})
		}
	}
	return out
}

// ---- writing

// write sends data to a writer value.
func (e *Engine) write(st *State, dst Val, data StrV, at ssa.Instruction) []*State {
	data = e.normStr(st, data)
	m, p, ok := e.modelAt(st, dst)
	if !ok {
		e.nEvents++
		if i, isI := dst.(IfaceV); isI && i.T != nil {
			// a writer of the repository
			if fn := e.P.Prog.LookupMethod(i.T, nil, "Write"); fn != nil && fn.Pkg != nil && isRepoPath(fn.Pkg.Pkg.Path()) {
				var out []*State
				for _, r := range e.callFn(st, fn, []Val{i.V, e.bytesOf(st, data)}, nil, at) {
					out = append(out, r.St)
				}
				return out
			}
		}
		return []*State{st}
	}
	switch m.Kind {
	case "os.File":
		e.nEvents++
		ev := WriteEv{Dst: dst, Kind: fkind(m), Data: data, At: at}
		if ev.Kind == "stdout" && e.wantOut {
			if b, ok := st.Ghost["$unflushed"].(BoolV); ok && b.E.K == 'T' {
				e.alarm(st, "order", at, "standard output is written directly while a buffered writer still holds earlier output")
			}
		}
		if e.onWrite != nil {
			return e.onWrite(st, ev)
		}
		return []*State{st}
	case "bufio.Writer":
		inner, _, ok := e.modelAt(st, m.F["dst"])
		if ok && inner.Kind == "os.File" {
			k := fkind(inner)
			e.nEvents++
			if k == "stdout" {
				st.Ghost["$unflushed"] = BoolV{bTrue}
			}
			e.setField(st, p, m, "dirty", BoolV{bTrue})
			if e.onWrite != nil {
				return e.onWrite(st, WriteEv{Dst: m.F["dst"], Kind: k, Data: data, At: at})
			}
			return []*State{st}
		}
		return e.write(st, m.F["dst"], data, at)
	case "strings.Builder", "bytes.Buffer":
		if old, ok := m.F["stale"].(TupleV); ok && !e.strLen(data).Is0() {
			// the storage that was handed out is used again
			for _, v := range old {
				if o := st.Heap[v.(SliceV).Arr]; o != nil && o.Arr != nil {
					ob := *o
					ob.Arr = &ArrC{Elem: o.Arr.Elem, Segs: []Seg{{Kind: 'b', V: e.newStr("overwritten"), Len: segsLen(o.Arr.Segs)}}}
					st.Heap[v.(SliceV).Arr] = &ob
				}
			}
			m = e.setField(st, p, m, "stale", nil)
		}
		if _, unk := m.F["unknown"]; !unk {
			e.setField(st, p, m, "s", SCat(e.normStr(st, fstr(m, "s")), data))
		}
		return []*State{st}
	case "discard":
		return []*State{st}
	case "multi":
		cur := []*State{st}
		if s, ok := m.F["dsts"].(TupleV); ok {
			for _, d := range s {
				var nx []*State
				for _, x := range cur {
					nx = append(nx, e.write(x, d, data, at)...)
				}
				cur = nx
			}
		}
		return cur
	}
	return []*State{st}
}

func (e *Engine) writeSV(c *Call, dst Val, data StrV) []SV {
	out := e.writeFails(c.St, dst, c.At)
	for _, s := range e.write(c.St, dst, data, c.At) {
		out = append(out, SV{s, TupleV{e.strLen(e.normStr(s, data)), IfaceV{}}})
	}
	return out
}

func (e *Engine) exit(st *State, code Val, at ssa.Instruction) {
	e.nEvents++
	if b, ok := st.Ghost["$unflushed"].(BoolV); ok && b.E.K == 'T' && e.wantOut {
		e.alarm(st, "unflushed", at, "the program ends while buffered standard output has not been flushed")
	}
	if e.onExit != nil {
		e.onExit(st, code, at)
	}
}

// variadic lists the values of a ...interface{} argument; ok is false when their number is unknown.
func (e *Engine) variadic(st *State, v Val) ([]Val, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	if s.Arr == 0 {
		return nil, true
	}
	vs := e.view(st.clone(), s)
	if len(vs) != 1 {
		return nil, false
	}
	var out []Val
	for _, g := range vs[0].Segs {
		if g.Kind == 'z' && g.Len.IsK() && g.Len.C < 20 {
			for i := int64(0); i < g.Len.C; i++ {
				out = append(out, IfaceV{})
			}
			continue
		}
		if g.Kind != 'e' {
			return nil, false
		}
		out = append(out, e.nv(st, g.V))
	}
	return out, true
}

// showArg renders an interface value as fmt would with %v or %s.
func (e *Engine) showArg(st *State, v Val, verb byte, at ssa.Instruction) StrV {
	i, ok := v.(IfaceV)
	if !ok {
		return e.strTerm("show", v)
	}
	if i.T == nil {
		return SC("<nil>")
	}
	if er, ok := i.V.(ErrV); ok {
		return er.Msg
	}
	if verb == 'v' || verb == 's' {
		for _, meth := range []string{"Error", "String"} {
			ms := e.P.Prog.MethodSets.MethodSet(i.T)
			if sel := ms.Lookup(nil, meth); sel != nil {
				fn := e.P.Prog.MethodValue(sel)
				if fn != nil && len(fn.Blocks) > 0 && fn.Pkg != nil && isRepoPath(fn.Pkg.Pkg.Path()) && fn.Signature.Params().Len() == 0 {
					rs := e.callFn(st.clone(), fn, []Val{i.V}, nil, at)
					if len(rs) == 1 {
						if s, ok := rs[0].V.(StrV); ok {
							return s
						}
					}
					return e.shown(st)
				}
				return e.shown(st)
			}
		}
	}
	switch x := i.V.(type) {
	case StrV:
		return x
	case Lin:
		switch {
		case isIntT(i.T):
			return e.itoa(e.n(st, x))
		}
	case BVV:
		return e.itoa(e.bvToLin(x))
	case BoolV:
		switch e.evalB(st, x.E) {
		case 1:
			return SC("true")
		case 0:
			return SC("false")
		}
	case SliceV:
		if el, ok := i.T.Underlying().(*types.Slice); ok {
			if b, ok := el.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb == 's' {
				vs := e.view(st.clone(), x)
				if len(vs) == 1 {
					return e.segsToStr(st, vs[0].Segs)
				}
			}
		}
	}
	return e.shown(st)
}

// shown is the text of a value whose formatting is not modelled.
func (e *Engine) shown(st *State) StrV {
	return e.newStr("shown?")
}

// sprintf expands a constant format.
func (e *Engine) sprintf(st *State, fv Val, args []Val, known bool, at ssa.Instruction) StrV {
	fs, ok := fv.(StrV)
	if !ok {
		return e.newStr("formatted?")
	}
	f, ok := e.normStr(st, fs).Const()
	if !ok || !known {
		if !known || len(args) > 0 {
			return e.newStr("formatted?")
		}
		return e.newStr("formatted")
	}
	var out []StrV
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, SC(f[i:]))
			break
		}
		out = append(out, SC(f[i:i+j]))
		i += j + 1
		start := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out = append(out, SC("%!(NOVERB)"))
			break
		}
		flags, verb := f[start:i], f[i]
		i++
		if verb == '%' {
			out = append(out, SC("%"))
			continue
		}
		if k >= len(args) {
			out = append(out, SC("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[k]
		k++
		if flags != "" {
			out = append(out, e.strTerm("fmt:"+flags+string(verb), e.stripIface(st, a)))
			continue
		}
		switch verb {
		case 's', 'v':
			out = append(out, e.showArg(st, a, verb, at))
		case 'd':
			if i, ok := a.(IfaceV); ok && i.T != nil {
				if isIntT(i.T) {
					out = append(out, e.itoa(e.n(st, e.asLin(i.V))))
					continue
				}
			}
			out = append(out, e.newStr("badverb"))
		default:
			out = append(out, e.strTerm("fmt:"+string(verb), e.stripIface(st, a)))
		}
	}
	if k < len(args) {
		out = append(out, e.newStr("%!(EXTRA)"))
	}
	return SCat(out...)
}

func (e *Engine) stripIface(st *State, v Val) Val {
	if i, ok := v.(IfaceV); ok {
		if i.T == nil {
			return SC("<nil>")
		}
		switch x := i.V.(type) {
		case Lin:
			return e.n(st, x)
		case StrV:
			return e.normStr(st, x)
		case BVV:
			return e.bvToLin(x)
		}
		return e.newStr("arg?")
	}
	return e.newStr("arg?")
}

func (e *Engine) sprintln(st *State, args []Val, known, ln bool, at ssa.Instruction) StrV {
	if !known {
		s := e.newStr("printed")
		if ln {
			return SCat(s, SC("\n"))
		}
		return s
	}
	var out []StrV
	for i, a := range args {
		if i > 0 {
			if ln {
				out = append(out, SC(" "))
			} else if !isStringArg(a) && !isStringArg(args[i-1]) {
				out = append(out, SC(" "))
			}
		}
		out = append(out, e.showArg(st, a, 'v', at))
	}
	if ln {
		out = append(out, SC("\n"))
	}
	return SCat(out...)
}

func isStringArg(v Val) bool {
	i, ok := v.(IfaceV)
	return ok && i.T != nil && isStrT(i.T)
}

// boolFork returns one state per value of a condition.
func (e *Engine) boolFork(st *State, c *BExpr, f func(*State, bool) []SV) []SV {
	switch e.evalB(st, c) {
	case 1:
		return f(st, true)
	case 0:
		return f(st, false)
	}
	var out []SV
	for _, s := range e.assume(st.clone(), c, true) {
		out = append(out, f(s, true)...)
	}
	for _, s := range e.assume(st, c, false) {
		out = append(out, f(s, false)...)
	}
	return out
}

func (e *Engine) hasPrefix(s, p StrV) *BExpr {
	if c, ok := p.Const(); ok {
		cs := []*BExpr{bGe(e.strLen(s).AddK(-int64(len(c))))}
		if cs[0].K == 'F' {
			return bFalse
		}
		for i := 0; i < len(c); i++ {
			cs = append(cs, bEq0(e.byteAt(s, K(int64(i))).AddK(-int64(c[i]))))
		}
		return bAnd(cs...)
	}
	return e.boolTerm("hasprefix", s, p)
}

func (e *Engine) hasSuffix(s, p StrV) *BExpr {
	if c, ok := p.Const(); ok {
		if n := len(s.P); c == "\n" && n > 0 && s.P[n-1].V && e.lacks(s.P[n-1].A, '\n') {
			rest := StrV{s.P[:n-1]}
			return bAnd(bEq0(e.strLen(StrV{s.P[n-1:]})), e.hasSuffix(rest, p))
		}
		n := e.strLen(s)
		cs := []*BExpr{bGe(n.AddK(-int64(len(c))))}
		if cs[0].K == 'F' {
			return bFalse
		}
		for i := 0; i < len(c); i++ {
			cs = append(cs, bEq0(e.byteAt(s, n.AddK(int64(i-len(c)))).AddK(-int64(c[i]))))
		}
		return bAnd(cs...)
	}
	return e.boolTerm("hassuffix", s, p)
}
