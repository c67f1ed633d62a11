package main

// Models of readers that stop early: lines longer than the buffer, limited readers.

import "go/types"

const errBufferFull = "sentinel:bufio.ErrBufferFull"

// bufferSize is the least size of the buffer of a bufio.Reader that was not given one.
const bufferSize = 4096

// readSlice is readTo with the additional outcome that the buffer is full before the delimiter;
// full says what that returns.
func (e *Engine) readSlice(c *Call, delim Lin, mk func(*State, StrV) Val, full func(st *State, d StrV) []SV) []SV {
	st := c.St
	m, p, ok := e.source(st, c.Args[0])
	if !ok || m.Kind != "bufio.Reader" || e.stdinText != nil {
		return e.unknown(c)
	}
	var out []SV
	content, pos := e.normStr(st, fstr(m, "content")), e.n(st, fint(m, "pos"))
	n := e.strLen(content)
	size := K(bufferSize)
	if m.F["size"] != nil {
		size = e.newInt("bufsize")
		e.addGe(st, size.AddK(-16))
	}
	q := e.n(st, pos.Add(size))
	s := st.clone()
	if e.addGe(s, n.Sub(q)) {
		emit := func(s *State) {
			s.note("%s: the line is longer than the buffer", e.instrPos(c.At))
			e.setField(s, p, m, "pos", q)
			for _, t := range e.event(s, "readrec", c.At, content, pos, q) {
				out = append(out, full(t, e.subStr(content, pos, q))...)
			}
		}
		h0, h1 := e.boolTerm("hasdelim", content, pos, delim), e.boolTerm("hasdelim", content, q, delim)
		x0, x1 := LA(e.fnAtom("next", 'i', content, pos, delim)), LA(e.fnAtom("next", 'i', content, q, delim))
		for _, t := range e.assume(s.clone(), h0, false) {
			for _, u := range e.assume(t, h1, false) {
				emit(u)
			}
		}
		for _, t := range e.assume(s, h0, true) {
			for _, u := range e.assume(t, h1, true) {
				if e.addEq(u, x0.Sub(x1)) && e.addGe(u, x0.Sub(q)) && e.addGe(u, n.Sub(x0).AddK(-1)) {
					emit(u)
				}
			}
		}
	}
	return append(out, e.readTo(c, delim, mk)...)
}

// copyN copies at most n bytes: an end of the input before that is reported as EOF.
func copyNModel(c *Call) []SV {
	e := c.E
	m, p, ok := e.source(c.St, c.Args[1])
	lim := e.n(c.St, e.asLin(c.Args[2]))
	if !ok || e.stdinText != nil {
		return e.unknown(c)
	}
	content, pos := e.normStr(c.St, fstr(m, "content")), e.n(c.St, fint(m, "pos"))
	n := e.strLen(content)
	wr := func(s *State, d StrV, err Val) (out []SV) {
		for _, t := range e.write(s, c.Args[0], d, c.At) {
			out = append(out, SV{t, TupleV{e.strLen(e.normStr(t, d)), err}})
		}
		return out
	}
	var out []SV
	s := c.St.clone()
	if e.addGe(s, n.Sub(pos).Sub(lim)) && e.addGe(s, lim) {
		to := e.n(s, pos.Add(lim))
		e.setField(s, p, m, "pos", to)
		for _, t := range e.event(s, "readbuf", c.At, content, pos, to) {
			out = append(out, wr(t, e.subStr(content, pos, to), IfaceV{})...)
		}
	}
	if !e.addGe(c.St, lim.Sub(n).Add(pos).AddK(-1)) {
		return out
	}
	return append(out, e.readAll(c, c.Args[1], func(t *State, d StrV, err Val) []SV {
		if i, ok := err.(IfaceV); ok && i.T == nil {
			err = e.mkErr("EOF", SC("EOF"))
		}
		return wr(t, d, err)
	})...)
}

// limitModel: a reader of at most n more bytes of another.
func limitModel(c *Call) []SV {
	e := c.E
	m, p, ok := e.source(c.St, c.Args[0])
	lim := e.n(c.St, e.asLin(c.Args[1]))
	if !ok || e.stdinText != nil {
		return e.unknown(c)
	}
	content, pos := e.normStr(c.St, fstr(m, "content")), e.n(c.St, fint(m, "pos"))
	n := e.strLen(content)
	mk := func(s *State, to Lin) []SV {
		f := map[string]Val{}
		for k, v := range m.F {
			f[k] = v
		}
		f["content"] = e.normStr(s, e.subStr(content, K(0), to))
		q := e.newInt("readahead")
		e.addGe(s, q.Sub(pos))
		e.addGe(s, to.Sub(q))
		e.setField(s, p, m, "pos", q)
		id := e.alloc(s, &Obj{V: ModelV{"io.LimitedReader", f}})
		return one(s, IfaceV{types.NewPointer(e.P.extType("io", "LimitedReader")), PtrV{Obj: id}})
	}
	var out []SV
	s := c.St.clone()
	if e.addGe(s, n.Sub(pos).Sub(lim).AddK(-1)) && e.addGe(s, lim) {
		out = append(out, mk(s, e.n(s, pos.Add(lim)))...)
	}
	if e.addGe(c.St, lim.Sub(n).Add(pos)) {
		out = append(out, mk(c.St, n)...)
	}
	return out
}

func installReaders(e *Engine) {
	m := e.models
	m["(*bufio.Reader).ReadSlice"] = func(c *Call) []SV {
		return c.E.readSlice(c, c.E.asLin(c.Args[1]), func(st *State, s StrV) Val { return c.E.bytesOf(st, s) }, func(st *State, d StrV) []SV {
			return one(st, TupleV{c.E.bytesOf(st, d), c.E.mkErr(errBufferFull, SC("bufio: buffer full"))})
		})
	}
	m["(*bufio.Reader).ReadLine"] = func(c *Call) []SV {
		e := c.E
		var out []SV
		rs := e.readSlice(c, K('\n'), func(_ *State, s StrV) Val { return s }, func(st *State, d StrV) []SV {
			// (a carriage return at the end of the buffer would be left for the next call)
			out = append(out, SV{st, TupleV{e.bytesOf(st, d), BoolV{bTrue}, IfaceV{}}})
			return nil
		})
		for _, r := range rs {
			tup, ok := r.V.(TupleV)
			if !ok || len(tup) != 2 {
				return e.unknown(c)
			}
			d := e.normStr(r.St, tup[0].(StrV))
			ret := func(s *State, d StrV, err Val) {
				out = append(out, SV{s, TupleV{e.bytesOf(s, d), BoolV{bFalse}, err}})
			}
			switch errKind(tup[1]) {
			case "": // a whole line: its end, \n or \r\n, is dropped
				n := e.n(r.St, e.strLen(d).AddK(-1))
				if s := r.St.clone(); e.addGe(s, n.AddK(-1)) && e.addEq(s, e.byteAt(d, e.n(s, n.AddK(-1))).AddK(-'\r')) {
					ret(s, e.subStr(d, K(0), n.AddK(-1)), IfaceV{})
				}
				if s := r.St.clone(); e.addEq(s, n) {
					ret(s, StrV{}, IfaceV{})
				}
				if e.addGe(r.St, n.AddK(-1)) && e.addNe(r.St, e.byteAt(d, e.n(r.St, n.AddK(-1))).AddK(-'\r')) {
					ret(r.St, e.subStr(d, K(0), n), IfaceV{})
				}
			default: // the end or a failure: the error waits until the data have been taken
				if s := r.St.clone(); e.addEq(s, e.strLen(d)) {
					ret(s, StrV{}, tup[1])
				}
				if e.addGe(r.St, e.strLen(d).AddK(-1)) {
					ret(r.St, d, IfaceV{})
				}
			}
		}
		return out
	}
	m["io.CopyN"] = copyNModel
	m["io.LimitReader"] = limitModel
	m["(*io.LimitedReader).Read"] = readBufModel
	m["(*os.File).ReadFrom"] = m["io.Copy"]
	m["(*bufio.Writer).ReadFrom"] = m["io.Copy"]
	sized := m["bufio.NewReaderSize"]
	m["bufio.NewReaderSize"] = func(c *Call) []SV {
		rs := sized(c)
		for _, r := range rs {
			if mm, p, ok := c.E.modelAt(r.St, r.V); ok {
				c.E.setField(r.St, p, mm, "size", BoolV{bTrue})
			}
		}
		return rs
	}
}
