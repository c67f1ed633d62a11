package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Call) str(i int) StrV { return c.E.normStr(c.St, c.Args[i].(StrV)) }

func pure(f func(c *Call) Val) modelFn {
	return func(c *Call) []SV { return one(c.St, f(c)) }
}

func (e *Engine) noErr(st *State) Val { return IfaceV{} }

// fallible forks into success and failure.
func (e *Engine) fallible(c *Call, what string, args []Val, ok func(*State) []SV, fail func(*State, Val) []SV) []SV {
	bad := c.St.clone()
	bad.note("%s: %s fails", e.instrPos(c.At), what)
	var out []SV
	for _, s := range e.event(bad, what+"fail", c.At, args...) {
		out = append(out, fail(s, e.failErr(what))...)
	}
	for _, s := range e.event(c.St, what, c.At, args...) {
		out = append(out, ok(s)...)
	}
	return out
}

func installModels(e *Engine) {
	m := e.models
	nop := func(c *Call) []SV {
		if c.Typ == nil {
			return one(c.St, nil)
		}
		return one(c.St, c.E.zero(c.St, c.Typ))
	}
	// ---- os
	m["os.Exit"] = func(c *Call) []SV {
		c.E.exit(c.St, c.Args[0], c.At)
		return nil
	}
	m["os.Open"] = openModel
	m["os.OpenFile"] = func(c *Call) []SV {
		fl := c.E.n(c.St, c.E.asLin(c.Args[1]))
		if fl.IsK() && fl.C == 0 {
			return openModel(c)
		}
		return createModel(c)
	}
	m["os.Create"] = createModel
	m["os.CreateTemp"] = tempModel
	m["io/ioutil.TempFile"] = tempModel
	m["os.ReadFile"] = readFileModel
	m["io/ioutil.ReadFile"] = readFileModel
	m["os.WriteFile"] = writeFileModel
	m["io/ioutil.WriteFile"] = writeFileModel
	for _, n := range []string{"os.Remove", "os.Chmod", "os.RemoveAll", "os.Mkdir", "os.MkdirAll", "os.Truncate", "os.Symlink", "os.Link", "os.Chown"} {
		n := n
		m[n] = func(c *Call) []SV {
			return c.E.fallible(c, strings.ToLower(n[3:]), c.Args, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
		}
	}
	m["os.Rename"] = func(c *Call) []SV {
		return c.E.fallible(c, "rename", c.Args, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
	}
	m["os.Stat"] = statModel("stat")
	m["os.Lstat"] = statModel("lstat")
	m["os.Getenv"] = pure(func(c *Call) Val { return c.E.strTerm("env", c.str(0)) })
	m["os.LookupEnv"] = func(c *Call) []SV {
		p := c.E.boolTerm("envset", c.str(0))
		return c.E.boolFork(c.St, p, func(s *State, b bool) []SV {
			if b {
				return one(s, TupleV{c.E.strTerm("env", c.str(0)), BoolV{bTrue}})
			}
			// an unset variable reads as empty
			v := c.E.strTerm("env", c.str(0))
			if !c.E.addStrEq(s, v, StrV{}) {
				return nil
			}
			return one(s, TupleV{StrV{}, BoolV{bFalse}})
		})
	}
	m["os.FindProcess"] = func(c *Call) []SV {
		pid := c.Args[0]
		return c.E.fallible(c, "findprocess", c.Args, func(s *State) []SV {
			id := c.E.alloc(s, &Obj{V: ModelV{"os.Process", map[string]Val{"pid": pid}}})
			return one(s, TupleV{PtrV{Obj: id}, IfaceV{}})
		}, func(s *State, er Val) []SV { return one(s, TupleV{PtrV{}, er}) })
	}
	m["(*os.Process).Signal"] = func(c *Call) []SV {
		mm, _, _ := c.E.modelAt(c.St, c.Args[0])
		sig := c.Args[1]
		if i, ok := sig.(IfaceV); ok {
			sig = i.V
		}
		return c.E.fallible(c, "signal", []Val{mm.F["pid"], sig}, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
	}
	m["(*os.Process).Kill"] = func(c *Call) []SV {
		mm, _, _ := c.E.modelAt(c.St, c.Args[0])
		return c.E.fallible(c, "signal", []Val{mm.F["pid"], K(9)}, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
	}
	m["syscall.Kill"] = func(c *Call) []SV {
		return c.E.fallible(c, "signal", []Val{c.Args[0], c.Args[1]}, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
	}
	m["(*os.Process).Release"] = nop
	m["(*os.File).Close"] = func(c *Call) []SV {
		mm, _, ok := c.E.modelAt(c.St, c.Args[0])
		if ok && fkind(mm) == "out" {
			return c.E.fallible(c, "close", []Val{fstr(mm, "name")}, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
		}
		return one(c.St, IfaceV{})
	}
	m["(*os.File).Sync"] = func(c *Call) []SV {
		mm, _, ok := c.E.modelAt(c.St, c.Args[0])
		if ok && fkind(mm) == "out" {
			return c.E.fallible(c, "sync", []Val{fstr(mm, "name")}, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
		}
		return one(c.St, IfaceV{})
	}
	m["(*os.File).Truncate"] = func(c *Call) []SV {
		mm, _, _ := c.E.modelAt(c.St, c.Args[0])
		return c.E.fallible(c, "truncate", []Val{fstr(mm, "name")}, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
	}
	m["(*os.File).Chmod"] = func(c *Call) []SV {
		mm, _, _ := c.E.modelAt(c.St, c.Args[0])
		return c.E.fallible(c, "fchmod", []Val{fstr(mm, "name"), c.Args[1]}, func(s *State) []SV { return one(s, IfaceV{}) }, func(s *State, er Val) []SV { return one(s, er) })
	}
	m["(*os.File).Name"] = func(c *Call) []SV {
		mm, _, ok := c.E.modelAt(c.St, c.Args[0])
		if !ok {
			return c.E.unknown(c)
		}
		if k := fkind(mm); k == "stdin" || k == "stdout" || k == "stderr" {
			return one(c.St, SC("/dev/"+k))
		}
		return one(c.St, fstr(mm, "name"))
	}
	m["(*os.File).Stat"] = func(c *Call) []SV {
		mm, _, _ := c.E.modelAt(c.St, c.Args[0])
		return statOf(c, "stat", fstr(mm, "name"))
	}
	m["(*os.File).Read"] = readBufModel
	m["(*bufio.Reader).Read"] = readBufModel
	m["(*os.File).Write"] = func(c *Call) []SV { return c.E.fileWrite(c, c.Args[0], c.Args[1]) }
	m["(*os.File).WriteString"] = func(c *Call) []SV { return c.E.fileWrite(c, c.Args[0], c.Args[1]) }
	// ---- io
	m["io.Copy"] = func(c *Call) []SV {
		e := c.E
		return e.readAll(c, c.Args[1], func(s *State, data StrV, err Val) []SV {
			var out []SV
			for _, t := range e.write(s, c.Args[0], data, c.At) {
				out = append(out, SV{t, TupleV{e.strLen(e.normStr(t, data)), err}})
			}
			return out
		})
	}
	m["io.CopyBuffer"] = m["io.Copy"]
	readAll := func(c *Call) []SV {
		e := c.E
		return e.readAll(c, c.Args[0], func(s *State, data StrV, err Val) []SV {
			return one(s, TupleV{e.bytesOf(s, data), err})
		})
	}
	m["io.ReadAll"] = readAll
	m["io/ioutil.ReadAll"] = readAll
	m["io.WriteString"] = func(c *Call) []SV { return c.E.fileWrite(c, c.Args[0], c.Args[1]) }
	// ---- bufio
	m["bufio.NewReader"] = newBuffered("bufio.Reader")
	m["bufio.NewReaderSize"] = newBuffered("bufio.Reader")
	m["bufio.NewScanner"] = newBuffered("bufio.Scanner")
	m["(*bufio.Reader).ReadString"] = func(c *Call) []SV {
		return c.E.readTo(c, c.E.asLin(c.Args[1]), func(_ *State, s StrV) Val { return s })
	}
	rb := func(c *Call) []SV {
		return c.E.readTo(c, c.E.asLin(c.Args[1]), func(st *State, s StrV) Val { return c.E.bytesOf(st, s) })
	}
	m["(*bufio.Reader).ReadBytes"] = rb
	m["(*bufio.Reader).ReadByte"] = readByteModel
	m["(*bufio.Scanner).Scan"] = scanModel
	m["(*bufio.Scanner).Text"] = func(c *Call) []SV {
		mm, _, ok := c.E.modelAt(c.St, c.Args[0])
		if !ok {
			return c.E.unknown(c)
		}
		return one(c.St, c.E.normStr(c.St, fstr(mm, "tok")))
	}
	m["(*bufio.Scanner).Bytes"] = func(c *Call) []SV {
		mm, _, ok := c.E.modelAt(c.St, c.Args[0])
		if !ok {
			return c.E.unknown(c)
		}
		return one(c.St, c.E.bytesOf(c.St, c.E.normStr(c.St, fstr(mm, "tok"))))
	}
	m["(*bufio.Scanner).Err"] = func(c *Call) []SV {
		mm, _, ok := c.E.modelAt(c.St, c.Args[0])
		if !ok || mm.F["err"] == nil {
			return c.E.unknown(c)
		}
		return one(c.St, mm.F["err"])
	}
	m["(*bufio.Scanner).Buffer"] = nop
	m["(*bufio.Scanner).Split"] = func(c *Call) []SV {
		mm, p, ok := c.E.modelAt(c.St, c.Args[0])
		if !ok {
			return one(c.St, nil)
		}
		kind := "custom"
		if f, ok := c.Args[1].(FuncV); ok && f.Fn != nil {
			switch f.Fn.String() {
			case "bufio.ScanWords":
				kind = "words"
			case "bufio.ScanLines":
				kind = "lines"
			case "bufio.ScanBytes":
				kind = "bytes"
			case "bufio.ScanRunes":
				kind = "runes"
			}
		}
		c.E.setField(c.St, p, mm, "split", SC(kind))
		return one(c.St, nil)
	}
	nw := func(c *Call) []SV {
		id := c.E.alloc(c.St, &Obj{V: ModelV{"bufio.Writer", map[string]Val{"dst": c.Args[0], "dirty": BoolV{bFalse}}}})
		return one(c.St, PtrV{Obj: id})
	}
	m["bufio.NewWriter"] = nw
	m["bufio.NewWriterSize"] = nw
	m["(*bufio.Writer).Flush"] = func(c *Call) []SV {
		mm, p, ok := c.E.modelAt(c.St, c.Args[0])
		if !ok {
			return c.E.unknown(c)
		}
		in, _, ok := c.E.modelAt(c.St, mm.F["dst"])
		if ok && fkind(in) == "stdout" {
			c.St.Ghost["$unflushed"] = BoolV{bFalse}
			c.E.setField(c.St, p, mm, "dirty", BoolV{bFalse})
			return one(c.St, IfaceV{})
		}
		return c.E.fallible(c, "flush", []Val{fstr(in, "name")}, func(s *State) []SV {
			c.E.setField(s, p, mm, "dirty", BoolV{bFalse})
			return one(s, IfaceV{})
		}, func(s *State, er Val) []SV { return one(s, er) })
	}
	for _, n := range []string{"(*bufio.Writer)", "(*strings.Builder)", "(*bytes.Buffer)"} {
		n := n
		m[n+".WriteString"] = func(c *Call) []SV { return c.E.fileWrite(c, c.Args[0], c.Args[1]) }
		m[n+".Write"] = m[n+".WriteString"]
		m[n+".WriteByte"] = func(c *Call) []SV {
			e := c.E
			d := e.segsToStr(c.St, []Seg{{Kind: 'e', Len: K(1), V: c.Args[1]}})
			rs := e.writeSV(c, c.Args[0], d)
			for i := range rs {
				rs[i].V = rs[i].V.(TupleV)[1]
			}
			return rs
		}
		m[n+".WriteRune"] = func(c *Call) []SV {
			e := c.E
			var out []SV
			for _, r := range e.convert(c.St, c.Args[1], types.Typ[types.Rune], types.Typ[types.String]) {
				for _, s := range e.write(r.St, c.Args[0], r.V.(StrV), c.At) {
					out = append(out, SV{s, TupleV{e.strLen(r.V.(StrV)), IfaceV{}}})
				}
			}
			return out
		}
		if n != "(*bufio.Writer)" {
			m[n+".String"] = func(c *Call) []SV {
				mm, _, ok := c.E.modelAt(c.St, c.Args[0])
				if !ok || mm.F["unknown"] != nil {
					return c.E.unknown(c)
				}
				return one(c.St, c.E.normStr(c.St, fstr(mm, "s")))
			}
			m[n+".Len"] = func(c *Call) []SV {
				mm, _, ok := c.E.modelAt(c.St, c.Args[0])
				if !ok || mm.F["unknown"] != nil {
					return c.E.unknown(c)
				}
				return one(c.St, c.E.strLen(c.E.normStr(c.St, fstr(mm, "s"))))
			}
			m[n+".Reset"] = func(c *Call) []SV {
				mm, p, ok := c.E.modelAt(c.St, c.Args[0])
				if ok {
					if mm.F["taken"] != nil {
						mm = c.E.setField(c.St, p, mm, "stale", mm.F["taken"], "taken", nil)
					}
					c.E.setField(c.St, p, mm, "s", StrV{})
				}
				return one(c.St, nil)
			}
			m[n+".Grow"] = nop
		}
	}
	m["(*bytes.Buffer).Bytes"] = func(c *Call) []SV {
		mm, p, ok := c.E.modelAt(c.St, c.Args[0])
		if !ok || mm.F["unknown"] != nil {
			return c.E.unknown(c)
		}
		if c.E.unroll > 0 {
			v := c.E.bytesOf(c.St, c.E.normStr(c.St, fstr(mm, "s")))
			old, _ := mm.F["taken"].(TupleV)
			c.E.setField(c.St, p, mm, "taken", append(append(TupleV(nil), old...), v))
			return one(c.St, v)
		}
		return one(c.St, c.E.bytesOf(c.St, c.E.normStr(c.St, fstr(mm, "s"))))
	}
	m["bytes.NewBuffer"] = func(c *Call) []SV {
		var out []SV
		srcs := []SV{{c.St, c.Args[0]}}
		if _, ok := c.Args[0].(StrV); !ok {
			srcs = c.E.sliceToString(c.St, c.Args[0], true)
		}
		for _, r := range srcs {
			id := c.E.alloc(r.St, &Obj{V: ModelV{"bytes.Buffer", map[string]Val{"s": c.E.normStr(r.St, r.V.(StrV))}}})
			out = append(out, SV{r.St, PtrV{Obj: id}})
		}
		return out
	}
	m["bytes.NewBufferString"] = m["bytes.NewBuffer"]
	strReader := func(c *Call) []SV {
		var s StrV
		switch x := c.Args[0].(type) {
		case StrV:
			s = c.E.normStr(c.St, x)
		default:
			rs := c.E.sliceToString(c.St, x, true)
			if len(rs) != 1 {
				return c.E.unknown(c)
			}
			c.St = rs[0].St
			s = rs[0].V.(StrV)
		}
		f := map[string]Val{"content": s, "pos": K(0), "kind": SC("mem"), "name": StrV{}}
		if sl, ok := c.Args[0].(SliceV); ok && sl.Arr != 0 && c.E.unroll > 0 {
			f["arr"] = sl
		}
		id := c.E.alloc(c.St, &Obj{V: ModelV{"strings.Reader", f}})
		return one(c.St, PtrV{Obj: id})
	}
	for _, n := range []string{"strings", "bytes"} {
		m["(*"+n+".Reader).ReadAt"] = readAtModel
		m["(*"+n+".Reader).Size"] = func(c *Call) []SV {
			mm, _, ok := c.E.modelAt(c.St, c.Args[0])
			if !ok {
				return c.E.unknown(c)
			}
			return one(c.St, c.E.strLen(c.E.normStr(c.St, fstr(mm, "content"))))
		}
	}
	m["strings.NewReader"] = strReader
	m["bytes.NewReader"] = strReader
	// ---- fmt
	m["fmt.Sprintf"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[1])
		return one(c.St, c.E.sprintf(c.St, c.Args[0], a, ok, c.At))
	}
	m["fmt.Sprint"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[0])
		return one(c.St, c.E.sprintln(c.St, a, ok, false, c.At))
	}
	m["fmt.Sprintln"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[0])
		return one(c.St, c.E.sprintln(c.St, a, ok, true, c.At))
	}
	m["fmt.Errorf"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[1])
		s := c.E.sprintf(c.St, c.Args[0], a, ok, c.At)
		return one(c.St, c.E.mkErr("other", s))
	}
	m["errors.New"] = func(c *Call) []SV { return one(c.St, c.E.mkErr("other", c.str(0))) }
	stdout := func(c *Call) Val { return c.E.stdPtr(c.St, "os.Stdout") }
	m["fmt.Printf"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[1])
		return c.E.writeSV(c, stdout(c), c.E.sprintf(c.St, c.Args[0], a, ok, c.At))
	}
	m["fmt.Print"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[0])
		return c.E.writeSV(c, stdout(c), c.E.sprintln(c.St, a, ok, false, c.At))
	}
	m["fmt.Println"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[0])
		return c.E.writeSV(c, stdout(c), c.E.sprintln(c.St, a, ok, true, c.At))
	}
	m["fmt.Fprintf"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[2])
		return c.E.writeSV(c, c.Args[0], c.E.sprintf(c.St, c.Args[1], a, ok, c.At))
	}
	m["fmt.Fprint"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[1])
		return c.E.writeSV(c, c.Args[0], c.E.sprintln(c.St, a, ok, false, c.At))
	}
	m["fmt.Fprintln"] = func(c *Call) []SV {
		a, ok := c.E.variadic(c.St, c.Args[1])
		return c.E.writeSV(c, c.Args[0], c.E.sprintln(c.St, a, ok, true, c.At))
	}
	// ---- log
	logw := func(exit bool) modelFn {
		return func(c *Call) []SV {
			var out []SV
			for _, s := range c.E.write(c.St, c.E.stdPtr(c.St, "os.Stderr"), c.E.newStr("log"), c.At) {
				if exit {
					c.E.exit(s, K(1), c.At)
				} else {
					out = append(out, SV{s, nil})
				}
			}
			return out
		}
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println"} {
		m[n] = logw(false)
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		m[n] = logw(true)
	}
	// ---- errors
	is := func(c *Call) []SV {
		a, ok1 := c.Args[0].(IfaceV)
		b, ok2 := c.Args[1].(IfaceV)
		if ok1 && ok2 {
			if a.T == nil || b.T == nil {
				return one(c.St, BoolV{bConst(a.T == nil && b.T == nil)})
			}
			ka, kb := errKind(a), errKind(b)
			if ka == kb && ka != "other" {
				return one(c.St, BoolV{bTrue})
			}
			if kb == "EOF" && (ka == "open" || ka == "read" || ka == "other") {
				return one(c.St, BoolV{bConst(false)})
			}
			if ka == "EOF" {
				return one(c.St, BoolV{bFalse})
			}
			if kb == "ErrNotExist" && (ka == "read" || ka == "EOF") {
				return one(c.St, BoolV{bFalse})
			}
		}
		return one(c.St, BoolV{c.E.newBool("erris")})
	}
	m["errors.Is"] = is
	m["os.IsNotExist"] = func(c *Call) []SV {
		if a, ok := c.Args[0].(IfaceV); ok && (a.T == nil || errKind(a) == "EOF" || errKind(a) == "read") {
			return one(c.St, BoolV{bFalse})
		}
		return one(c.St, BoolV{c.E.newBool("notexist")})
	}
	installStrings(e)
	installEd(e)
	installReaders(e)
	installFlag(e)
}

func (e *Engine) stdPtr(st *State, name string) Val {
	p := e.P.Prog.ImportedPackage("os")
	g := p.Var(strings.TrimPrefix(name, "os."))
	ptr := e.globalPtr(st, g).(PtrV)
	rs := e.load(st, ptr)
	return IfaceV{g.Type().(*types.Pointer).Elem(), rs[0].V}
}

// writeFails is the outcome of a write that fails, for a file the program writes.
func (e *Engine) writeFails(st *State, dst Val, at ssa.Instruction) (out []SV) {
	mm, _, ok := e.modelAt(st, dst)
	if ok && mm.Kind == "bufio.Writer" {
		mm, _, ok = e.modelAt(st, mm.F["dst"])
	}
	if !ok || fkind(mm) != "out" {
		return nil
	}
	bad := st.clone()
	bad.note("%s: writing fails", e.instrPos(at))
	for _, t := range e.event(bad, "writefail", at, fstr(mm, "name")) {
		out = append(out, SV{t, TupleV{e.newInt("short"), e.failErr("write")}})
	}
	return out
}

// fileWrite is Write or WriteString.
func (e *Engine) fileWrite(c *Call, dst, data Val) []SV {
	var out []SV
	srcs := []SV{{c.St, data}}
	if _, ok := data.(StrV); !ok {
		srcs = e.sliceToString(c.St, data, true)
	}
	for _, r := range srcs {
		s := e.normStr(r.St, r.V.(StrV))
		mm, _, ok := e.modelAt(r.St, dst)
		_, _ = mm, ok
		out = append(out, e.writeFails(r.St, dst, c.At)...)
		for _, t := range e.write(r.St, dst, s, c.At) {
			out = append(out, SV{t, TupleV{e.strLen(s), IfaceV{}}})
		}
	}
	return out
}

func tempModel(c *Call) []SV {
	e := c.E
	name := SA(e.newAtom("tempname", 's'))
	var out []SV
	bad := c.St.clone()
	bad.note("%s: creating a temporary file fails", e.instrPos(c.At))
	for _, s := range e.event(bad, "createfail", c.At, name) {
		out = append(out, SV{s, TupleV{PtrV{}, e.failErr("create")}})
	}
	for _, s := range e.event(c.St, "createtemp", c.At, name, c.Args[0]) {
		id := e.alloc(s, &Obj{V: ModelV{"os.File", map[string]Val{"kind": SC("out"), "name": name}}})
		out = append(out, SV{s, TupleV{PtrV{Obj: id}, IfaceV{}}})
	}
	return out
}

func readFileModel(c *Call) []SV {
	e := c.E
	name := c.str(0)
	var out []SV
	bad := c.St.clone()
	bad.note("%s: reading %s fails", e.instrPos(c.At), e.valString(name))
	for _, s := range e.event(bad, "openfail", c.At, name) {
		out = append(out, SV{s, TupleV{SliceV{}, e.failErr("open")}})
	}
	if k, ok := name.Const(); ok && k == "" {
		return out
	}
	content := e.strTerm("content", name)
	for _, s := range e.event(c.St, "open", c.At, name) {
		for _, t := range e.event(s, "readall", c.At, content, K(0), e.strLen(content)) {
			out = append(out, SV{t, TupleV{e.bytesOf(t, content), IfaceV{}}})
		}
	}
	return out
}

func writeFileModel(c *Call) []SV {
	e := c.E
	name := c.str(0)
	var out []SV
	for _, r := range e.sliceToString(c.St, c.Args[1], true) {
		for _, s := range e.event(r.St.clone(), "createfail", c.At, name) {
			out = append(out, SV{s, e.failErr("create")})
		}
		for _, s := range e.event(r.St, "create", c.At, name) {
			for _, t := range e.event(s.clone(), "writefail", c.At, name) {
				out = append(out, SV{t, e.failErr("write")})
			}
			if e.onWrite != nil {
				for _, t := range e.onWrite(s, WriteEv{Dst: ModelV{"os.File", map[string]Val{"kind": SC("out"), "name": name}}, Kind: "out", Data: r.V.(StrV), At: c.At}) {
					out = append(out, SV{t, IfaceV{}})
				}
			} else {
				out = append(out, SV{s, IfaceV{}})
			}
		}
	}
	return out
}

func statModel(kind string) modelFn {
	return func(c *Call) []SV { return statOf(c, kind, c.str(0)) }
}

// statOf: the file information is a model whose mode bits and size are terms of the name.
func statOf(c *Call, kind string, name StrV) []SV {
	e := c.E
	ft := c.Typ.(*types.Tuple).At(0).Type()
	_ = ft
	q := e.boolTerm(kind+"ok", name)
	if k, ok := name.Const(); ok && k == "" {
		q = bFalse // there is no file without a name
	}
	return e.boolFork(c.St, q, func(s *State, ok bool) []SV {
		if !ok {
			var out []SV
			for _, t := range e.event(s, kind+"fail", c.At, name) {
				out = append(out, SV{t, TupleV{IfaceV{}, e.failErr("stat")}})
			}
			return out
		}
		fi := IfaceV{e.fileInfoType(), ModelV{"fileinfo", map[string]Val{"kind": SC(kind), "name": name}}}
		return one(s, TupleV{fi, IfaceV{}})
	})
}

var fiT types.Type

func (e *Engine) fileInfoType() types.Type {
	if fiT == nil {
		p := e.P.Prog.ImportedPackage("os")
		fiT = types.NewPointer(p.Pkg.Scope().Lookup("fileStat").Type())
	}
	return fiT
}

// readAtModel is ReadAt of a reader over a text in memory.
func readAtModel(c *Call) []SV {
	e, st := c.E, c.St
	m, _, ok := e.modelAt(st, c.Args[0])
	buf, ok2 := c.Args[1].(SliceV)
	if !ok || !ok2 || m.F["content"] == nil {
		return e.unknown(c)
	}
	content := e.normStr(st, fstr(m, "content"))
	n := e.strLen(content)
	off := e.n(st, e.asLin(c.Args[2]))
	var out []SV
	if buf.Arr == 0 {
		buf.Len = K(0)
	}
	for _, s := range e.assume(st.clone(), bGe(off), false) {
		out = append(out, SV{s, TupleV{K(0), e.failErr("read")}})
	}
	for _, s := range e.assume(st, bGe(off), true) {
		for _, t := range e.assume(s.clone(), bGe(off.Sub(n)), true) {
			out = append(out, SV{t, TupleV{K(0), e.mkErr("EOF", SC("EOF"))}})
		}
		for _, t := range e.assume(s, bGe(off.Sub(n)), false) {
			full := bGe(n.Sub(off).Sub(buf.Len))
			for _, u := range e.assume(t.clone(), full, true) {
				k := e.n(u, buf.Len)
				if !k.Is0() {
					u = e.splice(u, buf, k, e.subSegs(content, off, k))
				}
				out = append(out, SV{u, TupleV{k, IfaceV{}}})
			}
			for _, u := range e.assume(t, full, false) {
				k := e.n(u, n.Sub(off))
				u = e.splice(u, buf, k, e.subSegs(content, off, k))
				out = append(out, SV{u, TupleV{k, e.mkErr("EOF", SC("EOF"))}})
			}
		}
	}
	return out
}

func (e *Engine) subSegs(s StrV, off, n Lin) []Seg {
	return []Seg{{Kind: 'b', V: s, From: off, Len: n}}
}
