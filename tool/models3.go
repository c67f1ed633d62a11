package main

// strings, strconv, sort, unicode models.

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

func installStrings(e *Engine) {
	m := e.models
	str := func(v Val) StrV { return v.(StrV) }
	_ = str
	m["strings.HasPrefix"] = pure(func(c *Call) Val { return BoolV{c.E.hasPrefix(c.str(0), c.str(1))} })
	m["strings.HasSuffix"] = pure(func(c *Call) Val { return BoolV{c.E.hasSuffix(c.str(0), c.str(1))} })
	m["strings.TrimPrefix"] = func(c *Call) []SV {
		e := c.E
		return e.boolFork(c.St, e.hasPrefix(c.str(0), c.str(1)), func(s *State, b bool) []SV {
			x := e.normStr(s, c.Args[0].(StrV))
			if b {
				return one(s, e.subStr(x, e.strLen(e.normStr(s, c.Args[1].(StrV))), e.strLen(x)))
			}
			return one(s, x)
		})
	}
	m["strings.TrimSuffix"] = func(c *Call) []SV {
		e := c.E
		return e.boolFork(c.St, e.hasSuffix(c.str(0), c.str(1)), func(s *State, b bool) []SV {
			x := e.normStr(s, c.Args[0].(StrV))
			if b {
				return one(s, e.subStr(x, K(0), e.strLen(x).Sub(e.strLen(e.normStr(s, c.Args[1].(StrV))))))
			}
			return one(s, x)
		})
	}
	m["strings.CutPrefix"] = func(c *Call) []SV {
		e := c.E
		return e.boolFork(c.St, e.hasPrefix(c.str(0), c.str(1)), func(s *State, b bool) []SV {
			x := e.normStr(s, c.Args[0].(StrV))
			if b {
				return one(s, TupleV{e.subStr(x, e.strLen(e.normStr(s, c.Args[1].(StrV))), e.strLen(x)), BoolV{bTrue}})
			}
			return one(s, TupleV{x, BoolV{bFalse}})
		})
	}
	m["strings.CutSuffix"] = func(c *Call) []SV {
		e := c.E
		return e.boolFork(c.St, e.hasSuffix(c.str(0), c.str(1)), func(s *State, b bool) []SV {
			x := e.normStr(s, c.Args[0].(StrV))
			if b {
				return one(s, TupleV{e.subStr(x, K(0), e.strLen(x).Sub(e.strLen(e.normStr(s, c.Args[1].(StrV))))), BoolV{bTrue}})
			}
			return one(s, TupleV{x, BoolV{bFalse}})
		})
	}
	m["strings.ToUpper"] = pure(func(c *Call) Val { return c.E.strTerm("upper", c.str(0)) })
	m["strings.ToLower"] = pure(func(c *Call) Val {
		if s, ok := c.str(0).Const(); ok {
			return SC(strings.ToLower(s))
		}
		return c.E.strTerm("lower", c.str(0))
	})
	two := func(name string, f func(a, b string) bool) {
		m["strings."+name] = pure(func(c *Call) Val {
			a, ok1 := c.str(0).Const()
			b, ok2 := c.str(1).Const()
			if ok1 && ok2 {
				return BoolV{bConst(f(a, b))}
			}
			return BoolV{c.E.boolTerm("strings."+name, c.str(0), c.str(1))}
		})
	}
	two("Contains", strings.Contains)
	two("EqualFold", strings.EqualFold)
	two("ContainsAny", strings.ContainsAny)
	m["strings.Compare"] = func(c *Call) []SV {
		e := c.E
		a, b := c.str(0), c.str(1)
		return e.boolFork(c.St, e.strEq(a, b), func(s *State, eq bool) []SV {
			if eq {
				return one(s, K(0))
			}
			return e.boolFork(s, e.strLess(a, b), func(s *State, lt bool) []SV {
				if lt {
					return one(s, K(-1))
				}
				return one(s, K(1))
			})
		})
	}
	one1 := func(name string, f func(a string) string) {
		m["strings."+name] = func(c *Call) []SV {
			s := c.str(0)
			if k, ok := s.Const(); ok {
				return one(c.St, SC(f(k)))
			}
			if r, ok := trimKnown(c.E.normStr(c.St, s), true, true, unicode.IsSpace); ok {
				return one(c.St, r)
			}
			r := c.E.strTerm("strings."+name, s)
			c.E.addGe(c.St, c.E.strLen(s).Sub(c.E.strLen(r)))
			return one(c.St, r)
		}
	}
	one1("TrimSpace", strings.TrimSpace)
	cut := func(name string, f func(a, b string) string) {
		m["strings."+name] = func(c *Call) []SV {
			a, ok1 := c.str(0).Const()
			b, ok2 := c.str(1).Const()
			if ok1 && ok2 {
				return one(c.St, SC(f(a, b)))
			}
			if ok2 && len(b) == 1 && name == "TrimRight" {
				if r, ok := c.E.trimByte(c.St, c.str(0), b[0]); ok {
					return one(c.St, r)
				}
			}
			if ok2 && (name == "Trim" || name == "TrimLeft" || name == "TrimRight") {
				if r, ok := trimKnown(c.E.normStr(c.St, c.str(0)), name != "TrimRight", name != "TrimLeft", func(r rune) bool { return strings.ContainsRune(b, r) }); ok {
					return one(c.St, r)
				}
			}
			r := c.E.strTerm("strings."+name, c.str(0), c.str(1))
			c.E.addGe(c.St, c.E.strLen(c.str(0)).Sub(c.E.strLen(r)))
			return one(c.St, r)
		}
	}
	cut("TrimRight", strings.TrimRight)
	cut("TrimLeft", strings.TrimLeft)
	cut("Trim", strings.Trim)
	idx := func(name string, f func(a, b string) int) {
		m["strings."+name] = func(c *Call) []SV {
			e := c.E
			a, ok1 := c.str(0).Const()
			b, ok2 := c.str(1).Const()
			if ok1 && ok2 {
				return one(c.St, K(int64(f(a, b))))
			}
			if ok2 && len(b) == 1 && name == "Index" {
				if rs, ok := e.byteIndex(c.St, c.str(0), b[0]); ok {
					return rs
				}
			}
			r := LA(e.fnAtom("strings."+name, 'i', c.str(0), c.str(1)))
			return e.boolFork(c.St, bGe(r), func(s *State, found bool) []SV {
				if !found {
					if !e.addEq(s, r.AddK(1)) {
						return nil
					}
					return one(s, K(-1))
				}
				if !e.addGe(s, e.strLen(c.str(0)).Sub(r).Sub(e.strLen(c.str(1)))) {
					return nil
				}
				return one(s, r)
			})
		}
	}
	idx("Index", strings.Index)
	idx("LastIndex", strings.LastIndex)
	idxb := func(name string) modelFn {
		return func(c *Call) []SV {
			e := c.E
			s0 := c.str(0)
			b := e.asLin(c.Args[1])
			if n := e.n(c.St, b); n.IsK() && n.C >= 0 && (n.C < 128 || name == "IndexByte" && n.C < 256) && name != "LastIndexByte" {
				if rs, ok := e.byteIndex(c.St, s0, byte(n.C)); ok {
					return rs
				}
			}
			r := LA(e.fnAtom("strings."+name, 'i', s0, b))
			return e.boolFork(c.St, bGe(r), func(s *State, found bool) []SV {
				if !found {
					if !e.addEq(s, r.AddK(1)) {
						return nil
					}
					return one(s, K(-1))
				}
				if !e.addGe(s, e.strLen(s0).Sub(r).AddK(-1)) {
					return nil
				}
				if name == "IndexByte" || name == "LastIndexByte" {
					e.addEq(s, e.byteAt(s0, r).Sub(b))
				}
				return one(s, r)
			})
		}
	}
	m["strings.IndexByte"] = idxb("IndexByte")
	m["strings.LastIndexByte"] = idxb("LastIndexByte")
	m["strings.IndexRune"] = idxb("IndexRune")
	m["strings.ContainsRune"] = pure(func(c *Call) Val {
		s, ok := c.str(0).Const()
		r := c.E.asLin(c.Args[1])
		if ok && len(s) < 300 {
			var cs []*BExpr
			for i, x := range s {
				if strings.IndexRune(s, x) < i {
					continue
				}
				cs = append(cs, bEq0(r.AddK(-int64(x))))
			}
			return BoolV{bOr(cs...)}
		}
		return BoolV{c.E.boolTerm("containsrune", c.str(0), r)}
	})
	m["strings.Repeat"] = pure(func(c *Call) Val {
		s, ok := c.str(0).Const()
		n := c.E.n(c.St, c.E.asLin(c.Args[1]))
		if ok && n.IsK() && n.C >= 0 && n.C < 1000 {
			return SC(strings.Repeat(s, int(n.C)))
		}
		return c.E.strTerm("repeat", c.str(0), n)
	})
	m["strings.Count"] = func(c *Call) []SV {
		sep, isC := c.str(1).Const()
		if isC && len(sep) == 1 {
			// the count of a byte is the sum of those in the parts
			sum := K(0)
			for _, p := range c.str(0).P {
				switch {
				case !p.V:
					sum = sum.AddK(int64(strings.Count(p.C, sep)))
				case c.E.lacks(p.A, sep[0]):
				default:
					r := LA(c.E.fnAtom("strcount", 'i', SA(p.A), c.str(1)))
					c.E.addGe(c.St, r)
					sum = sum.Add(r)
				}
			}
			return one(c.St, sum)
		}
		r := LA(c.E.fnAtom("strcount", 'i', c.str(0), c.str(1)))
		c.E.addGe(c.St, r)
		return one(c.St, r)
	}
	m["strings.Join"] = func(c *Call) []SV {
		e := c.E
		sl, ok := c.Args[0].(SliceV)
		if !ok {
			return e.unknown(c)
		}
		var out []SV
		for _, v := range e.view(c.St, sl) {
			sep := e.normStr(v.St, c.Args[1].(StrV))
			var parts []StrV
			ok := true
			for _, g := range v.Segs {
				if e.n(v.St, g.Len).Is0() {
					continue
				}
				if g.Kind != 'e' {
					ok = false
					break
				}
				if len(parts) > 0 {
					parts = append(parts, sep)
				}
				parts = append(parts, e.normStr(v.St, g.V.(StrV)))
			}
			if ok {
				out = append(out, SV{v.St, SCat(parts...)})
				continue
			}
			s := e.joinTerm(v.St, v.Segs, sep)
			out = append(out, SV{v.St, s})
		}
		return out
	}
	for _, n := range []string{"Split", "Fields", "SplitN", "SplitAfter"} {
		n := n
		m["strings."+n] = func(c *Call) []SV {
			e := c.E
			if n == "Split" && e.unroll > 0 {
				if sep, ok := c.str(1).Const(); ok && len(sep) == 1 {
					if rs, ok := e.splitParts(c.St, c.str(0), sep[0], e.unroll-1); ok {
						return rs
					}
				}
			}
			if n == "Fields" {
				if ws, ok := e.words(c.str(0)); ok {
					var segs []Seg
					for _, w := range ws {
						segs = append(segs, Seg{Kind: 'e', Len: K(1), V: w})
					}
					return one(c.St, e.newSlice(c.St, types.Typ[types.String], segs))
				}
			}
			if n == "SplitAfter" && e.unroll > 0 {
				if sep, ok := c.str(1).Const(); ok && len(sep) == 1 {
					if rs, ok := e.splitAfter(c.St, c.str(0), sep[0], e.unroll-1); ok {
						return rs
					}
				}
			}
			if n == "SplitN" {
				sep, ok := c.str(1).Const()
				if k := e.n(c.St, e.asLin(c.Args[2])); ok && len(sep) == 1 && k.IsK() && k.C == 2 {
					if fs, ok := e.findByte(c.St, c.str(0), sep[0]); ok {
						var out []SV
						for _, f := range fs {
							x := e.normStr(f.st, c.Args[0].(StrV))
							segs := []Seg{{Kind: 'e', Len: K(1), V: x}}
							if f.ok {
								segs = []Seg{{Kind: 'e', Len: K(1), V: f.before}, {Kind: 'e', Len: K(1), V: f.after}}
							}
							out = append(out, SV{f.st, e.newSlice(f.st, types.Typ[types.String], segs)})
						}
						return out
					}
				}
			}
			c.St.Lossy = "unknown parts of strings." + n
			r := e.havoc(c.St, c.Typ, "parts").(SliceV)
			if n != "Fields" {
				e.addGe(c.St, r.Len.AddK(-1)) // for a non-empty separator or a non-empty string
			}
			return one(c.St, r)
		}
	}
	for _, n := range []string{"Replace", "ReplaceAll", "Map", "Title"} {
		n := n
		m["strings."+n] = func(c *Call) []SV {
			if n == "ReplaceAll" {
				a, o1 := c.str(0).Const()
				b, o2 := c.str(1).Const()
				d, o3 := c.str(2).Const()
				if o1 && o2 && o3 {
					return one(c.St, SC(strings.ReplaceAll(a, b, d)))
				}
			}
			if n == "Map" {
				c.St.Lossy = "strings.Map"
				return one(c.St, c.E.newStr(n))
			}
			return one(c.St, c.E.strTerm("strings."+n, c.Args...))
		}
	}
	m["strings.Cut"] = func(c *Call) []SV {
		if sep, ok := c.str(1).Const(); ok && len(sep) == 1 {
			if fs, ok := c.E.findByte(c.St, c.str(0), sep[0]); ok {
				var out []SV
				for _, f := range fs {
					if f.ok {
						out = append(out, SV{f.st, TupleV{f.before, f.after, BoolV{bTrue}}})
					} else {
						out = append(out, SV{f.st, TupleV{c.E.normStr(f.st, c.Args[0].(StrV)), StrV{}, BoolV{bFalse}}})
					}
				}
				return out
			}
		}
		return c.E.unknown(c)
	}
	// ---- strconv
	m["strconv.Itoa"] = pure(func(c *Call) Val { return c.E.itoa(c.E.n(c.St, c.E.asLin(c.Args[0]))) })
	m["strconv.Quote"] = pure(func(c *Call) Val {
		if s, ok := c.str(0).Const(); ok {
			return SC(strconv.Quote(s))
		}
		return c.E.strTerm("quote", c.str(0))
	})
	m["strconv.FormatInt"] = pure(func(c *Call) Val {
		if b := c.E.asLin(c.Args[1]); b.IsK() && b.C == 10 {
			return c.E.itoa(c.E.n(c.St, c.E.asLin(c.Args[0])))
		}
		return c.E.strTerm("formatint", c.E.asLin(c.Args[0]), c.E.asLin(c.Args[1]))
	})
	m["strconv.FormatUint"] = m["strconv.FormatInt"]
	atoi := func(c *Call) []SV {
		e := c.E
		s0 := c.str(0)
		fn, ok := "atoi", true
		if len(c.Args) == 3 {
			b, w := e.n(c.St, e.asLin(c.Args[1])), e.n(c.St, e.asLin(c.Args[2]))
			if !(b.IsK() && b.C == 10 && w.IsK() && (w.C == 0 || w.C == 64)) {
				if lit, isC := s0.Const(); isC && b.IsK() && w.IsK() && b.C >= 0 && b.C <= 36 && b.C != 1 && w.C >= 0 && w.C <= 64 {
					v, err := strconv.ParseInt(lit, int(b.C), int(w.C))
					if err != nil {
						return one(c.St, TupleV{K(v), e.failErr("parse")})
					}
					return one(c.St, TupleV{K(v), IfaceV{}})
				}
				fn, ok = fmt.Sprintf("parseint:%s:%s", b.Key(), w.Key()), false
			}
		}
		cond := e.boolTerm("isint", s0)
		if !ok {
			cond = e.boolTerm("is"+fn, s0)
		}
		return e.boolFork(c.St, cond, func(s *State, good bool) []SV {
			if good {
				x := e.normStr(s, s0)
				v := e.term(fn, 'i', x)
				return one(s, TupleV{v, IfaceV{}})
			}
			// the value beside an error is unspecified here
			return one(s, TupleV{e.newInt("badnum"), e.failErr("parse")})
		})
	}
	m["strconv.Atoi"] = atoi
	m["strconv.ParseInt"] = atoi
	m["strconv.ParseUint"] = func(c *Call) []SV {
		e := c.E
		b, w := e.n(c.St, e.asLin(c.Args[1])), e.n(c.St, e.asLin(c.Args[2]))
		fn := fmt.Sprintf("parseuint:%s:%s", b.Key(), w.Key())
		return e.boolFork(c.St, e.boolTerm("is"+fn, c.str(0)), func(s *State, good bool) []SV {
			if good {
				v := e.intTerm(fn, c.str(0))
				e.addGe(s, v)
				return one(s, TupleV{v, IfaceV{}})
			}
			return one(s, TupleV{K(0), e.failErr("parse")})
		})
	}
	// ---- unicode
	m["unicode/utf8.DecodeRuneInString"] = func(c *Call) []SV {
		e := c.E
		s0 := c.str(0)
		return e.boolFork(c.St, bEq0(e.strLen(s0)), func(s *State, empty bool) []SV {
			if empty {
				return one(s, TupleV{K(utf8.RuneError), K(0)})
			}
			// the rune of the underlying text, so that ranging and decoding agree
			base, off := e.unsub(e.normStr(s, s0))
			return e.runeAt(s, base, off)
		})
	}
	m["unicode/utf8.DecodeLastRuneInString"] = func(c *Call) []SV {
		e := c.E
		s0 := e.normStr(c.St, c.str(0))
		if n := len(s0.P); n > 0 && !s0.P[n-1].V {
			k := s0.P[n-1].C
			if r, w := utf8.DecodeLastRuneInString(k); r != utf8.RuneError || n == 1 {
				return one(c.St, TupleV{K(int64(r)), K(int64(w))})
			}
		}
		return e.boolFork(c.St, bEq0(e.strLen(s0)), func(s *State, empty bool) []SV {
			if empty {
				return one(s, TupleV{K(utf8.RuneError), K(0)})
			}
			b := e.byteAt(s0, e.strLen(s0).AddK(-1))
			return e.boolFork(s, bGe(K(127).Sub(b)), func(s *State, ascii bool) []SV {
				if ascii {
					return one(s, TupleV{b, K(1)})
				}
				r := e.fnAtom("lastrune", 'i', s0)
				e.atoms[r].HasB, e.atoms[r].Lo, e.atoms[r].Hi = true, 128, 0x10FFFF
				w := e.fnAtom("lastrunewidth", 'i', s0)
				e.atoms[w].HasB, e.atoms[w].Lo, e.atoms[w].Hi = true, 1, 4
				if !e.addGe(s, e.strLen(s0).Sub(LA(w))) {
					return nil
				}
				return one(s, TupleV{LA(r), LA(w)})
			})
		})
	}
	m["unicode/utf8.RuneCountInString"] = pure(func(c *Call) Val {
		if s, ok := c.str(0).Const(); ok {
			return K(int64(utf8.RuneCountInString(s)))
		}
		return LA(c.E.fnAtom("nrunes", 'i', c.str(0)))
	})
	m["unicode/utf8.RuneLen"] = func(c *Call) []SV {
		e := c.E
		r := e.n(c.St, e.asLin(c.Args[0]))
		if r.IsK() {
			return one(c.St, K(int64(utf8.RuneLen(rune(r.C)))))
		}
		return e.boolFork(c.St, bAnd(bGe(r), bGe(K(127).Sub(r))), func(s *State, ascii bool) []SV {
			if ascii {
				return one(s, K(1))
			}
			x := e.fnAtom("runelen", 'i', r)
			return one(s, LA(x))
		})
	}
	for name, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPrint": unicode.IsPrint, "IsPunct": unicode.IsPunct} {
		name, f := name, f
		m["unicode."+name] = pure(func(c *Call) Val {
			r := c.E.n(c.St, c.E.asLin(c.Args[0]))
			if r.IsK() {
				return BoolV{bConst(f(rune(r.C)))}
			}
			return BoolV{c.E.boolTerm("unicode."+name, r)}
		})
	}
	// ---- sort
	srt := func(c *Call) []SV {
		e := c.E
		v := c.Args[0]
		if i, ok := v.(IfaceV); ok && i.T != nil {
			v = i.V
		}
		if s, ok := v.(SliceV); ok && s.Arr != 0 {
			return e.sortModel(c, s)
		}
		return one(c.St, nil)
	}
	forked := func(c *Call) []SV {
		if c.E.sortFork {
			if rs, ok := c.E.sortForked(c); ok {
				return rs
			}
		}
		return srt(c)
	}
	m["sort.Strings"] = forked
	m["sort.Ints"] = srt
	m["sort.Slice"] = forked
	m["sort.SliceStable"] = forked
	m["slices.Sort"] = forked
	m["sort.Sort"] = func(c *Call) []SV {
		if rs, ok := c.E.sortForked(c); ok {
			return rs
		}
		return c.E.unknown(c)
	}
	m["sort.Stable"] = m["sort.Sort"]
	m["bytes.Equal"] = func(c *Call) []SV {
		e := c.E
		var out []SV
		for _, a := range e.sliceToString(c.St, c.Args[0], true) {
			for _, b := range e.sliceToString(a.St, c.Args[1], true) {
				out = append(out, SV{b.St, BoolV{e.strEq(e.normStr(b.St, a.V.(StrV)), e.normStr(b.St, b.V.(StrV)))}})
			}
		}
		return out
	}
	// ---- FileInfo and FileMode
	m["(*os.fileStat).Mode"] = func(c *Call) []SV {
		mv, ok := c.Args[0].(ModelV)
		if !ok || mv.Kind != "fileinfo" {
			return c.E.unknown(c)
		}
		e := c.E
		a := e.fnAtom("mode:"+fkind(mv), 'i', mv.F["name"])
		e.atoms[a].HasB, e.atoms[a].Lo, e.atoms[a].Hi = true, 0, 1<<32-1
		return one(c.St, LA(a))
	}
	m["(*os.fileStat).Size"] = func(c *Call) []SV {
		mv, ok := c.Args[0].(ModelV)
		if !ok || mv.Kind != "fileinfo" {
			return c.E.unknown(c)
		}
		return one(c.St, LA(c.E.fnAtom("size:"+fkind(mv), 'i', mv.F["name"])))
	}
	m["(*os.fileStat).Name"] = func(c *Call) []SV {
		mv, ok := c.Args[0].(ModelV)
		if !ok || mv.Kind != "fileinfo" {
			return c.E.unknown(c)
		}
		return one(c.St, c.E.strTerm("basename", mv.F["name"]))
	}
	mask := func(bitsIn uint64) func(c *Call) []SV {
		return func(c *Call) []SV {
			e := c.E
			b := e.toBV(c.Args[0], 32)
			var cs []*BExpr
			for i := 0; i < 32; i++ {
				if bitsIn>>uint(i)&1 == 1 {
					x := b.Bits[i]
					cs = append(cs, bBit(BitX{C: !x.C, V: x.V}))
				}
			}
			return one(c.St, BoolV{bAnd(cs...)})
		}
	}
	const dir = 1 << 31
	m["(io/fs.FileMode).IsRegular"] = mask(1<<31 | 1<<27 | 1<<25 | 1<<24 | 1<<26 | 1<<21 | 1<<19)
	m["(io/fs.FileMode).IsDir"] = func(c *Call) []SV {
		return one(c.St, BoolV{bBit(c.E.toBV(c.Args[0], 32).Bits[31])})
	}
	m["(*os.fileStat).IsDir"] = func(c *Call) []SV {
		mv, ok := c.Args[0].(ModelV)
		if !ok || mv.Kind != "fileinfo" {
			return c.E.unknown(c)
		}
		a := c.E.fnAtom("mode:"+fkind(mv), 'i', mv.F["name"])
		c.E.atoms[a].HasB, c.E.atoms[a].Lo, c.E.atoms[a].Hi = true, 0, 1<<32-1
		return one(c.St, BoolV{bBit(c.E.toBV(LA(a), 32).Bits[31])})
	}
	m["(io/fs.FileMode).Perm"] = func(c *Call) []SV {
		b := c.E.toBV(c.Args[0], 32)
		n := BVV{make([]BitX, 32)}
		copy(n.Bits[:9], b.Bits[:9])
		return one(c.St, c.E.simplifyBV(n, types.Typ[types.Uint32]))
	}
	m["(io/fs.FileMode).Type"] = func(c *Call) []SV {
		b := c.E.toBV(c.Args[0], 32)
		n := BVV{make([]BitX, 32)}
		t := uint64(1<<31 | 1<<27 | 1<<25 | 1<<24 | 1<<26 | 1<<21 | 1<<19)
		for i := range n.Bits {
			if t>>uint(i)&1 == 1 {
				n.Bits[i] = b.Bits[i]
			}
		}
		return one(c.St, c.E.simplifyBV(n, types.Typ[types.Uint32]))
	}
	m["math/bits.LeadingZeros32"] = pure(func(c *Call) Val {
		if l, ok := c.Args[0].(Lin); ok && l.IsK() {
			return K(int64(bits.LeadingZeros32(uint32(l.C))))
		}
		return c.E.newIntIn("lz", 0, 32)
	})
}

// unsub splits a substring into its text and offset.
func (e *Engine) unsub(s StrV) (StrV, Lin) {
	if a, ok := s.Atom(); ok && e.atoms[a].Fn == "sub" {
		return e.atoms[a].Args[0].(StrV), e.atoms[a].Args[1].(Lin)
	}
	return s, K(0)
}

// joinTerm stands for the strings of segs joined with sep.
func (e *Engine) joinTerm(st *State, segs []Seg, sep StrV) StrV {
	var args []Val
	name := "join"
	for _, g := range segs {
		name += ":" + string(g.Kind) + g.Name
		args = append(args, g.Len, g.From)
		if g.V != nil {
			args = append(args, g.V)
		}
		if g.Kind == 's' || g.Kind == 'u' {
			return e.newStr("joined")
		}
	}
	args = append(args, sep)
	return e.strTerm(name, args...)
}

// sortForked sorts a slice of few elements by insertion, one state per outcome of the comparisons.
func (e *Engine) sortForked(c *Call) ([]SV, bool) {
	v := c.Args[0]
	var it types.Type
	if i, ok := v.(IfaceV); ok && i.T != nil {
		v, it = i.V, i.T
	}
	sl, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	n := e.n(c.St, sl.Len)
	if !n.IsK() || n.C > 6 || !sl.Off.IsK() {
		return nil, false
	}
	method := func(name string) *ssa.Function {
		if it == nil {
			return nil
		}
		if m := e.P.Prog.MethodSets.MethodSet(it).Lookup(nil, name); m != nil {
			return e.P.Prog.MethodValue(m)
		}
		return nil
	}
	less := func(s *State, i, j int64) ([]SV, bool) {
		switch c.Name {
		case "sort.Slice", "sort.SliceStable":
			f, ok := c.Args[1].(FuncV)
			if !ok || f.Fn == nil {
				return nil, false
			}
			return e.callFn(s, f.Fn, []Val{K(i), K(j)}, f.Bind, c.At), true
		case "sort.Sort", "sort.Stable":
			if f := method("Less"); f != nil {
				return e.callFn(s, f, []Val{v, K(i), K(j)}, nil, c.At), true
			}
			return nil, false
		}
		var out []SV
		for _, a := range e.readElem(s, sl.Arr, sl.Off.AddK(i)) {
			for _, b := range e.readElem(a.St, sl.Arr, sl.Off.AddK(j)) {
				x, ok1 := e.nv(b.St, a.V).(StrV)
				y, ok2 := e.nv(b.St, b.V).(StrV)
				if !ok1 || !ok2 {
					return nil, false
				}
				out = append(out, SV{b.St, BoolV{e.strLess(x, y)}})
			}
		}
		return out, true
	}
	swap := func(s *State, i, j int64) ([]*State, bool) {
		var out []*State
		if c.Name == "sort.Sort" || c.Name == "sort.Stable" {
			f := method("Swap")
			if f == nil {
				return nil, false
			}
			for _, r := range e.callFn(s, f, []Val{v, K(i), K(j)}, nil, c.At) {
				out = append(out, r.St)
			}
			return out, true
		}
		for _, a := range e.readElem(s, sl.Arr, sl.Off.AddK(i)) {
			for _, b := range e.readElem(a.St, sl.Arr, sl.Off.AddK(j)) {
				for _, t := range e.writeElem(b.St, sl.Arr, sl.Off.AddK(i), b.V) {
					out = append(out, e.writeElem(t, sl.Arr, sl.Off.AddK(j), a.V)...)
				}
			}
		}
		return out, true
	}
	cur := []*State{c.St}
	for i := int64(1); i < n.C; i++ {
		moving := cur
		cur = nil
		for j := i; j > 0; j-- {
			var next []*State
			for _, s := range moving {
				rs, ok := less(s, j, j-1)
				if !ok {
					return nil, false
				}
				for _, r := range rs {
					b, ok := r.V.(BoolV)
					if !ok {
						return nil, false
					}
					cur = append(cur, e.assume(r.St.clone(), b.E, false)...)
					for _, t := range e.assume(r.St, b.E, true) {
						ss, ok := swap(t, j, j-1)
						if !ok {
							return nil, false
						}
						next = append(next, ss...)
					}
				}
			}
			moving = next
		}
		cur = append(cur, moving...)
	}
	var out []SV
	for _, s := range cur {
		out = append(out, SV{s, nil})
	}
	return out, true
}

// sortModel permutes the elements of a slice.
func (e *Engine) sortModel(c *Call, s SliceV) []SV {
	var out []SV
	for _, v := range e.view(c.St, s) {
		st := v.St
		o := st.Heap[s.Arr]
		allConst := true
		var cs []string
		for _, g := range v.Segs {
			if g.Len.Is0() {
				continue
			}
			sv, ok := g.V.(StrV)
			if g.Kind != 'e' || !ok {
				allConst = false
				break
			}
			k, ok := e.normStr(st, sv).Const()
			if !ok {
				allConst = false
				break
			}
			cs = append(cs, k)
		}
		var segs []Seg
		var ns []int64
		ints := c.Name == "sort.Ints" || c.Name == "slices.Sort"
		for _, g := range v.Segs {
			l, isInt := g.V.(Lin)
			switch {
			case g.Kind == 'z' && g.Len.IsK() && g.Len.C < 100 && isIntT(o.Arr.Elem):
				for i := int64(0); i < g.Len.C; i++ {
					ns = append(ns, 0)
				}
			case g.Kind == 'e' && isInt && e.n(st, l).IsK():
				ns = append(ns, e.n(st, l).C)
			default:
				ints = false
			}
		}
		if ints {
			sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
			for _, k := range ns {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: K(k)})
			}
		} else if allConst && (c.Name == "sort.Strings" || c.Name == "slices.Sort") {
			sort.Strings(cs)
			for _, k := range cs {
				segs = append(segs, Seg{Kind: 'e', Len: K(1), V: SC(k)})
			}
		} else if len(v.Segs) <= 1 && (len(v.Segs) == 0 || v.Segs[0].Kind == 'e' || v.Segs[0].Kind == 's' && (v.Segs[0].Sum.Idx < 0 || v.Segs[0].Sum.Bot)) {
			segs = v.Segs
		} else {
			segs = []Seg{{Kind: 'u', Len: s.Len}}
		}
		if s.Off.Is0() && e.entailsEq(st, s.Len.Sub(segsLen(o.Arr.Segs))) {
			n := *o
			n.Arr = &ArrC{Elem: o.Arr.Elem, Segs: segs}
			st.Heap[s.Arr] = &n
		} else {
			st = e.splice(st, s, s.Len, segs)
		}
		out = append(out, SV{st, nil})
	}
	return out
}

// span views a text as bytes [lo:hi] of a content term.
func (e *Engine) span(s StrV) (c StrV, lo, hi Lin, ok bool) {
	a, ok := s.Atom()
	if !ok {
		return
	}
	if e.atoms[a].Fn == "sub" {
		ar := e.atoms[a].Args
		return ar[0].(StrV), ar[1].(Lin), ar[2].(Lin), true
	}
	return s, K(0), e.strLen(s), true
}

// noneIn: the text [lo:hi] of c has no byte d.
func (e *Engine) noneIn(st *State, c StrV, lo, hi, d Lin) bool {
	if e.entails(st, e.n(st, lo.Sub(hi))) {
		return true
	}
	switch e.evalB(st, e.boolTerm("hasdelim", c, e.n(st, lo), d)) {
	case 0:
		return true
	case 1:
		nx := LA(e.fnAtom("next", 'i', c, e.n(st, lo), d))
		return e.entails(st, e.n(st, nx.Sub(hi)))
	}
	return false
}

// trimByte cuts trailing bytes d off x, as far as the facts decide it.
func (e *Engine) trimByte(st *State, x StrV, d byte) (StrV, bool) {
	if k, ok := x.Const(); ok {
		return SC(strings.TrimRight(k, string([]byte{d}))), true
	}
	for len(x.P) > 0 && !x.P[len(x.P)-1].V {
		k := x.P[len(x.P)-1].C
		r := strings.TrimRight(k, string([]byte{d}))
		if r != "" {
			return SCat(StrV{append(append([]SPart(nil), x.P[:len(x.P)-1]...), SPart{C: r})}), true
		}
		x = StrV{x.P[:len(x.P)-1]}
	}
	if len(x.P) == 0 {
		return x, true
	}
	last := SA(x.P[len(x.P)-1].A)
	c, lo, hi, ok := e.span(last)
	if !ok {
		return x, false
	}
	for i := 0; i < 4; i++ {
		if e.noneIn(st, c, lo, hi, K(int64(d))) {
			if e.entails(st, e.n(st, hi.Sub(lo).AddK(-1))) || len(x.P) == 1 {
				r := e.normStr(st, e.subStr(c, lo, hi))
				return SCat(StrV{x.P[:len(x.P)-1]}, r), true
			}
			return x, false
		}
		b := e.byteAt(c, e.n(st, hi.AddK(-1))).AddK(-int64(d))
		if !e.entails(st, e.n(st, hi.Sub(lo).AddK(-1))) {
			return x, false
		}
		if e.entailsNe(st, e.n(st, b)) {
			return SCat(StrV{x.P[:len(x.P)-1]}, e.normStr(st, e.subStr(c, lo, hi))), true
		}
		if !e.entailsEq(st, e.n(st, b)) {
			return x, false
		}
		hi = e.n(st, hi.AddK(-1))
	}
	return x, false
}

// lacks: the text is, or is a part of, one in which the byte does not occur.
func (e *Engine) lacks(a Atom, d byte) bool {
	if e.oneLine[a] && d == '\n' || e.oneWord[a] && isSpaceByte(d) {
		return true
	}
	if e.atoms[a].Fn == "sub" {
		if b, ok := e.atoms[a].Args[0].(StrV).Atom(); ok {
			return e.lacks(b, d)
		}
	}
	return false
}

// words gives the words of a text made of known text and unknown words.
func (e *Engine) words(x StrV) (out []StrV, ok bool) {
	var cur StrV
	for _, p := range x.P {
		if p.V {
			if !e.oneWord[p.A] {
				return nil, false
			}
			cur = SCat(cur, SA(p.A))
			continue
		}
		for _, r := range p.C {
			if unicode.IsSpace(r) {
				if len(cur.P) > 0 {
					out = append(out, cur)
				}
				cur = StrV{}
			} else {
				cur = SCat(cur, SC(string(r)))
			}
		}
	}
	if len(cur.P) > 0 {
		out = append(out, cur)
	}
	return out, true
}

func isSpaceByte(d byte) bool { return d == ' ' || d >= '\t' && d <= '\r' }

// cutConcat resolves a part of a concatenation: one state per place where it begins and ends.
func (e *Engine) cutConcat(st *State, a Atom) []*State {
	ar := e.atoms[a].Args
	c, lo, hi := ar[0].(StrV), e.n(st, ar[1].(Lin)), e.n(st, ar[2].(Lin))
	at := K(0)
	var r StrV
	for i := range c.P {
		q := StrV{c.P[i : i+1]}
		n := e.n(st, e.strLen(q))
		from, to := K(0), n
		for k, b := range []Lin{lo, hi} {
			rel := e.n(st, b.Sub(at))
			for j, bound := range []Lin{rel, e.n(st, rel.Sub(n))} {
				g := bGe(bound)
				v := e.evalB(st, g)
				if v < 0 {
					var out []*State
					for _, pos := range []bool{true, false} {
						for _, t := range e.assume(st.clone(), g, pos) {
							out = append(out, e.cutConcat(t, a)...)
						}
					}
					return out
				}
				if j == 0 && v == 0 && k == 1 {
					to = K(0)
				}
				if j == 0 && v == 1 {
					if k == 0 {
						from = rel
					} else {
						to = rel
					}
				}
				if j == 1 && v == 1 {
					if k == 0 {
						from = n
					} else {
						to = n
					}
				}
			}
		}
		if e.entailsEq(st, e.n(st, from)) {
			from = K(0)
		}
		if e.entailsEq(st, e.n(st, to.Sub(n))) {
			to = n
		}
		if !e.entails(st, e.n(st, from.Sub(to))) {
			r = SCat(r, e.normStr(st, e.subStr(q, from, to)))
		}
		at = at.Add(n)
	}
	t := st.clone()
	if !e.addSub(t, a, r) {
		return nil
	}
	return []*State{t}
}

// found is where a byte first occurs in a text, if it does.
type found struct {
	st            *State
	ok            bool
	before, after StrV
	at            Lin
}

// byteIndex is the index of the first byte d of x, or -1.
func (e *Engine) byteIndex(st *State, x StrV, d byte) ([]SV, bool) {
	fs, ok := e.findByte(st, x, d)
	if !ok {
		return nil, false
	}
	var out []SV
	for _, f := range fs {
		if f.ok {
			out = append(out, SV{f.st, e.n(f.st, f.at)})
		} else {
			out = append(out, SV{f.st, K(-1)})
		}
	}
	return out, true
}

// findByte looks for the first byte d of x: one state per part of x that may hold it, and one without.
func (e *Engine) findByte(st *State, x StrV, d byte) (out []found, ok bool) {
	dl := K(int64(d))
	pre := StrV{}
	for i, p := range x.P {
		rest := StrV{x.P[i+1:]}
		if !p.V {
			if k := strings.IndexByte(p.C, d); k >= 0 {
				return append(out, found{st, true, e.normStr(st, SCat(pre, SC(p.C[:k]))), e.normStr(st, SCat(SC(p.C[k+1:]), rest)), e.strLen(pre).AddK(int64(k))}), true
			}
			pre = SCat(pre, SC(p.C))
			continue
		}
		if e.lacks(p.A, d) {
			pre = SCat(pre, SA(p.A))
			continue
		}
		c, lo, hi, ok := e.span(SA(p.A))
		if !ok || len(c.P) > 1 {
			return nil, false
		}
		at, end := e.n(st, lo), e.n(st, hi)
		has := e.boolTerm("hasdelim", c, at, dl)
		nx := LA(e.fnAtom("next", 'i', c, at, dl))
		var none []*State
		for _, t := range e.assume(st.clone(), has, false) {
			n := e.n(t, e.strLen(c))
			if e.entailsEq(t, e.n(t, e.byteAt(c, n.AddK(-1)).Sub(dl))) && !e.addGe(t, at.Sub(n)) {
				continue
			}
			none = append(none, t)
		}
		for _, t := range e.assume(st, has, true) {
			if !e.addGe(t, nx.Sub(at)) || !e.addGe(t, e.strLen(c).Sub(nx).AddK(-1)) || !e.addEq(t, e.byteAt(c, nx).Sub(dl)) {
				continue
			}
			in := bGe(end.Sub(nx).AddK(-1))
			for _, u := range e.assume(t.clone(), in, false) {
				if q := e.n(u, nx.Sub(end)); e.entailsEq(u, q) && !e.addEq(u, q) {
					continue
				}
				none = append(none, u)
			}
			for _, u := range e.assume(t, in, true) {
				if e.entailsNe(u, e.n(u, e.byteAt(c, e.n(u, end.AddK(-1))).Sub(dl))) && !e.addGe(u, end.Sub(nx).AddK(-2)) {
					continue
				}
				out = append(out, found{u, true,
					e.normStr(u, SCat(pre, e.subStr(c, at, e.n(u, nx)))),
					e.normStr(u, SCat(e.subStr(c, e.n(u, nx.AddK(1)), end), rest)),
					e.strLen(pre).Add(nx.Sub(at))})
			}
		}
		for _, t := range none {
			fs, ok := e.findByte(t, e.normStr(t, rest), d)
			if !ok {
				return nil, false
			}
			for _, f := range fs {
				head := e.normStr(f.st, SCat(pre, SA(p.A)))
				if f.ok {
					f.before = SCat(head, f.before)
					f.at = e.strLen(head).Add(f.at)
				}
				out = append(out, f)
			}
		}
		return out, true
	}
	return append(out, found{st: st}), true
}

// splitAfter is splitParts with the separator kept in the parts.
func (e *Engine) splitAfter(st *State, x StrV, d byte, max int) ([]SV, bool) {
	rs, ok := e.splitParts(st, x, d, max)
	if !ok {
		return nil, false
	}
	for i, r := range rs {
		vs := e.view(r.St, r.V.(SliceV))
		if len(vs) != 1 {
			return nil, false
		}
		segs := append([]Seg(nil), vs[0].Segs...)
		for j := range segs {
			if j+1 < len(segs) {
				segs[j].V = SCat(segs[j].V.(StrV), SC(string([]byte{d})))
			}
		}
		rs[i].V = e.newSlice(r.St, types.Typ[types.String], segs)
	}
	return rs, true
}

// splitParts splits x at the byte d, one state per number of parts, at most max parts.
func (e *Engine) splitParts(st *State, x StrV, d byte, max int) (out []SV, ok bool) {
	if k, isC := x.Const(); isC {
		var segs []Seg
		for _, p := range strings.Split(k, string([]byte{d})) {
			segs = append(segs, Seg{Kind: 'e', Len: K(1), V: SC(p)})
		}
		return one(st, e.newSlice(st, types.Typ[types.String], segs)), true
	}
	for _, p := range x.P {
		if p.V && e.atoms[p.A].Fn == "sub" && len(e.atoms[p.A].Args[0].(StrV).P) > 1 {
			for _, t := range e.cutConcat(st, p.A) {
				rs, ok := e.splitParts(t, e.normStr(t, x), d, max)
				if !ok {
					return nil, false
				}
				out = append(out, rs...)
			}
			return out, true
		}
	}
	dl := K(int64(d))
	type item struct {
		st   *State
		segs []Seg
		cur  StrV // the unfinished part
	}
	items := []item{{st, nil, StrV{}}}
	emit := func(it item, p StrV) item {
		it.segs = append(it.segs[:len(it.segs):len(it.segs)], Seg{Kind: 'e', Len: K(1), V: SCat(it.cur, p)})
		it.cur = StrV{}
		return it
	}
	for _, p := range x.P {
		var next []item
		if !p.V {
			parts := strings.Split(p.C, string([]byte{d}))
			for _, it := range items {
				for _, q := range parts[:len(parts)-1] {
					it = emit(it, SC(q))
				}
				it.cur = SCat(it.cur, SC(parts[len(parts)-1]))
				next = append(next, it)
			}
			items = next
			continue
		}
		c, lo, hi, ok := e.span(SA(p.A))
		if !ok {
			return nil, false
		}
		if e.lacks(p.A, d) {
			for i := range items {
				items[i].cur = SCat(items[i].cur, SA(p.A))
			}
			continue
		}
		type pos struct {
			item
			at Lin
		}
		var work []pos
		for _, it := range items {
			work = append(work, pos{it, lo})
		}
		for len(work) > 0 {
			w := work[0]
			work = work[1:]
			s := w.st
			at := e.n(s, w.at)
			end := e.n(s, hi)
			if len(w.segs) > max {
				e.dropped = true
				continue
			}
			has := e.boolTerm("hasdelim", c, at, dl)
			nx := LA(e.fnAtom("next", 'i', c, at, dl))
			for _, t := range e.assume(s.clone(), has, false) {
				n := e.n(t, e.strLen(c))
				if e.entailsEq(t, e.n(t, e.byteAt(c, n.AddK(-1)).Sub(dl))) && !e.addGe(t, at.Sub(n)) {
					continue
				}
				it := w.item
				it.st = t
				it.cur = SCat(it.cur, e.normStr(t, e.subStr(c, at, end)))
				next = append(next, it)
			}
			for _, t := range e.assume(s, has, true) {
				if !e.addGe(t, nx.Sub(at)) || !e.addGe(t, e.strLen(c).Sub(nx).AddK(-1)) || !e.addEq(t, e.byteAt(c, nx).Sub(dl)) {
					continue
				}
				in := bGe(end.Sub(nx).AddK(-1))
				for _, u := range e.assume(t.clone(), in, false) {
					if d := e.n(u, nx.Sub(end)); e.entailsEq(u, d) && !e.addEq(u, d) {
						continue
					}
					it := w.item
					it.st = u
					it.cur = SCat(it.cur, e.normStr(u, e.subStr(c, at, end)))
					next = append(next, it)
				}
				for _, u := range e.assume(t, in, true) {
					if e.entailsNe(u, e.n(u, e.byteAt(c, e.n(u, end.AddK(-1))).Sub(dl))) && !e.addGe(u, end.Sub(nx).AddK(-2)) {
						continue
					}
					it := w.item
					it.st = u
					it = emit(it, e.normStr(u, e.subStr(c, at, e.n(u, nx))))
					work = append(work, pos{it, nx.AddK(1)})
				}
			}
		}
		items = next
	}
	for _, it := range items {
		it = emit(it, StrV{})
		for i := range it.segs {
			it.segs[i].V = e.normStr(it.st, it.segs[i].V.(StrV))
		}
		out = append(out, SV{it.st, e.newSlice(it.st, types.Typ[types.String], it.segs)})
	}
	return out, true
}

// trimKnown trims a text whose ends are known as far as the trimming goes.
func trimKnown(s StrV, left, right bool, cut func(rune) bool) (StrV, bool) {
	n := len(s.P)
	if n == 0 {
		return s, true
	}
	p := append([]SPart(nil), s.P...)
	if left {
		c := strings.TrimLeftFunc(p[0].C, cut)
		if p[0].V || c == "" {
			return s, false
		}
		p[0] = SPart{C: c}
	}
	if right {
		c := strings.TrimRightFunc(p[n-1].C, cut)
		if p[n-1].V || c == "" {
			return s, false
		}
		p[n-1] = SPart{C: c}
	}
	return StrV{p}, true
}
