package main

import "go/types"

// The standard library's flag package: after Parse every variable may have any value.
func installFlag(e *Engine) {
	m := e.models
	cell := func(t types.Type) modelFn {
		return func(c *Call) []SV {
			id := c.E.alloc(c.St, &Obj{V: c.E.havoc(c.St, t, "flag"), Typ: t})
			return one(c.St, PtrV{Obj: id})
		}
	}
	m["flag.String"] = cell(types.Typ[types.String])
	m["flag.Bool"] = cell(types.Typ[types.Bool])
	m["flag.Int"] = cell(types.Typ[types.Int])
	m["flag.Int64"] = cell(types.Typ[types.Int64])
	m["flag.Uint"] = cell(types.Typ[types.Uint])
	setv := func(c *Call) []SV {
		p, ok := c.Args[0].(PtrV)
		if !ok {
			return c.E.unknown(c)
		}
		var out []SV
		t := c.Sig.Params().At(0).Type().(*types.Pointer).Elem()
		for _, s := range c.E.store(c.St, p, c.E.havoc(c.St, t, "flag")) {
			out = append(out, SV{s, nil})
		}
		return out
	}
	for _, n := range []string{"StringVar", "BoolVar", "IntVar", "Int64Var"} {
		m["flag."+n] = setv
	}
	m["flag.Parse"] = func(c *Call) []SV {
		e := c.E
		bad := c.St.clone()
		for _, s := range e.write(bad, e.stdPtr(bad, "Stderr"), e.newStr("usage"), c.At) {
			e.exit(s, K(2), c.At)
		}
		return one(c.St, nil)
	}
	m["flag.NArg"] = func(c *Call) []SV {
		l := LA(c.E.fnAtom("flag.narg", 'i'))
		c.E.addGe(c.St, l)
		return one(c.St, l)
	}
	m["flag.Arg"] = pure(func(c *Call) Val { return c.E.strTerm("flag.arg", c.Args[0]) })
	m["flag.Args"] = func(c *Call) []SV { return one(c.St, c.E.havoc(c.St, c.Typ, "flag.args")) }
	m["flag.Usage"] = func(c *Call) []SV { return one(c.St, nil) }
	m["flag.PrintDefaults"] = func(c *Call) []SV { return one(c.St, nil) }
}
