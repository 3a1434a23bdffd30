package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C38: no request crashes a handler of the sample server.

const noCrashHandler = "no request crashes it"

// requestNonNil: what a handler is called with, the records loaded, and the
// database opened before the server listens.
func (c *Check) requestNonNil(t *Term) bool {
	switch t.Op {
	case "param", "sel":
		return true
	case "unbox":
		return c.requestNonNil(t.Args[0])
	case "glob":
		return c.madeMap(t.S) || c.openedBefore(t)
	case "fld":
		return driverOfDB(t)
	}
	return false
}

// openedBefore: a global of type *bbs.DB, set before the server listens.
func (c *Check) openedBefore(t *Term) bool {
	p, ok := t.Ty.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "DB" && n.Obj().Pkg() != nil && relPkg(n.Obj().Pkg().Path()) == ""
}

func fieldNamed(t types.Type, name string) (int, types.Type) {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i).Type()
		}
	}
	return -1, nil
}

// request gives the request the path the server routes to the handler: the
// pattern, or anything below a pattern that ends in a slash.
func (c *Check) request(e *Engine, st *State, fn *ssa.Function, r *Term, pattern string) bool {
	pt, ok := fn.Params[1].Type().(*types.Pointer)
	if !ok {
		return false
	}
	k, ut := fieldNamed(pt.Elem(), "URL")
	if k < 0 {
		return false
	}
	up, ok := ut.(*types.Pointer)
	if !ok {
		return false
	}
	j, _ := fieldNamed(up.Elem(), "Path")
	if j < 0 {
		return false
	}
	url := e.newObj(up.Elem(), false, -1, mk("deref", up.Elem(), "", 0, param("url", ut)), nil)
	url.local = false
	if i := strings.IndexByte(pattern, '/'); i >= 0 {
		pattern = pattern[i:] // a pattern may begin with a host
	}
	path := Str(pattern)
	if strings.HasSuffix(pattern, "/") {
		path = Cat(path, param("below", types.Typ[types.String]))
	}
	e.store(st, refField(refOf(url), j, "Path"), path, types.Typ[types.String])
	o := e.objFor(r, pt.Elem())
	e.store(st, refField(refOf(o), k, "URL"), refOf(url), ut)
	return true
}

func checkHandlers(c *Check) {
	for _, h := range c.routes() {
		name := "handler of " + h.pattern
		e := c.engine()
		e.nonNil = c.requestNonNil
		e.recArgs = true
		args, st := params(h.fn), newState()
		if !c.ob(c.request(e, st, h.fn, args[1], h.pattern), "anchor", name, fnPos(h.fn), "the handler does not take an *http.Request") {
			continue
		}
		outs, err := e.Call(h.fn, args, st)
		c.used(e)
		if !c.ob(err == nil, "analysis", name, fnPos(h.fn), "undecided: %v", err) {
			continue
		}
		for _, o := range e.obls {
			pos := fnPos(h.fn)
			if o.Instr != nil {
				pos = o.Instr.Pos()
			}
			c.ob(o.Ok, noCrashHandler, name+": "+o.Kind+" in "+fnKey(o.Fn), pos, "%s is not shown to be safe for every request: %s", o.Kind, clip(o.Detail, 300))
		}
		for _, o := range outs {
			c.ob(o.kind != oPanic || !feasible(o), noCrashHandler, name+" returns", fnPos(h.fn), "the handler panics or ends the process")
		}
	}
}

func init() {
	checks["C38"] = checkDef{run: checkHandlers, min: 10, rule: "abstract interpretation of every handler the server registers, with an unknown request whose path is the one routed to it: each index, slice, division, nil dereference, type assertion, allocation length, explicit panic and panicking library call is proven safe from the facts on its path"}
}
