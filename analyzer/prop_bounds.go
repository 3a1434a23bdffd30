package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Crash freedom. Every exported operation, every decoder and every handler is
// evaluated with arguments and stored data nothing is known about; at every
// instruction that can panic the engine records the condition under which it
// does not, and that condition must follow from the branch conditions on the
// way there.

const noCrash = "no instruction can panic"

type crashRun struct {
	fn   *ssa.Function
	name string
	e    *Engine
	outs []Out
	obls []Obl
	err  error
}

// isDecoderOf tells whether fn decodes a value at a place inside bytes:
// (data []byte, place int) -> (value, place behind it, error).
func isPlaceDecoder(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 3 {
		return false
	}
	return isByteSlice(s.Params().At(0).Type()) && isPlainInt(s.Params().At(1).Type()) && isPlainInt(s.Results().At(1).Type()) && isErrorType(s.Results().At(2).Type())
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

func isPlainInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Int
}

// recordType tells whether values of the type hold stored data.
func recordTypes(c *Check) map[*types.TypeName]bool {
	out := map[*types.TypeName]bool{}
	var add func(t types.Type, d int)
	add = func(t types.Type, d int) {
		if d > 6 {
			return
		}
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem(), d+1)
			return
		case *types.Slice:
			add(u.Elem(), d+1)
			return
		case *types.Named:
			n := u.Obj()
			if n.Pkg() == nil || !isMinePath(n.Pkg().Path()) || out[n] {
				return
			}
			if st, ok := u.Underlying().(*types.Struct); ok {
				out[n] = true
				for i := 0; i < st.NumFields(); i++ {
					add(st.Field(i).Type(), d+1)
				}
			}
		}
	}
	for _, fn := range c.exported(libPkgs) {
		if isDecoder(fn) {
			rs := fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				add(rs.At(i).Type(), 0)
			}
		}
	}
	return out
}

// isDecoder tells whether the function turns the bytes of a file or of a part
// of it into values.
func isDecoder(fn *ssa.Function) bool {
	n, s := fn.Name(), fn.Signature
	if s.Recv() != nil {
		return strings.HasPrefix(n, "Unmarshal")
	}
	data := false
	for i := 0; i < s.Params().Len(); i++ {
		if isByteSlice(s.Params().At(i).Type()) {
			data = true
		}
	}
	switch {
	case strings.HasPrefix(n, "Unmarshal"):
		return true
	case strings.HasPrefix(n, "Open") && (strings.HasSuffix(n, "File") || strings.HasSuffix(n, "Cache")):
		return true
	case strings.HasPrefix(n, "New") && (data || strings.Contains(n, "Record")) && s.Results().Len() > 0:
		return true
	}
	return data && s.Results().Len() > 0 && !isErrorType(s.Results().At(0).Type())
}

// placeDecoders are the decoders of nested data that callers are given the
// contract of: the exported ones, and those that call themselves otherwise
// (returned as well).
func (c *Check) placeDecoders() (map[string]bool, []*ssa.Function) {
	place := map[string]bool{}
	var rest, inner []*ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || !isMinePath(fn.Pkg.Pkg.Path()) || !isPlaceDecoder(fn) || fn.Blocks == nil {
			continue
		}
		if fn.Object() != nil && fn.Object().Exported() {
			place[fnKey(fn)] = true
		} else {
			rest = append(rest, fn)
		}
	}
	for _, fn := range rest {
		if c.reachesBut(fn, fn, place) {
			inner = append(inner, fn)
		}
	}
	for _, fn := range inner {
		place[fnKey(fn)] = true
	}
	return place, inner
}

func (c *Check) crashRoots(cache bool) []crashRun {
	var out []crashRun
	place, inner := c.placeDecoders()
	for _, fn := range append(append([]*ssa.Function{}, c.exported(libPkgs)...), inner...) {
		if strings.Contains(fn.Pkg.Pkg.Path(), "/internal/") {
			continue
		}
		if r := fn.Signature.Recv(); r != nil {
			if isShm(r.Type()) {
				continue // in the state the constructor leaves
			}
		}
		e := c.crashEngine(place)
		args, st := params(fn), newState()
		if isPlaceDecoder(fn) {
			// a decoder that goes on elsewhere goes forward, or it would never return
			dec := favDecoder(c, nil)
			for k := range place {
				e.contract[k] = func(k *cc) []Out {
					k.e.oblige(k.fr, k.in, "endless recursion", Ge0(Sub(Sub(k.args[1], args[1]), Int(1))), k.st)
					return dec(k)
				}
			}
		}
		if isPlaceDecoder(fn) {
			d := e.readSlice(st, args[0], types.Typ[types.Uint8])
			st.facts = st.facts.add(Ge0(args[1])).add(Ge0(Sub(SeqLen(d), args[1])))
		}
		outs, err := e.Call(fn, args, st)
		c.used(e)
		out = append(out, crashRun{fn, fnKey(fn), e, outs, e.obls, err})
		switch {
		case err != nil:
		case isPlaceDecoder(fn):
			c.placePost(fn, e, args, st, outs)
		case fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "Unmarshal"):
			for _, o := range outs {
				if feasible(o) && okRet(o) {
					c.byError(fn, o, func(f *Facts, failed bool) {
						if !failed {
							c.treeParts(fn, e, o, f)
						}
					})
				}
			}
		}
	}
	// a function that calls itself is also evaluated on its own: inside its
	// callers the inner calls are skipped
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || !libPkgs[relPkg(fn.Pkg.Pkg.Path())] || fn.Parent() != nil || fn.Blocks == nil || place[fnKey(fn)] || fn.Object() == nil || fn.Object().Exported() || !c.reachesBut(fn, fn, place) {
			continue
		}
		e := c.crashEngine(place)
		c.innerTree = true
		outs, err := e.Call(fn, params(fn), newState())
		c.innerTree = false
		c.used(e)
		out = append(out, crashRun{fn, fnKey(fn), e, outs, e.obls, err})
	}
	return append(out, c.shmRoots(cache)...)
}

// reaches: a static call path leads from one function to the other.
func (c *Check) reaches(from, fn *ssa.Function) bool { return c.reachesBut(from, fn, nil) }

// reachesBut: such a path passes through none of the functions.
func (c *Check) reachesBut(from, fn *ssa.Function, but map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// calls, and functions used as values
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok || g.Pkg == nil || !isMinePath(g.Pkg.Pkg.Path()) {
						continue
					}
					if g == fn {
						return true
					}
					if !seen[g] && !but[fnKey(g)] {
						seen[g] = true
						if walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(from)
}

func isShm(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Cache" && n.Obj().Pkg() != nil && relPkg(n.Obj().Pkg().Path()) == "pttbbs"
}

func (c *Check) crashEngine(place map[string]bool) *Engine {
	e := c.engine()
	e.nonNil = c.callerNonNil
	e.recArgs = true
	dec := favDecoder(c, nil)
	for k := range place {
		e.contract[k] = dec
	}
	return e
}

// placePost: what the contract of the decoders promises to their callers.
func (c *Check) placePost(fn *ssa.Function, e *Engine, args []*Term, st *State, outs []Out) {
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		c.byError(fn, o, func(f *Facts, failed bool) {
			if failed {
				return
			}
			c.treeParts(fn, e, o, f)
			d := e.readSlice(o.st, args[0], types.Typ[types.Uint8])
			end := simp(o.ret[1], f)
			if _, ok := under(fn.Signature.Results().At(0).Type()).(*types.Pointer); ok {
				c.ob(nonNil(simp(o.ret[0], f)) || proveC(f, Not(isNilT(simp(o.ret[0], f)))), "a decoder yields a value inside the data", fnKey(fn), fnPos(fn), "the value may be nil without an error")
			}
			c.ob(proveC(f, Ge0(Sub(end, args[1]))) && proveC(f, Ge0(Sub(SeqLen(d), end))), "a decoder yields a value inside the data", fnKey(fn), fnPos(fn), "it ends at %s, which may be outside the data", clip(end.String(), 200))
		})
	}
}

// shmRoots are the readers of an opened shared-memory cache.
func (c *Check) shmRoots(use bool) []crashRun {
	if !use {
		return nil
	}
	open, raw := c.need("pttbbs", "NewCache"), c.need("cache", "NewCache")
	if open == nil || raw == nil {
		return nil
	}
	var out []crashRun
	e := c.crashEngine(nil)
	e.contract[fnKey(raw)] = opened
	args, st := params(open), newState()
	outs, ok := c.eval(e, open, args, st)
	if !ok {
		return nil
	}
	n := 0
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		c.byError(open, o, func(f *Facts, failed bool) {
			if failed {
				return
			}
			n++
			for _, fn := range c.exported(libPkgs) {
				if r := fn.Signature.Recv(); r == nil || !isShm(r.Type()) {
					continue
				}
				st := o.st.clone()
				st.facts = f
				e.obls = nil
				as := params(fn)
				as[0] = simp(o.ret[0], f)
				if pt, ok := under(fn.Params[0].Type()).(*types.Pointer); ok {
					k := 0
					e.store(st, as[0], anyInts(e.load(st, as[0], pt.Elem()), pt.Elem(), &k), pt.Elem())
				}
				res, err := e.Call(fn, as, st)
				out = append(out, crashRun{fn, fnKey(fn), e, res, e.obls, err})
			}
		})
	}
	c.ob(n > 0, "analysis", fnKey(open), fnPos(open), "no outcome opens the cache")
	return out
}

// anyInts replaces the computed integers of a structure by ones nothing is
// known about.
func anyInts(t *Term, ty types.Type, k *int) *Term {
	if st, ok := under(ty).(*types.Struct); ok && t.Op == "struct" && len(t.Args) == st.NumFields() {
		fs := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			fs[i] = anyInts(a, st.Field(i).Type(), k)
		}
		return mk("struct", t.Ty, t.S, t.N, fs...)
	}
	if isPlainInt(ty) && !t.isInt() {
		*k++
		return param(fmt.Sprintf("place%d", *k), ty)
	}
	return t
}

func (c *Check) crashes(rs []crashRun, want func(r crashRun, o Obl) bool) {
	for _, r := range rs {
		all := want(r, Obl{})
		if r.err != nil {
			if all {
				c.ob(false, "analysis", r.name, fnPos(r.fn), "undecided: %v", r.err)
			}
			continue
		}
		for _, o := range r.obls {
			if o.Kind == startInside && o.Ok || !all && !want(r, o) {
				continue
			}
			pos := token.NoPos
			if o.Instr != nil {
				pos = o.Instr.Pos()
			}
			c.ob(o.Ok, noCrash, r.name+": "+o.Kind+" in "+fnKey(o.Fn), pos, "%s is not shown to be safe for every input: %s", o.Kind, clip(o.Detail, 300))
		}
		if all {
			for _, o := range r.outs {
				c.ob(o.kind != oPanic || !feasible(o), noCrash, r.name+" returns", fnPos(r.fn), "panics")
			}
		}
	}
}

// callerNonNil lists what is taken to be non-nil: the pointers and interfaces
// an operation is called with, the driver of an opened database, and the
// elements of a list of records.
func (c *Check) callerNonNil(t *Term) bool {
	switch t.Op {
	case "param", "sel":
		return true
	case "unbox":
		return c.callerNonNil(t.Args[0])
	case "fld":
		if driverOfDB(t) {
			return true
		}
		// the parts of a decoded tree, see treeParts
		if !c.treeType(t.Args[0].Ty) || t.Args[0].Op != "deref" || !c.treeRoot(t.Args[0].Args[0]) {
			return false
		}
		// an item decoded on its own lacks what the surrounding decoder fills in
		return c.innerTree || !c.laterPart(t.Args[0].Ty, int(t.N)) || !rootedInParam(t)
	case "inv":
		return t.S == "NewConnector"
	case "mapget":
		// a registered driver
		return t.Args[0].Op == "mapof" && c.callerNonNil(t.Args[0].Args[0])
	case "glob":
		return c.madeMap(t.S)
	}
	return false
}

// driverOfDB: the field of the database that holds its driver.
func driverOfDB(t *Term) bool {
	n, ok := t.Ty.(*types.Named)
	return ok && n.Obj().Name() == "Connector" && n.Obj().Pkg() != nil && relPkg(n.Obj().Pkg().Path()) == ""
}

// treeType: a structure of the library that a decoder of a part of a file yields.
func (c *Check) treeType(t types.Type) bool {
	if t == nil {
		return false
	}
	if c.trees == nil {
		c.trees = map[*types.TypeName]bool{}
		for _, fn := range c.exported(libPkgs) {
			if !isDecoder(fn) || !strings.HasPrefix(fn.Name(), "Unmarshal") || fn.Signature.Results().Len() == 0 {
				continue
			}
			r := fn.Signature.Results().At(0).Type()
			if p, ok := r.(*types.Pointer); ok {
				r = p.Elem()
			}
			if n, ok := r.(*types.Named); ok {
				c.trees[n.Obj()] = true
			}
		}
	}
	n, ok := t.(*types.Named)
	return ok && c.trees[n.Obj()]
}

// treeRoot: the term is a record that was passed in or decoded before.
func (c *Check) treeRoot(t *Term) bool {
	return t.Op == "res" && strings.Contains(t.S, ".Unmarshal") || c.callerNonNil(t)
}

// filledLater: the decoder of the surrounding structure sets the field (check
// C05 decides that it always does).
func (c *Check) filledLater(fn *ssa.Function, ty types.Type, field int) bool {
	for _, g := range c.p.Funcs {
		if g == fn || g.Pkg != fn.Pkg || !c.reaches(g, fn) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && a.Field == field && types.Identical(a.X.Type().(*types.Pointer).Elem(), ty) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Check) laterPart(ty types.Type, field int) bool {
	for _, fn := range c.p.Funcs {
		if isPlaceDecoder(fn) && fn.Blocks != nil {
			if p, ok := under(fn.Signature.Results().At(0).Type()).(*types.Pointer); ok && types.Identical(p.Elem(), ty) && c.filledLater(fn, ty, field) {
				return true
			}
		}
	}
	return false
}

// rootedInParam: a part of the argument itself, not of an element of a list
// in it.
func rootedInParam(t *Term) bool {
	for len(t.Args) > 0 && t.Op != "sel" {
		t = t.Args[0]
	}
	return t.Op == "param"
}

// treeParts: a decoded structure has all its parts.
func (c *Check) treeParts(fn *ssa.Function, e *Engine, o Out, f *Facts) {
	p, ok := under(fn.Signature.Results().At(0).Type()).(*types.Pointer)
	if !ok {
		return
	}
	st, ok := under(p.Elem()).(*types.Struct)
	if !ok {
		return
	}
	v := e.load(o.st, simp(o.ret[0], f), p.Elem())
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		switch under(fl.Type()).(type) {
		case *types.Pointer, *types.Interface:
		default:
			continue
		}
		c.cases(f, Fld(v, i, fl.Type(), fl.Name()), func(f *Facts, y *Term) {
			for y.Op == "iface" {
				y = y.Args[0]
			}
			ok := nonNil(y) || c.treeRoot(y) || y == Nil && c.filledLater(fn, p.Elem(), i) || proveC(f, Not(isNilT(y)))
			c.ob(ok, "a decoder yields a value inside the data", fnKey(fn)+" "+fl.Name(), fnPos(fn), "%s may be missing without an error: %s", fl.Name(), clip(y.String(), 200))
		})
	}
}

// madeMap: a package-level map that is made when the package is initialised
// and never replaced.
func (c *Check) madeMap(name string) bool {
	n := 0
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || g.String() != name {
					continue
				}
				if _, ok := s.Val.(*ssa.MakeMap); !ok || fn.Synthetic == "" || fn.Name() != "init" {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// storedTerm: the condition depends on what is stored in a file, a record or
// the shared memory.
func (c *Check) storedTerm(t *Term) bool {
	hit := false
	walk(t, func(x *Term) bool {
		switch x.Op {
		case "rd", "rdlen", "scanned", "line":
			hit = true
		case "inv":
			hit = hit || x.S == "Bytes"
		case "res":
			hit = hit || strings.Contains(x.S, "pttbbs.Unmarshal") || strings.Contains(x.S, "Connector).Read") || strings.Contains(x.S, "Connector).Open")
		case "fld":
			hit = hit || c.treeType(x.Args[0].Ty)
		}
		return !hit
	})
	return hit
}

func checkStoredCrash(c *Check) {
	recs := recordTypes(c)
	var names []string
	for t := range recs {
		names = append(names, t.Name())
	}
	sort.Strings(names)
	rs := c.crashRoots(true)
	c.crashes(rs, func(r crashRun, o Obl) bool {
		if o.Instr == nil {
			if isDecoder(r.fn) || !r.fn.Object().Exported() {
				return true
			}
			rc := r.fn.Signature.Recv()
			if rc == nil {
				return false
			}
			t := rc.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			n, ok := t.(*types.Named)
			return ok && recs[n.Obj()] || isShm(t)
		}
		return o.Cond != nil && c.storedTerm(o.Cond)
	})
}

func checkArgCrash(c *Check) {
	rs := c.crashRoots(true)
	c.crashes(rs, func(r crashRun, o Obl) bool { return !isDecoder(r.fn) })
}

func init() {
	checks["C08"] = checkDef{run: checkStoredCrash, min: 100, rule: "abstract interpretation of every decoder, record method, cache method and operation that reads stored data: each index, slice, division, nil dereference, type assertion, allocation length, explicit panic and panicking library call that stored data can reach is proven safe from the facts on its path; recursion over the data moves forward"}
	checks["C09"] = checkDef{run: checkArgCrash, min: 100, rule: "abstract interpretation of every exported operation with unknown arguments: each index, slice, division, nil dereference, type assertion, allocation length, explicit panic and panicking library call in it or its callees is proven safe from the facts on its path"}
}
