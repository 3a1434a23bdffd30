package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// helpers shared by the property checkers

func param(name string, ty types.Type) *Term { return mk("param", ty, name, 0) }

func fnPos(fn *ssa.Function) token.Pos {
	if fn == nil {
		return token.NoPos
	}
	return fn.Pos()
}

// need finds a function the property is about; missing anchors fail the check.
func (c *Check) need(pkg, name string) *ssa.Function {
	fn := c.p.Func(pkg, name)
	if fn == nil || fn.Blocks == nil {
		c.ob(false, "anchor", pkg+"."+name, token.NoPos, "the function is missing")
		return nil
	}
	return fn
}

func (c *Check) needM(pkg, typ, name string) *ssa.Function {
	fn := c.p.Method(pkg, typ, name)
	if fn == nil {
		c.ob(false, "anchor", pkg+"."+typ+"."+name, token.NoPos, "the method is missing")
		return nil
	}
	return fn
}

// params makes one symbolic argument for each parameter.
func params(fn *ssa.Function) []*Term {
	var out []*Term
	for i, a := range fn.Params {
		n := a.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		out = append(out, param(n, a.Type()))
	}
	return out
}

func isParam(t *Term) bool { return t.Op == "param" }

func (c *Check) engine() *Engine {
	e := NewEngine(c.p)
	e.nonNil = isParam
	c.lastEngine = e
	if c.prep != nil {
		c.prep(e)
	}
	return e
}

// eval runs fn; a failing evaluation is an undecided obligation.
func (c *Check) eval(e *Engine, fn *ssa.Function, args []*Term, st *State) ([]Out, bool) {
	outs, err := e.Call(fn, args, st)
	c.used(e)
	c.paths += len(outs)
	if err != nil {
		c.ob(false, "analysis", fnKey(fn), fnPos(fn), "undecided: %v", err)
		return nil, false
	}
	return outs, true
}

// eqT decides equality of two values under the facts.
func eqT(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = simp(a, f), simp(b, f)
	if a == b {
		return true
	}
	if contradictory(f) {
		return true
	}
	// case split on gates
	if g := firstGate(a, b); g != nil {
		for _, c := range []*Term{g, Not(g)} {
			if Prove(f, Not(c)) {
				continue
			}
			nf := f.add(c)
			if !eqT2(nf, a, b, 1) {
				return false
			}
		}
		return true
	}
	return proveEq(f, a, b)
}

func proveEq(f *Facts, a, b *Term) bool {
	if isIntish(a) && isIntish(b) {
		a, b = unwrapT(f, a), unwrapT(f, b)
		return Prove(f, Eq0(Sub(a, b)))
	}
	if a.Ty == types.Typ[types.Bool] && b.Ty == types.Typ[types.Bool] {
		fa, fb := f.add(a), f.add(b)
		return (Prove(fa, b) || contradictory(fa)) && (Prove(fb, a) || contradictory(fb))
	}
	return Prove(f, Eq(a, b))
}

// unwrapT removes the conversions that are proved to keep the value.
func unwrapT(f *Facts, t *Term) *Term {
	if !hasIte(t) {
		return t
	}
	t = rebuild(t, func(x *Term) *Term { return unwrapT(f, x) })
	if t.Op == "wrap" {
		in := t.Args[0]
		tl, th := typeRange(t.Ty)
		if tl == ninf {
			tl = -1 << 48
		}
		if th == inf {
			th = 1 << 48
		}
		if Prove(f, Ge0(Sub(in, Int(tl)))) && Prove(f, Ge0(Sub(Int(th), in))) {
			return in
		}
	}
	return t
}

func isIntish(t *Term) bool {
	switch t.Op {
	case "int", "poly", "wrap", "byteOf", "at", "len", "and", "or", "shr", "div", "mod":
		return true
	}
	return isIntType(t.Ty)
}

func eqT2(f *Facts, a, b *Term, d int) bool {
	a, b = simp(a, f), simp(b, f)
	if a == b {
		return true
	}
	if contradictory(f) {
		return true
	}
	if d < 12 {
		if g := firstGate(a, b); g != nil {
			for _, c := range []*Term{g, Not(g)} {
				if Prove(f, Not(c)) {
					continue
				}
				if !eqT2(f.add(c), a, b, d+1) {
					return false
				}
			}
			return true
		}
	}
	return proveEq(f, a, b)
}

// firstGate is an undecided condition inside the values.
func firstGate(ts ...*Term) *Term {
	var g *Term
	for _, t := range ts {
		if !hasIte(t) {
			continue
		}
		walk(t, func(x *Term) bool {
			if g != nil {
				return false
			}
			if x.Op == "ite" && !gated(x.Args[0]) {
				g = x.Args[0]
				return false
			}
			return true
		})
		if g != nil {
			return g
		}
	}
	return g
}

var gatedMemo = map[*Term]bool{}

func gated(t *Term) bool {
	if v, ok := gatedMemo[t]; ok {
		return v
	}
	r := t.Op == "ite"
	for _, a := range t.Args {
		r = r || gated(a)
	}
	gatedMemo[t] = r
	return r
}

// fieldPath finds a field by name, embedded structs included.
func fieldPath(ty types.Type, name string) []int {
	s := structOf(ty)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if p := fieldPath(s.Field(i).Type(), name); p != nil {
				return append([]int{i}, p...)
			}
		}
	}
	return nil
}

type leaf struct {
	path string
	val  *Term
	ty   types.Type
}

// leaves lists the scalar attributes held in a value (nested structs and
// arrays expanded, slices of known length read).
func (e *Engine) leaves(st *State, v *Term, ty types.Type, path string, out []leaf, expand bool) []leaf {
	switch u := under(ty).(type) {
	case *types.Struct:
		if p := namedPkg(ty); p != "" && !isMinePath(p) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			out = e.leaves(st, Fld(v, i, f.Type(), f.Name()), f.Type(), path+"."+f.Name(), out, expand)
		}
		return out
	case *types.Array:
		if isByte(u.Elem()) {
			break
		}
		for i := int64(0); i < u.Len(); i++ {
			out = e.leaves(st, ElemAt(v, Int(i), u.Elem()), u.Elem(), fmt.Sprintf("%s[%d]", path, i), out, expand)
		}
		return out
	case *types.Slice:
		if isByte(u.Elem()) {
			break
		}
		n := simp(e.sliceLen(v), st.facts)
		if n.isInt() && n.N < 64 && expand {
			for i := int64(0); i < n.N; i++ {
				out = e.leaves(st, e.load(st, e.elemRef(v, Int(i), u.Elem()), u.Elem()), u.Elem(), fmt.Sprintf("%s[%d]", path, i), out, expand)
			}
			return out
		}
	}
	return append(out, leaf{path, v, ty})
}

func leafByName(ls []leaf, name string) *leaf {
	for i := range ls {
		p := strings.TrimPrefix(ls[i].path, ".")
		if p == name {
			return &ls[i]
		}
		// promoted from an embedded struct
		if k := strings.Index(p, "."); k >= 0 && p[k+1:] == name {
			return &ls[i]
		}
	}
	return nil
}

// okRet tells whether an outcome returns (not panics).
func okRet(o Out) bool { return o.kind == oRet }

// feasible tells whether the facts of an outcome are not contradictory.
func feasible(o Out) bool {
	return !contradictory(o.st.facts) && !(o.guard != nil && simp(o.guard, o.st.facts) == False)
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

var byteSliceT = types.NewSlice(types.Typ[types.Uint8])
