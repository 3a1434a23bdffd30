package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: callers keep what they pass in, and own what they get.

// callerData lists the slices and maps an operation is called with.
func callerData(fn *ssa.Function) []*ssa.Parameter {
	var out []*ssa.Parameter
	for i, p := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		switch p.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			out = append(out, p)
		}
	}
	return out
}

// fullSlice: appending to the value copies it, x[a:b:b].
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.Max == s.High {
		return true
	}
	return sameLen(s.Max, s.High) || sameConst(s.Max, s.High)
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

// sameLen: both are len of the same value.
func sameLen(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	bx, ok1 := x.Call.Value.(*ssa.Builtin)
	by, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && bx.Name() == "len" && by.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
}

const keepsData, ownsData = "leaves the caller's data alone", "the result owns its data"

// keepsArgs: no instruction the operation reaches writes through a slice or
// map of its caller.
func (c *Check) keepsArgs() {
	r := newRefFlow(c.p)
	r.ownBuffers = true
	for _, fn := range c.exported(libPkgs) {
		for _, p := range callerData(fn) {
			var o *flowRes
			r.fieldIn = map[fieldKey]bool{}
			for n := 0; n < 10; n++ {
				r.fieldNew = false
				r.memo = map[[2]any]*flowRes{}
				o = r.flow(fn, [2]any{fn, p}, []ssa.Value{p})
				if !r.fieldNew {
					break
				}
			}
			bad := 0
			for _, a := range o.acc {
				c.funcs[a.fn] = true
				if !a.write || appendsCopy(a.ins) {
					continue
				}
				bad++
				c.ob(false, keepsData, fnKey(fn)+" "+p.Name(), a.ins.Pos(), "%s of the caller's %s in %s", a.what, p.Name(), fnKey(a.fn))
			}
			if bad == 0 {
				c.ob(true, keepsData, fnKey(fn)+" "+p.Name(), fnPos(fn), "")
			}
		}
	}
}

func appendsCopy(in ssa.Instruction) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	b, ok := call.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "append" && fullSlice(call.Common().Args[0])
}

// rooted: the storage behind the term is reached from a value the function was
// given, or from the shared memory.
func rooted(e *Engine, t *Term, depth int) bool {
	if t == nil || depth > 12 {
		return false
	}
	switch t.Op {
	case "param":
		return true
	case "inv":
		return t.S == "Bytes"
	case "ref":
		o := e.objs[t.N]
		return !o.local && rooted(e, o.key, depth+1)
	case "content", "nil", "str":
		return false
	case "slice", "fld", "deref", "unbox", "asbytes":
		return len(t.Args) > 0 && rooted(e, t.Args[0], depth+1)
	}
	return false
}

// shares looks for storage of others in a value of a type.
func (c *Check) shares(e *Engine, st *State, t *Term, ty types.Type, seen map[*Term]bool, depth int) string {
	if t == nil || ty == nil || depth > 12 || !refType(ty) {
		return ""
	}
	if seen[t] {
		return ""
	}
	seen[t] = true
	if t.Op == "ite" {
		if s := c.shares(e, st, t.Args[1], ty, seen, depth+1); s != "" {
			return s
		}
		return c.shares(e, st, t.Args[2], ty, seen, depth+1)
	}
	if t.Op == "phi" {
		if l := e.loops[t.N/1000]; l != nil && int(t.N%1000) < len(l.Phis) {
			for _, it := range l.Iters {
				if s := c.shares(e, it.St, it.Next[t.N%1000], ty, seen, depth+1); s != "" {
					return s
				}
			}
		}
		return ""
	}
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		if rooted(e, t, 0) {
			return "a slice of it is part of what was passed in"
		}
		if t.Op == "slice" && t.Args[0].Op == "ref" {
			o := e.objs[t.Args[0].N]
			if !o.local && o.key == nil {
				return "a slice of it is storage shared by all calls"
			}
		}
		if refType(u.Elem()) && (t.Op == "slice" || t.Op == "ref") {
			bad := ""
			for _, x := range elements(e.readSlice(st, t, u.Elem()), 0) {
				if s := c.shares(e, st, x, u.Elem(), seen, depth+1); s != "" {
					bad = s
				}
			}
			return bad
		}
	case *types.Pointer:
		if t.Op != "ref" || !e.objs[t.N].local {
			return ""
		}
		if s := c.shares(e, st, e.load(st, t, u.Elem()), u.Elem(), seen, depth+1); s != "" {
			return s
		}
		// what a loop put there
		for _, l := range e.loops {
			hit := false
			for _, m := range l.Mod {
				hit = hit || m.Obj == int(t.N)
			}
			for _, it := range l.Iters {
				if !hit || it.St == nil {
					continue
				}
				if s := c.shares(e, it.St, e.load(it.St, t, u.Elem()), u.Elem(), seen, depth+1); s != "" {
					return s
				}
			}
		}
		return ""
	case *types.Array:
		for _, x := range elements(t, 0) {
			if s := c.shares(e, st, x, u.Elem(), seen, depth+1); s != "" {
				return s
			}
		}
	case *types.Interface:
		if t.Op == "iface" {
			return c.shares(e, st, t.Args[0], t.Ty, seen, depth+1)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !refType(u.Field(i).Type()) {
				continue
			}
			v := Fld(t, i, u.Field(i).Type(), u.Field(i).Name())
			if s := c.shares(e, st, v, u.Field(i).Type(), seen, depth+1); s != "" {
				return u.Field(i).Name() + ": " + s
			}
		}
	}
	return ""
}

// elements lists the known elements of a list.
func elements(t *Term, depth int) []*Term {
	if t == nil || depth > 6 {
		return nil
	}
	switch t.Op {
	case "list":
		return t.Args
	case "catl", "cat":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, elements(a, depth+1)...)
		}
		return out
	case "upd":
		return append(elements(t.Args[0], depth+1), t.Args[2])
	case "ite":
		return append(elements(t.Args[1], depth+1), elements(t.Args[2], depth+1)...)
	case "sub":
		return elements(t.Args[0], depth+1)
	}
	return nil
}

// plainBytes: the function is about bytes themselves and may return a part of them.
func plainBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

// carriesBytes: the result decodes nothing, it hands the bytes on as they are.
func carriesBytes(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	i, ok := res.At(0).Type().Underlying().(*types.Interface)
	if !ok || i.NumMethods() == 0 {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		s := i.Method(k).Type().(*types.Signature)
		if s.Params().Len() != 0 || s.Results().Len() != 1 || !plainBytes(s.Results().At(0).Type()) {
			return false
		}
	}
	return true
}

func (c *Check) ownsResults() {
	n := 0
	for _, r := range c.crashRoots(true) {
		shm := r.fn.Signature.Recv() != nil && isShm(r.fn.Signature.Recv().Type())
		data := false
		for _, p := range callerData(r.fn) {
			data = data || plainBytes(p.Type())
		}
		if !shm && !(data && (isDecoder(r.fn) || isPlaceDecoder(r.fn))) || carriesBytes(r.fn) {
			continue
		}
		name := fnKey(r.fn)
		if !c.ob(r.err == nil, "analysis", name, fnPos(r.fn), "undecided: %v", r.err) {
			continue
		}
		n++
		for _, o := range r.outs {
			if !feasible(o) || !okRet(o) {
				continue
			}
			bad := ""
			for i, v := range o.ret {
				ty := r.fn.Signature.Results().At(i).Type()
				if !shm && plainBytes(ty) {
					continue
				}
				v = simp(v, o.st.facts)
				if s := c.shares(r.e, o.st, v, ty, map[*Term]bool{}, 0); s != "" {
					bad = s
				}
			}
			if rc := r.fn.Signature.Recv(); rc != nil && !shm {
				// what the method filled in
				if p, ok := rc.Type().Underlying().(*types.Pointer); ok {
					t := r.e.load(o.st, param(r.fn.Params[0].Name(), rc.Type()), p.Elem())
					if s := c.filledIn(r.e, o.st, t, p.Elem()); s != "" {
						bad = s
					}
				}
			}
			c.ob(bad == "", ownsData, name, fnPos(r.fn), "%s", bad)
		}
	}
	c.ob(n >= 15, "coverage", "decoders", token.NoPos, "only %d decoders", n)
}

// filledIn: a slice field of the receiver was set to a part of the input.
func (c *Check) filledIn(e *Engine, st *State, t *Term, ty types.Type) string {
	s, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !refType(f.Type()) {
			continue
		}
		v := Fld(t, i, f.Type(), f.Name())
		if v.Op == "fld" {
			continue // as it was
		}
		if w := c.shares(e, st, v, f.Type(), map[*Term]bool{}, 0); w != "" && !strings.Contains(w, "fld:") {
			return f.Name() + ": " + w
		}
	}
	return ""
}

func checkOwnership(c *Check) {
	c.keepsArgs()
	c.ownsResults()
}

func init() {
	checks["C23"] = checkDef{run: checkOwnership, min: 60, rule: "reference flow of every slice and map an exported operation is given: nothing it reaches writes through them or appends to them; abstract interpretation of every decoder and cache method: no slice of a result is rooted in the input bytes, the shared memory or storage common to all calls"}
}
