package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callee(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, simp(e.val(st, c.Value), st.facts))
		for _, a := range c.Args {
			args = append(args, simp(e.val(st, a), st.facts))
		}
		return mk("invoke", nil, c.Method.Name(), 0), args
	}
	for _, a := range c.Args {
		args = append(args, simp(e.val(st, a), st.facts))
	}
	return e.val(st, c.Value), args
}

func (e *Engine) call(fr *frame, in ssa.Instruction, c *ssa.CallCommon, st *State) []Out {
	fn, args := e.callee(st, c)
	return e.callValue(fr, in, c, fn, args, st, false)
}

func one(st *State, ret ...*Term) []Out {
	return []Out{{kind: oRet, st: st, ret: ret, guard: True}}
}

func (e *Engine) callValue(fr *frame, in ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term, st *State, deferred bool) []Out {
	fn = simp(fn, st.facts)
	switch fn.Op {
	case "builtin":
		return e.builtin(fr, in, c, fn.S, args, st)
	case "func", "closure":
		cl := e.clos[int64(fn.id)]
		return e.callFn(fr, in, c, cl.fn, args, cl.bind, st, deferred)
	case "invoke":
		return e.invoke(fr, in, c, args, st, deferred)
	case "ite":
		return e.fork(st, fn.Args[0], func(s *State) []Out {
			return e.callValue(fr, in, c, fn.Args[1], args, s, deferred)
		}, func(s *State) []Out {
			return e.callValue(fr, in, c, fn.Args[2], args, s, deferred)
		})
	case "nil":
		e.oblige(fr, in, "call of nil function", False, st)
		return []Out{{kind: oPanic, st: st, guard: True, instr: in}}
	}
	e.ptrCheck(fr, in, st, fn)
	return e.event(fr, in, c, "call", "dynamic", args, st, deferred)
}

func (e *Engine) fork(st *State, c *Term, t, f func(*State) []Out) []Out {
	if Prove(st.facts, c) {
		return t(st)
	}
	if Prove(st.facts, Not(c)) {
		return f(st)
	}
	s2 := st.clone()
	st.facts = st.facts.add(c)
	s2.facts = s2.facts.add(Not(c))
	mark := len(e.objs)
	return e.merge2(c, t(st), f(s2), mark)
}

func (e *Engine) onStack(fr *frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	return ""
}

func (e *Engine) callFn(fr *frame, in ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args, bind []*Term, st *State, deferred bool) []Out {
	name := fn.String()
	if fn.Synthetic != "" && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 {
		// package initialisers of imports
		return one(st)
	}
	mine := isMinePath(fnPkgPath(fn))
	if mine && strings.HasPrefix(fn.Name(), "init#") {
		return one(st)
	}
	if k := e.contract[fnKey(fn)]; mine && k != nil {
		cc := &cc{e: e, fr: fr, in: in, c: c, st: st, args: args, sig: fn.Signature, name: fnKey(fn), deferred: deferred}
		if outs := k(cc); outs != nil {
			return outs
		}
	}
	if mine && fn.Blocks != nil && !e.opaque[fnKey(fn)] {
		if e.onStack(fr, fn) {
			return e.recursive(fr, in, c, fn, args, st, deferred)
		}
		return e.enter(fr, in, fn, args, bind, st)
	}
	if !mine {
		if m := models[name]; m != nil {
			cc := &cc{e: e, fr: fr, in: in, c: c, st: st, args: args, sig: fn.Signature, name: name, deferred: deferred}
			if outs := m(cc); outs != nil {
				return outs
			}
		} else if isPure(name) {
			return one(st, e.pureCall(fn.Signature, name, args, st)...)
		} else {
			e.Unknown[name]++
		}
		// thin wrappers around an interface (method values, bound methods)
		if fn.Blocks != nil && fn.Synthetic != "" && fn.Pkg == nil {
			return e.enter(fr, in, fn, args, bind, st)
		}
	}
	return e.event(fr, in, c, "call", name, args, st, deferred)
}

// recursive is a call of a function already being evaluated: an opaque result.
func (e *Engine) recursive(fr *frame, in ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args []*Term, st *State, deferred bool) []Out {
	if e.recArgs {
		for i, a := range args {
			if _, ok := under(fn.Params[i].Type()).(*types.Pointer); ok {
				e.ptrCheck(fr, in, st, a)
			}
		}
	}
	outs := e.event(fr, in, c, "rec", fnKey(fn), args, st, deferred)
	return outs
}

func (e *Engine) invoke(fr *frame, in ssa.Instruction, c *ssa.CallCommon, args []*Term, st *State, deferred bool) []Out {
	recv := args[0]
	switch recv.Op {
	case "ite":
		return e.fork(st, recv.Args[0], func(s *State) []Out {
			return e.invoke(fr, in, c, append([]*Term{simp(recv.Args[1], s.facts)}, args[1:]...), s, deferred)
		}, func(s *State) []Out {
			return e.invoke(fr, in, c, append([]*Term{simp(recv.Args[2], s.facts)}, args[1:]...), s, deferred)
		})
	case "iface":
		sel := e.P.SSA.MethodSets.MethodSet(recv.Ty).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			unsupported("method %s not found on %s", c.Method.Name(), recv.S)
		}
		m := e.P.SSA.MethodValue(sel)
		return e.callFn(fr, in, c, m, append([]*Term{recv.Args[0]}, args[1:]...), nil, st, deferred)
	case "nil":
		e.oblige(fr, in, "nil dereference", False, st)
		return []Out{{kind: oPanic, st: st, guard: True, instr: in}}
	}
	name := c.Method.Name()
	sig := c.Signature()
	e.ptrCheck(fr, in, st, recv)
	full := c.Method.FullName()
	if full == "(error).Error" {
		return one(st, mk("errstr", types.Typ[types.String], "", 0, recv))
	}
	if m := models["invoke "+full]; m != nil {
		cc := &cc{e: e, fr: fr, in: in, c: c, st: st, args: args, sig: sig, name: full, deferred: deferred}
		if outs := m(cc); outs != nil {
			return outs
		}
	}
	// getters of symbolic records are functions of the record
	if sig.Params().Len() == 0 && sig.Results().Len() == 1 && !isErrorType(sig.Results().At(0).Type()) {
		return one(st, mk("inv", sig.Results().At(0).Type(), name, 0, recv))
	}
	return e.event(fr, in, c, "invoke", full, args, st, deferred)
}

// snapshot is the content behind an argument at this moment.
func (e *Engine) snapshot(st *State, t *Term, ty types.Type) *Term {
	return e.snap(st, t, ty, 0)
}

func (e *Engine) snap(st *State, t *Term, ty types.Type, d int) *Term {
	if ty == nil || d > 2 {
		return t
	}
	switch u := under(ty).(type) {
	case *types.Slice:
		if t == Nil {
			return t
		}
		return e.readSlice(st, t, u.Elem())
	case *types.Pointer:
		return dist(t, func(t *Term) *Term {
			if t.Op == "ref" {
				o := e.objs[t.N]
				if p := namedPkg(u.Elem()); p == "sync" || p == "os" {
					return t
				}
				if o.arr && len(t.Args) == 0 {
					return e.load(st, t, u.Elem())
				}
				return e.load(st, t, u.Elem())
			}
			if o := e.byKey[t]; o != nil && !o.arr {
				return e.load(st, t, u.Elem())
			}
			return t
		})
	case *types.Interface:
		return dist(t, func(t *Term) *Term {
			if t.Op == "iface" {
				in := e.snap(st, t.Args[0], t.Ty, d+1)
				if in == t.Args[0] {
					return t
				}
				return mk("iface", t.Ty, t.S, 0, in)
			}
			return t
		})
	case *types.Map:
		if t.Op == "mapobj" {
			return e.deepMap(st, e.mapContent(st, t), 4)
		}
	}
	return t
}

// deepMap expands the maps held in a map.
func (e *Engine) deepMap(st *State, c *Term, d int) *Term {
	if d == 0 {
		return c
	}
	if c.Op == "mapset" {
		m := e.deepMap(st, c.Args[0], d)
		v := c.Args[2]
		if v.Op == "mapobj" {
			v = e.deepMap(st, e.mapContent(st, v), d-1)
		} else if v.Op == "iface" && v.Args[0].Op == "mapobj" {
			v = mk("iface", v.Ty, v.S, 0, e.deepMap(st, e.mapContent(st, v.Args[0]), d-1))
		} else if v.Op == "iface" && v.Ty != nil {
			if w := e.snap(st, v.Args[0], v.Ty, 1); w != v.Args[0] {
				v = mk("iface", v.Ty, v.S, 0, w)
			}
		}
		return mk("mapset", nil, "", 0, m, c.Args[1], v)
	}
	return c
}

// havocArg forgets what an unknown callee may overwrite through an argument.
func (e *Engine) havocArg(st *State, t *Term, ty types.Type, why string) {
	if ty == nil {
		return
	}
	switch t.Op {
	case "ite":
		e.havocArg(st, t.Args[1], ty, why)
		e.havocArg(st, t.Args[2], ty, why)
		return
	case "iface":
		e.havocArg(st, t.Args[0], t.Ty, why)
		return
	case "conv":
		// an address given to the system as a number
		for t.Op == "conv" {
			t = t.Args[0]
		}
		if t.Op == "ref" || t.Op == "ite" {
			e.havocRef(st, t, why)
		}
		return
	}
	switch u := under(ty).(type) {
	case *types.Slice:
		if t.Op == "slice" && isByte(u.Elem()) {
			e.havocSlice(st, t, u.Elem())
		}
	case *types.Pointer:
		if t.Op == "ref" {
			if isMinePath(namedPkg(u.Elem())) {
				// records passed to an unknown callee are not rewritten by it
				return
			}
			e.havocRef(st, t, why)
		}
	}
}

// readers take byte slices without modifying them
var readOnlyArgs = map[string]bool{}

func (e *Engine) newEvent(fr *frame, in ssa.Instruction, kind, name string, args []*Term, types_ []types.Type, st *State, deferred bool) *Event {
	e.evCnt++
	ev := &Event{ID: e.evCnt, Kind: kind, Name: name, Args: args, Instr: in, Fn: fr.fn, Facts: st.facts, Deferred: deferred, Stack: e.stackOf(fr)}
	for i, a := range args {
		var ty types.Type
		if i < len(types_) {
			ty = types_[i]
		}
		ev.Content = append(ev.Content, e.snapshot(st, a, ty))
	}
	return ev
}

func argTypes(c *ssa.CallCommon, sig *types.Signature) []types.Type {
	var ts []types.Type
	if c.IsInvoke() {
		ts = append(ts, c.Value.Type())
	}
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

func resTerm(ev *Event, i int, ty types.Type) *Term {
	return mk("res", ty, ev.Name, int64(ev.ID)*8+int64(i))
}

// event records an observable effect with unknown results.
func (e *Engine) event(fr *frame, in ssa.Instruction, c *ssa.CallCommon, kind, name string, args []*Term, st *State, deferred bool) []Out {
	sig := c.Signature()
	ts := argTypes(c, sig)
	if kind == "call" {
		e.stdPanic(fr, in, name, args, st)
	}
	ev := e.newEvent(fr, in, kind, name, args, ts, st, deferred)
	var ret []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		ret = append(ret, resTerm(ev, i, sig.Results().At(i).Type()))
	}
	ev.Res = ret
	st.push(ev)
	if e.onEvent != nil {
		e.onEvent(ev)
	}
	for i, a := range args {
		if i < len(ts) && kind == "call" && !readOnlyName(name) {
			e.havocArg(st, a, ts[i], name)
		}
	}
	// the standard library returns a usable object when it returns no error
	if n := len(ret); kind == "call" && n >= 2 && isErrorType(ret[n-1].Ty) && !strings.HasPrefix(name, "bbs") {
		for _, r := range ret[:n-1] {
			switch under(r.Ty).(type) {
			case *types.Pointer, *types.Interface:
				st.facts = st.facts.add(Ite(Eq(ret[n-1], Nil), Not(Eq(r, Nil)), True))
			}
		}
	}
	return one(st, ret...)
}

// stdPanic records what the functions of the standard library that panic on
// some arguments need.
func (e *Engine) stdPanic(fr *frame, in ssa.Instruction, name string, args []*Term, st *State) {
	at := func(i int) *Term {
		if i < len(args) {
			return args[i]
		}
		return Int(-1)
	}
	switch name {
	case "strings.Repeat", "bytes.Repeat":
		e.oblige(fr, in, "argument of "+name, And2(Ge0(at(1)), Ge0(Sub(Int(1<<31), at(1)))), st)
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "slices.Grow":
		e.oblige(fr, in, "argument of "+name, And2(Ge0(at(1)), Ge0(Sub(Int(1<<31), at(1)))), st)
	case "(*bytes.Buffer).Truncate":
		e.oblige(fr, in, "argument of "+name, Eq0(at(1)), st)
	case "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n":
		e.oblige(fr, in, "argument of "+name, Ge0(Sub(at(0), Int(1))), st)
	case "(*math/rand.Rand).Intn", "(*math/rand.Rand).Int31n", "(*math/rand.Rand).Int63n":
		e.oblige(fr, in, "argument of "+name, Ge0(Sub(at(1), Int(1))), st)
	case "time.NewTicker", "time.Tick":
		e.oblige(fr, in, "argument of "+name, Ge0(Sub(at(0), Int(1))), st)
	case "html/template.Must", "text/template.Must", "regexp.MustCompilePOSIX":
		e.oblige(fr, in, "argument of "+name, Bool(allConst(args)), st)
	}
	if strings.HasPrefix(name, "(reflect.") {
		e.oblige(fr, in, "call of "+name, False, st)
	}
}

func allConst(args []*Term) bool {
	for _, a := range args {
		if a.Op != "str" && !a.isInt() && a.Op != "nil" {
			return false
		}
	}
	return true
}

func readOnlyName(n string) bool {
	for _, s := range []string{".Write", "WriteFile", "WriteString", "WriteHeader", ".Println", ".Printf", "Fprint", "SignedString", "ParseEC"} {
		if strings.Contains(n, s) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- builtins

func (e *Engine) builtin(fr *frame, in ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, st *State) []Out {
	switch name {
	case "len":
		ty := c.Args[0].Type()
		switch u := under(ty).(type) {
		case *types.Slice:
			return one(st, e.sliceLen(args[0]))
		case *types.Map:
			return one(st, mk("len", types.Typ[types.Int], "", 0, e.mapContent(st, args[0])))
		case *types.Array:
			return one(st, Int(u.Len()))
		case *types.Pointer:
			return one(st, Int(under(u.Elem()).(*types.Array).Len()))
		}
		return one(st, SeqLen(args[0]))
	case "cap":
		if _, ok := under(c.Args[0].Type()).(*types.Slice); ok {
			return one(st, e.sliceCap(args[0]))
		}
	case "append":
		return one(st, e.appendTo(in, c, args, st))
	case "copy":
		el := under(c.Args[0].Type()).(*types.Slice).Elem()
		src := e.readSliceOrString(st, args[1], c.Args[1].Type(), el)
		var sl *Term
		if isString(c.Args[1].Type()) {
			sl = SeqLen(args[1])
		} else {
			sl = e.sliceLen(args[1])
		}
		dl := e.sliceLen(args[0])
		n := minTerm(sl, dl)
		if Prove(st.facts, Le(sl, dl)) {
			n = sl
		} else if Prove(st.facts, Le(dl, sl)) {
			n = dl
		}
		e.writeSliceN(st, args[0], src, sl, n, el)
		return one(st, n)
	case "delete":
		e.evCnt++
		st.push(&Event{ID: e.evCnt, Kind: "mapdel", Name: "delete", Args: args, Instr: in, Fn: fr.fn, Facts: st.facts, Stack: e.stackOf(fr)})
		return one(st)
	case "print", "println":
		return one(st)
	case "panic":
		e.oblige(fr, in, "explicit panic", False, st)
		return []Out{{kind: oPanic, st: st, guard: True, instr: in}}
	case "recover":
		return one(st, Nil)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = minTerm(r, a)
			} else {
				r = Ite(Le(r, a), a, r)
			}
		}
		return one(st, r)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "clear":
		return one(st)
	}
	switch c.Signature().Results().Len() {
	case 0:
		return one(st)
	case 1:
		return one(st, Fresh("builtin", c.Signature().Results().At(0).Type()))
	}
	unsupported("builtin %s", name)
	return nil
}

func (e *Engine) writeSliceN(st *State, dst, seq, sl, n *Term, el types.Type) {
	d := e.asSlice(dst, el)
	if d.Op == "slice" && n.isInt() && n.N <= 16384 && n == sl {
		// exactly n elements are written
		e.writeSlice(st, mk("slice", nil, "", 0, d.Args[0], d.Args[1], n, d.Args[3]), seq, n, el)
		return
	}
	if d.Op == "slice" && n == sl && !n.isInt() && !d.Args[2].isInt() {
		e.writeSlice(st, mk("slice", nil, "", 0, d.Args[0], d.Args[1], n, d.Args[3]), seq, n, el)
		return
	}
	e.writeSlice(st, dst, seq, sl, el)
}

func (e *Engine) readSliceOrString(st *State, t *Term, ty, el types.Type) *Term {
	if isString(ty) {
		return t
	}
	return e.readSlice(st, t, el)
}

func (e *Engine) appendTo(in ssa.Instruction, c *ssa.CallCommon, args []*Term, st *State) *Term {
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	if len(args) == 1 {
		return args[0]
	}
	base := e.readSlice(st, args[0], el)
	add := e.readSliceOrString(st, args[1], c.Args[1].Type(), el)
	bl := e.sliceLen(args[0])
	var al *Term
	if isString(c.Args[1].Type()) {
		al = SeqLen(args[1])
	} else {
		al = e.sliceLen(args[1])
	}
	n := Add(bl, al)
	var seq *Term
	if isByte(el) {
		seq = Cat(base, add)
	} else {
		seq = CatList(base, add)
	}
	k := int64(-1)
	if n.isInt() {
		k = n.N
	}
	o := e.newObj(el, true, k, seq, in)
	cp := n
	return mk("slice", nil, "", 0, refOf(o), Int(0), n, cp)
}
