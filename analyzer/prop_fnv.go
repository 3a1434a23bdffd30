package main

import (
	"go/constant"
	"go/token"
	"go/types"
)

// C48: the hash of names starts where it is told to.

const (
	ruleFnvState = "the hash starts from the given value"
	ruleFnvInit  = "the start value is the one of PTT"
)

func checkFnv(c *Check) {
	fn := c.need("pttbbs/internal/fnv", "New32aWith")
	if fn == nil {
		return
	}
	key := fnKey(fn)
	e := c.engine()
	// the hashes of the standard library can store and restore their state
	e.nonNil = func(t *Term) bool { return t.Op == "res" }
	args := params(fn)
	outs, ok := c.eval(e, fn, args, newState())
	if !ok {
		return
	}
	n := 0
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		var made, state, set *Event
		others := 0
		for _, pe := range eventsOf(o) {
			ev := pe.ev
			switch {
			case ev.Name == "hash/fnv.New32a":
				made = ev
			case methodOf(ev) == "MarshalBinary" || methodOf(ev) == "AppendBinary":
				state = ev
			case methodOf(ev) == "UnmarshalBinary":
				c.ob(set == nil && pe.loop == 0, ruleFnvState, key+": once", ev.Instr.Pos(), "the state is set more than once")
				set = ev
			default:
				others++
			}
		}
		f := o.st.facts
		n++
		if !c.ob(made != nil && set != nil && others == 0, ruleFnvState, key+": made", fnPos(fn), "the hash is not an FNV-1a hash of 32 bits whose state is set once") {
			continue
		}
		h := simp(o.ret[0], f)
		c.ob(eqT(f, unboxed(h), made.Res[0]) && eqT(f, unboxed(set.Args[0]), made.Res[0]), ruleFnvState, key+": returned", fnPos(fn), "%v is returned, the state set is that of %v", h, set.Args[0])
		b := Content(set.Args[1])
		if set.Content[1] != nil {
			b = set.Content[1]
		}
		b = simp(b, f)
		for i := 0; i < 4; i++ {
			got := simp(At(b, Int(int64(4+i))), f)
			c.ob(eqT(f, got, ByteOf(args[0], 3-i)), ruleFnvState, key+": byte of the value", set.Instr.Pos(), "byte %d of the state is %s", 4+i, clip(got.String(), 120))
			got = simp(At(b, Int(int64(i))), f)
			same := got == Int(int64("fnv\x02"[i]))
			if !same && state != nil && eqT(f, unboxed(state.Args[0]), made.Res[0]) {
				same = eqT(f, got, At(Content(state.Res[0]), Int(int64(i)))) || eqT(f, got, At(state.Res[0], Int(int64(i))))
			}
			c.ob(same, ruleFnvState, key+": the kind of hash", set.Instr.Pos(), "byte %d of the state is %s", i, clip(got.String(), 120))
		}
		l := SeqLen(b)
		c.ob(proveC(f, Eq(l, Int(8))) || state != nil && (eqT(f, l, SeqLen(state.Res[0])) || eqT(f, l, SeqLen(Content(state.Res[0])))), ruleFnvState, key+": size of the state", set.Instr.Pos(), "the state has %v bytes", l)
	}
	c.ob(n > 0, "coverage", key, fnPos(fn), "no outcome")
	var init *types.Const
	if k, ok := fn.Pkg.Pkg.Scope().Lookup("PttFnv32Init").(*types.Const); ok {
		init = k
	}
	c.ob(init != nil && constant.Compare(constant.ToInt(init.Val()), token.EQL, constant.MakeInt64(33554467)), ruleFnvInit, "PttFnv32Init", fnPos(fn), "the start value is %v", init)
}

func init() {
	checks["C48"] = checkDef{run: checkFnv, min: 7, rule: "value-graph of New32aWith: the state given to the FNV-1a hash returned, byte by byte, against the layout of the stored state; the constant against the PTT header"}
}
