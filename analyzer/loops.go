package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var noSummary = false

// loop evaluates the natural loop l entered with st (header phis applied).
func (e *Engine) loop(fr *frame, l *loop, st *State) []Out {
	mark := len(e.obls)
	if maySearch(l) {
		if outs := e.summarise(fr, l, st.clone(), true); outs != nil {
			return outs
		}
		e.obls = e.obls[:mark]
	}
	if outs, ok := e.unroll(fr, l, st.clone()); ok {
		return outs
	}
	e.obls = e.obls[:mark]
	return e.summarise(fr, l, st, false)
}

// maySearch says that l has the form of a search through a sequence: no
// effects, and two ways out.
func maySearch(l *loop) bool {
	ways, byteTest := 0, false
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] {
				ways++
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.IndexAddr, *ssa.If, *ssa.Jump, *ssa.Convert, *ssa.DebugRef:
			case *ssa.Index:
				byteTest = byteTest || isByte(x.Type())
			case *ssa.Lookup:
				byteTest = byteTest || !x.CommaOk && isByte(x.Type())
			case *ssa.UnOp:
				byteTest = byteTest || isByte(x.Type())
			case *ssa.BinOp:
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
	}
	return ways == 2 && byteTest
}

// headerExit evaluates the exit test in the header: whether it is decided.
func (e *Engine) headerTest(fr *frame, l *loop, st *State) (stay, known bool) {
	h := l.header
	t, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false, false
	}
	in0, in1 := l.body[h.Succs[0]], l.body[h.Succs[1]]
	if in0 == in1 {
		return false, false
	}
	s := st.clone()
	n := len(e.obls)
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				e.obls = e.obls[:n]
				return false, false
			}
			outs := e.call(fr, x, &x.Call, s)
			s = outs[0].st
			bindResult(s, x, outs[0].ret)
		default:
			e.instr(fr, in, s)
		}
	}
	e.obls = e.obls[:n]
	c := simp(e.val(s, t.Cond), s.facts)
	if b, ok := t.Cond.(*ssa.BinOp); ok && isIntType(b.X.Type()) {
		// a counted loop: the counter is a known number
		for _, v := range []ssa.Value{b.X, b.Y} {
			n := simp(e.val(s, v), s.facts)
			if _, ok := constInt(n); ok {
				continue
			}
			k, ok := pinned(s.facts, n)
			if !ok {
				return false, false
			}
			c = simp(subst(c, map[*Term]*Term{n: Int(k)}), s.facts)
		}
	}
	if c != True && c != False {
		return false, false
	}
	return (c == True) == in0, true
}

// pinned is the number the facts say n is.
func pinned(f *Facts, n *Term) (int64, bool) {
	if n.Op == "poly" {
		return 0, false
	}
	for ; f != nil; f = f.parent {
		if f.cond.Op != "eq0" {
			continue
		}
		l := linOf(f.cond.Args[0])
		if c := l.c[n]; l.ok && len(l.c) == 1 && (c == 1 || c == -1) {
			return -l.k * c, true
		}
	}
	return 0, false
}

func (e *Engine) unroll(fr *frame, l *loop, st *State) ([]Out, bool) {
	type item struct {
		st    *State
		guard *Term
	}
	work := []item{{st, True}}
	var exits []Out
	for n := 0; len(work) > 0; n++ {
		if n > 6000 {
			return nil, false
		}
		var next []item
		for _, w := range work {
			if n > 12 && treeSize(w.guard, 400) >= 400 {
				return nil, false // not a counted loop
			}
			_, known := e.headerTest(fr, l, w.st)
			if !known {
				return nil, false
			}
			outs := e.run(fr, l.header, 0, w.st, l, nil)
			for _, o := range outs {
				o.guard = And2(w.guard, o.guard)
				if o.kind == oJump && o.blk == l.header {
					next = append(next, item{o.st, o.guard})
				} else {
					exits = append(exits, o)
				}
			}
		}
		if len(next) > 40 || len(exits) > 400 {
			return nil, false
		}
		work = next
	}
	return e.mergeAll(exits), true
}

// treeSize is the number of nodes of a term written out, up to a limit.
func treeSize(t *Term, max int) int {
	n := 1
	for _, a := range t.Args {
		if n >= max {
			break
		}
		n += treeSize(a, max-n)
	}
	return n
}

type modKey struct {
	obj   int
	field int // -1: whole
}

// With only set, it gives up unless the loop is a search.
func (e *Engine) summarise(fr *frame, l *loop, entry *State, only bool) []Out {
	h := l.header
	freshCnt++
	lid := freshCnt
	iter := mk("iter", types.Typ[types.Int], "", lid)
	mark := len(e.objs)
	oblMark := len(e.obls)
	var ps []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ps = append(ps, p)
		}
	}
	inits := make([]*Term, len(ps))
	opaque := make([]*Term, len(ps))
	steps := make([]int64, len(ps)) // 0: not inductive
	failed := make([]bool, len(ps))
	adv := make([]int64, len(ps)) // bytes or elements a slice or string is cut by
	for i, p := range ps {
		inits[i] = entry.env[p]
		opaque[i] = mk("phi", p.Type(), p.Comment, lid*1000+int64(i))
	}
	mods := map[modKey]*Term{}
	var cands []*Term
	candSeen := map[*Term]bool{}
	dropped := map[*Term]bool{}
	var item *LoopItem
	var outs []Out
	vals := make([]*Term, len(ps))
	evSave := e.evCnt
	for pass := 0; ; pass++ {
		if pass > 14 {
			unsupported("loop in %s does not stabilise", fnKey(fr.fn))
		}
		e.obls = e.obls[:oblMark]
		e.evCnt = evSave
		item = &LoopItem{ID: int(lid), Header: h, Fn: fr.fn, Iter: iter, Facts: entry.facts, Fresh0: freshCnt}
		st := entry.clone()
		for i, p := range ps {
			switch {
			case steps[i] != 0 && !failed[i]:
				vals[i] = Add(inits[i], Scale(iter, steps[i]))
			case adv[i] > 0:
				vals[i] = e.advanced(inits[i], Scale(iter, adv[i]), p.Type())
			default:
				vals[i] = opaque[i]
			}
			st.env[p] = vals[i]
		}
		e.applyMods(st, entry, mods, lid)
		for _, c := range cands {
			if !dropped[c] {
				st.facts = st.facts.add(c)
			}
		}
		startFacts := st.facts
		assumed := len(cands)
		st.trace = &Trace{parent: entry.trace, item: item, depth: depthOf(entry.trace) + 1}
		startTrace := st.trace
		start := st.clone()
		outs = e.run(fr, h, 0, st, l, nil)
		changed := false
		var backs []Out
		for _, o := range outs {
			if o.kind == oJump && o.blk == h {
				backs = append(backs, o)
			}
		}
		// memory modifications
		for _, o := range backs {
			for id, v := range o.st.mem {
				ob := e.objs[id]
				if id >= mark && ob.key == nil && ob.glob == nil {
					continue
				}
				if ob.key != nil && id >= mark && e.iterKey(ob.key, lid) {
					continue
				}
				was := e.get(start, id)
				if sameMem(was, v) {
					continue
				}
				if e.addMods(mods, id, was, v, lid) {
					changed = true
				}
			}
		}
		// induction
		for i, p := range ps {
			if failed[i] || !isIntType(p.Type()) {
				continue
			}
			if steps[i] == 0 {
				var step int64
				ok := len(backs) > 0
				for k, o := range backs {
					d, c := constDiff(stripWrap(o.st.env[p]), vals[i])
					if !c || d == 0 || k > 0 && d != step {
						ok = false
						break
					}
					step = d
				}
				if ok {
					steps[i] = step
					changed = true
				} else {
					// maybe on a later pass, once other values settle
					if pass > 2 {
						failed[i] = true
					}
				}
				continue
			}
			want := Add(vals[i], Int(steps[i]))
			for _, o := range backs {
				got := o.st.env[p]
				if got != want && !(stripWrap(got) == want && Prove(o.st.facts, Eq0(Sub(got, want)))) {
					failed[i] = true
					changed = true
					break
				}
			}
		}
		for i, p := range ps {
			if adv[i] < 0 || isIntType(p.Type()) || len(backs) == 0 {
				continue
			}
			k := adv[i]
			for j, o := range backs {
				d := e.cutBy(o.st.env[p], vals[i], p.Type())
				if d == 0 || (j > 0 || adv[i] > 0) && d != k {
					k = 0
					break
				}
				k = d
			}
			if adv[i] > 0 && k == 0 {
				adv[i], changed = -1, true
			} else if adv[i] == 0 && k > 0 && pass < 4 {
				if l := e.advanced(inits[i], Scale(iter, k), p.Type()); l != nil {
					adv[i], changed = k, true
				}
			}
		}
		sat := map[*Facts]*Facts{}
		known := func(o Out) *Facts {
			f := o.st.facts
			if f == nil {
				return nil
			}
			if sat[f] == nil {
				sat[f] = nf(saturate(f))
			}
			return sat[f]
		}
		// monotone and limit candidates
		addCand := func(c *Term) {
			if c == True || c == False || candSeen[c] || len(cands) > 60 {
				return
			}
			candSeen[c] = true
			cands = append(cands, c)
			changed = true
		}
		mentions := func(t *Term) bool {
			hit := false
			walk(t, func(x *Term) bool {
				if x == iter || x.Op == "phi" && x.N/1000 == lid {
					hit = true
				}
				return !hit
			})
			return hit
		}
		for i, p := range ps {
			if vals[i] == opaque[i] && isIntType(p.Type()) && pass >= 1 {
				addCand(Ge0(Sub(opaque[i], inits[i])))
				addCand(Ge0(Sub(inits[i], opaque[i])))
			}
			if adv[i] > 0 && vals[i] != opaque[i] {
				if isString(p.Type()) {
					addCand(Ge0(Sub(SeqLen(inits[i]), Scale(iter, adv[i]))))
				} else {
					addCand(Ge0(e.sliceLen(vals[i])))
				}
			}
			if _, ok := under(p.Type()).(*types.Slice); ok && pass >= 1 && vals[i] == opaque[i] {
				addCand(Le(e.sliceLen(opaque[i]), e.sliceLen(inits[i])))
			}
			_ = p
		}
		if pass >= 1 && pass <= 4 {
			for _, o := range backs {
				for f := o.st.facts; f != nil && f != startFacts; f = f.parent {
					c := f.cond
					if c.Op == "ge0" && mentions(c) {
						for _, s := range stepSet(steps) {
							addCand(Ge0(Add(c.Args[0], Int(s))))
						}
					}
				}
			}
		}
		// what is known of the value a variable gets may hold of the variable
		if pass >= 1 && pass <= 4 {
			for i, p := range ps {
				if vals[i] != opaque[i] || !isIntType(p.Type()) {
					continue
				}
				for _, o := range backs {
					for _, n := range iteLeaves(o.st.env[p]) {
						if n.isInt() || n.Op == "poly" || n == opaque[i] {
							continue
						}
						for f := known(o); f != nil; f = f.parent {
							if c := f.cond; c.Op == "ge0" && containsTerm(c, n) {
								addCand(subst(c, map[*Term]*Term{n: opaque[i]}))
							}
						}
					}
				}
			}
		}
		// what was found satisfies what it was chosen for
		if pass >= 1 && pass <= 4 {
			for i, p := range ps {
				if vals[i] != opaque[i] || isIntType(p.Type()) || inits[i] != Nil && !inits[i].isInt() && inits[i].Op != "str" {
					continue
				}
				for _, o := range backs {
					for _, c := range chosenFor(o.st.env[p], opaque[i], known(o), startFacts) {
						if !containsTerm(c, iter) {
							addCand(Or2(Eq(opaque[i], inits[i]), c))
						}
					}
				}
			}
		}
		// check the candidates
		sub0 := map[*Term]*Term{}
		for i := range ps {
			if vals[i] == opaque[i] {
				sub0[opaque[i]] = inits[i]
			}
		}
		sub0[iter] = Int(0)
		for k, c := range cands {
			if dropped[c] || k >= assumed {
				continue // not assumed yet in this pass
			}
			good := !e.mentionsMods(c, mods) && Prove(entry.facts, subst(c, sub0))
			if good {
				for _, o := range backs {
					sn := map[*Term]*Term{iter: Add(iter, Int(1))}
					for i, p := range ps {
						if vals[i] == opaque[i] {
							sn[opaque[i]] = o.st.env[p]
						}
					}
					c1 := subst(c, sn)
					if !Prove(o.st.facts, c1) && !Prove(known(o), c1) && !(c.Op == "ite" && proveC(known(o), c1)) {
						good = false
						break
					}
				}
			}
			if !good {
				dropped[c] = true
				changed = true
			}
		}
		if changed {
			continue
		}
		// stable: record
		for i, p := range ps {
			item.Phis = append(item.Phis, LoopPhi{Instr: p, Init: inits[i], Val: vals[i], Exact: vals[i] != opaque[i]})
		}
		for _, k := range sortedMods(mods) {
			m := LoopMod{Obj: k.obj, Field: k.field, Val: mods[k]}
			if t, ok := e.get(entry, k.obj).(*Term); ok {
				m.Init = t
				if k.field >= 0 {
					f := structOf(e.objs[k.obj].ty).Field(k.field)
					m.Ty, m.Name = f.Type(), f.Name()
					m.Init = Fld(t, k.field, m.Ty, m.Name)
				}
			}
			item.Mod = append(item.Mod, m)
		}
		hasItems := false
		for _, o := range backs {
			it := LoopIter{Facts: o.st.facts, Items: items(o.st.trace, startTrace), Mem: map[int]any{}, St: o.st, Guard: o.guard}
			if len(it.Items) > 0 {
				hasItems = true
			}
			for _, p := range ps {
				it.Next = append(it.Next, o.st.env[p])
			}
			for k := range mods {
				it.Mem[k.obj] = e.get(o.st, k.obj)
			}
			item.Iters = append(item.Iters, it)
		}
		e.loops[lid] = item
		var exits []Out
		for _, o := range outs {
			if o.kind == oJump && o.blk == h {
				continue
			}
			item.Exits = append(item.Exits, LoopExit{Kind: o.kind, Ret: o.ret, Facts: o.st.facts, Items: items(o.st.trace, startTrace), St: o.st.clone()})
			if !hasItems && o.st.trace == startTrace {
				o.st.trace = entry.trace
			}
			exits = append(exits, o)
		}
		if r := e.searchLoop(item, ps, inits, vals, iter, startFacts, exits, mods, backs); r != nil {
			return r
		}
		if only {
			return nil
		}
		// guards of the exits
		rest := True
		for i := range exits {
			if i == len(exits)-1 {
				exits[i].guard = rest
				break
			}
			a := mk("lexit", types.Typ[types.Bool], "", lid*1000+int64(i))
			exits[i].guard = And2(rest, a)
			rest = And2(rest, Not(a))
		}
		for i := range exits {
			item.Exits[i].Guard = exits[i].guard
		}
		for i := range exits {
			e.fixTrip(&exits[i], iter)
		}
		return e.mergeAll(exits)
	}
}

// fixTrip substitutes the iteration count at an exit when it is determined.
func (e *Engine) fixTrip(o *Out, iter *Term) {
	// looks for p >= 0 facts with iter coefficient +-1 that pin it
	var lows []*Term
	for f := o.st.facts; f != nil; f = f.parent {
		if f.cond.Op == "ge0" {
			l := linOf(f.cond.Args[0])
			if l.c[iter] == 1 {
				lows = append(lows, Sub(iter, f.cond.Args[0])) // iter >= this
			}
		}
		if f.cond.Op == "eq0" {
			l := linOf(f.cond.Args[0])
			if c := l.c[iter]; c == 1 || c == -1 {
				v := Sub(iter, Scale(f.cond.Args[0], c))
				if !containsTerm(v, iter) {
					e.substState(o, map[*Term]*Term{iter: v})
					return
				}
			}
		}
	}
	for _, v := range lows {
		if containsTerm(v, iter) {
			continue
		}
		if linProve(o.st.facts, Sub(v, iter), 0) {
			e.substState(o, map[*Term]*Term{iter: v})
			return
		}
	}
}

func (e *Engine) substState(o *Out, m map[*Term]*Term) {
	st := o.st.clone()
	for k, v := range st.env {
		st.env[k] = subst(v, m)
	}
	for k, v := range st.mem {
		switch x := v.(type) {
		case *Term:
			st.mem[k] = subst(x, m)
		case *ArrV:
			n := &ArrV{owner: -1, base: subst(x.base, m), cells: map[int64]*Term{}}
			for i, c := range x.cells {
				n.cells[i] = subst(c, m)
			}
			st.mem[k] = n
		}
	}
	// keep the shared prefix where nothing changed
	nf := unchangedPrefix(o.st.facts, m)
	l := o.st.facts.list()
	d := 0
	if nf != nil {
		d = nf.depth
	}
	for i := len(l) - 1 - d; i >= 0; i-- {
		c := subst(l[i], m)
		if c == False || c != l[i] && treeSize(c, 60) < 60 && Prove(nil, c) {
			continue
		}
		nf = nf.add(c)
	}
	st.facts = nf
	for i := range st.defers {
		for j := range st.defers[i].args {
			st.defers[i].args[j] = subst(st.defers[i].args[j], m)
		}
	}
	o.st = st
	rs := make([]*Term, len(o.ret))
	for i := range o.ret {
		rs[i] = subst(o.ret[i], m)
	}
	o.ret = rs
}

func unchangedPrefix(f *Facts, m map[*Term]*Term) *Facts {
	l := f.list()
	var chain []*Facts
	for g := f; g != nil; g = g.parent {
		chain = append(chain, g)
	}
	var last *Facts
	for i := len(l) - 1; i >= 0; i-- {
		hit := false
		for k := range m {
			if containsTerm(l[i], k) {
				hit = true
			}
		}
		if hit {
			break
		}
		last = chain[i]
	}
	return last
}

// searchLoop recognises "advance until byte i of x equals k or the end", the
// open-coded form of bytes.IndexByte.
func (e *Engine) searchLoop(item *LoopItem, ps []*ssa.Phi, inits, vals []*Term, iter *Term, start *Facts, exits []Out, mods map[modKey]*Term, backs []Out) []Out {
	if len(exits) == 0 || len(exits) > 2 || len(mods) > 0 || len(item.Iters) != 1 || len(item.Iters[0].Items) > 0 {
		return nil
	}
	for i, p := range ps {
		if vals[i].Op == "phi" && p != nil {
			return nil
		}
	}
	if len(ps) == 0 {
		return nil
	}
	newFacts := func(o Out) []*Term {
		var r []*Term
		for f := o.st.facts; f != nil && f != start; f = f.parent {
			r = append(r, f.cond)
		}
		return r
	}
	if len(exits) == 1 {
		// both ends of the search lead to the same place
		o := exits[0]
		for _, c := range newFacts(o) {
			if c.Op != "ite" || c.Args[0].Op != "ge0" || c.Args[1].Op != "eq0" || c.Args[2] != True {
				continue
			}
			if l := linOf(c.Args[0].Args[0]); l.c[iter] != -1 {
				continue
			}
			n := Add(Add(c.Args[0].Args[0], iter), Int(1))
			x, off, b := soughtByte(c.Args[1], iter)
			if x == nil || containsTerm(n, iter) || !Prove(start, Ge0(n)) {
				continue
			}
			seq := SubSeq(x, off, n)
			found := mk("idx", nil, "byte", 0, seq, b)
			if b.isInt() {
				found = Idx(seq, b)
			}
			m := map[*Term]*Term{iter: Ite(Ge0(found), found, n)}
			for _, d := range newFacts(o) {
				m[d] = True // what the search result says already
			}
			e.substState(&o, m)
			o.guard = True
			return []Out{o}
		}
		return nil
	}
	for k := 0; k < 2; k++ {
		end, hit := exits[k], exits[1-k]
		var off, x, b *Term
		for _, c := range newFacts(hit) {
			if y, o, v := soughtByte(c, iter); y != nil {
				x, off, b = y, o, v
			}
		}
		if x == nil {
			continue
		}
		// trip limit at the other exit
		o := end
		e.fixTrip(&o, iter)
		n := (*Term)(nil)
		for _, c := range newFacts(end) {
			if c.Op == "ge0" {
				if l := linOf(c.Args[0]); l.c[iter] == 1 {
					n = Sub(iter, c.Args[0])
				}
			}
		}
		if n == nil || containsTerm(n, iter) {
			continue
		}
		seq := SubSeq(x, off, n)
		found := mk("idx", nil, "byte", 0, seq, b)
		if b.isInt() {
			found = Idx(seq, b)
		}
		h := hit
		m := map[*Term]*Term{iter: found}
		for _, d := range newFacts(h) {
			m[d] = True // what the search result says already
		}
		e.substState(&h, m)
		g := Ge0(found)
		h.guard = g
		o.guard = Not(g)
		h.st.facts = h.st.facts.add(g)
		o.st.facts = o.st.facts.add(o.guard)
		return e.mergeAll([]Out{h, o})
	}
	return nil
}

// soughtByte reads the condition "byte off+iter of x is b".
func soughtByte(c, iter *Term) (x, off, b *Term) {
	if c.Op != "eq0" {
		return nil, nil, nil
	}
	for _, m := range monos(c.Args[0]) {
		if len(m.vars) == 1 && m.vars[0].Op == "at" && (m.c == 1 || m.c == -1) {
			v := Sub(m.vars[0], Scale(c.Args[0], m.c))
			if v.isInt() || !containsTerm(v, iter) {
				x, off, b = m.vars[0].Args[0], Sub(m.vars[0].Args[1], iter), v
			}
		}
	}
	if x == nil || containsTerm(x, iter) || containsTerm(off, iter) {
		return nil, nil, nil
	}
	return x, off, b
}

// Idx is the position of the first byte b in x, or -1.
func Idx(x, b *Term) *Term {
	if x.Op == "str" && b.isInt() {
		for i := 0; i < len(x.S); i++ {
			if int64(x.S[i]) == b.N {
				return Int(int64(i))
			}
		}
		return Int(-1)
	}
	if x.Op == "cat" && b.isInt() {
		// a known part has the byte: it is there or in what is before
		for i, p := range x.Args {
			if p.Op != "str" {
				continue
			}
			if k := strings.IndexByte(p.S, byte(b.N)); k >= 0 {
				at := Int(int64(k))
				for j := i - 1; j >= 0; j-- {
					q := Idx(x.Args[j], b)
					at = Ite(Ge0(q), q, Add(SeqLen(x.Args[j]), at))
				}
				return at
			}
		}
	}
	return mk("idx", nil, "byte", 0, x, b)
}

func stepSet(steps []int64) []int64 {
	m := map[int64]bool{1: true, 0: true}
	for _, s := range steps {
		if s != 0 {
			m[abs64(s)] = true
		}
	}
	var r []int64
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func stripWrap(t *Term) *Term {
	if t.Op == "wrap" {
		return t.Args[0]
	}
	return t
}

func depthOf(t *Trace) int {
	if t == nil {
		return 0
	}
	return t.depth
}

func sameMem(a, b any) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.base != y.base || len(x.cells) != len(y.cells) {
			return false
		}
		for k, v := range x.cells {
			if y.cells[k] != v {
				return false
			}
		}
		return true
	}
	return false
}

func sortedMods(m map[modKey]*Term) []modKey {
	var ks []modKey
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].obj != ks[j].obj {
			return ks[i].obj < ks[j].obj
		}
		return ks[i].field < ks[j].field
	})
	return ks
}

func (e *Engine) addMods(mods map[modKey]*Term, id int, was, now any, lid int64) bool {
	o := e.objs[id]
	ch := false
	add := func(k modKey, ty types.Type, name string, args ...*Term) {
		if mods[k] == nil {
			freshCnt++
			mods[k] = mk("lmem", ty, name, freshCnt, args...)
			ch = true
		}
	}
	if w, ok := was.(*Term); ok {
		n := now.(*Term)
		s := structOf(o.ty)
		if s != nil && mods[modKey{id, -1}] == nil {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if Fld(w, i, f.Type(), f.Name()) != Fld(n, i, f.Type(), f.Name()) {
					add(modKey{id, i}, f.Type(), f.Name())
				}
			}
			return ch
		}
		add(modKey{id, -1}, o.ty, "")
		return ch
	}
	a := was.(*ArrV)
	n := SeqLen(a.base)
	if !isByte(o.ty) {
		n = ListLen(a.base)
	}
	if b, ok := now.(*ArrV); ok {
		m := SeqLen(b.base)
		if !isByte(o.ty) {
			m = ListLen(b.base)
		}
		_ = m
	}
	add(modKey{id, -1}, nil, "arr", n)
	return ch
}

func (e *Engine) applyMods(st, entry *State, mods map[modKey]*Term, lid int64) {
	for _, k := range sortedMods(mods) {
		o := e.objs[k.obj]
		cur := e.get(st, k.obj)
		if _, ok := cur.(*ArrV); ok {
			st.mem[k.obj] = &ArrV{owner: st.id, base: mods[k], cells: map[int64]*Term{}}
			continue
		}
		if k.field < 0 {
			st.mem[k.obj] = mods[k]
			continue
		}
		s := structOf(o.ty)
		st.mem[k.obj] = setPath(cur.(*Term), o.ty, []*Term{mk("f", nil, s.Field(k.field).Name(), int64(k.field))}, mods[k])
	}
}

func (e *Engine) mentionsMods(c *Term, mods map[modKey]*Term) bool {
	for _, m := range mods {
		if containsTerm(c, m) {
			return true
		}
	}
	return false
}

// iterKey: the pointer depends on values of this loop.
func (e *Engine) iterKey(t *Term, lid int64) bool {
	hit := false
	walk(t, func(x *Term) bool {
		if x.Op == "iter" && x.N == lid || x.Op == "phi" && x.N/1000 == lid {
			hit = true
		}
		return !hit
	})
	return hit
}

// subst replaces terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := rebuild(t, rec)
		memo[t] = r
		return r
	}
	return rec(t)
}

// iteLeaves lists the values a conditional can have.
func iteLeaves(t *Term) []*Term {
	if t.Op == "ite" {
		return append(iteLeaves(t.Args[1]), iteLeaves(t.Args[2])...)
	}
	return []*Term{t}
}

// chosenFor lists what is known of the values v can have other than old, said of old.
func chosenFor(v, old *Term, f, start *Facts) []*Term {
	var r []*Term
	var leaves func(t *Term, conds []*Term)
	leaves = func(t *Term, conds []*Term) {
		if t.Op == "ite" {
			leaves(t.Args[1], append(conds[:len(conds):len(conds)], t.Args[0]))
			leaves(t.Args[2], append(conds[:len(conds):len(conds)], Not(t.Args[0])))
			return
		}
		if t == old || t == Nil || t.isInt() || t.Op == "str" {
			return
		}
		for g := f; g != nil && g != start; g = g.parent {
			conds = append(conds, g.cond)
		}
		for _, c := range conds {
			if containsTerm(c, t) && treeSize(c, 60) < 60 {
				r = append(r, subst(c, map[*Term]*Term{t: old}))
			}
		}
	}
	leaves(v, nil)
	return r
}

// advanced is a slice or string without its first n elements, nil if that is
// not known in advance.
func (e *Engine) advanced(x, n *Term, t types.Type) *Term {
	if isString(t) {
		if x.Op == "ite" {
			return nil
		}
		return SubSeq(x, n, Sub(SeqLen(x), n))
	}
	sl, ok := under(t).(*types.Slice)
	if !ok {
		return nil
	}
	s := e.asSlice(x, sl.Elem())
	if s.Op != "slice" {
		return nil
	}
	return mk("slice", nil, "", 0, s.Args[0], Add(s.Args[1], n), Sub(s.Args[2], n), Sub(s.Args[3], n))
}

// cutBy says by how many elements next is shorter than x at its beginning.
func (e *Engine) cutBy(next, x *Term, t types.Type) int64 {
	if next == nil || next == x {
		return 0
	}
	if isString(t) {
		d := Sub(SeqLen(x), SeqLen(next))
		if d.isInt() && d.N > 0 && next == SubSeq(x, d, SeqLen(next)) {
			return d.N
		}
		return 0
	}
	sl, ok := under(t).(*types.Slice)
	if !ok {
		return 0
	}
	a, b := e.asSlice(next, sl.Elem()), e.asSlice(x, sl.Elem())
	if a.Op != "slice" || b.Op != "slice" || a.Args[0] != b.Args[0] {
		return 0
	}
	d := Sub(a.Args[1], b.Args[1])
	if d.isInt() && d.N > 0 && Sub(b.Args[2], a.Args[2]) == d && Sub(b.Args[3], a.Args[3]) == d {
		return d.N
	}
	return 0
}
