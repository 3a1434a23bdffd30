package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract interpreter. It computes, per function and calling context,
// the gated value graph of every register and memory cell (joins become
// gates, loops are summarised by induction values and havocked memory), the
// conditions known at every point, and the sequence of effects reaching every
// exit. Paths are joined at post-dominators; only states whose effect
// histories differ are kept apart (property simulation).

type outKind int

const (
	oJump outKind = iota
	oRet
	oPanic
)

type Out struct {
	kind  outKind
	blk   *ssa.BasicBlock
	st    *State
	ret   []*Term
	guard *Term
	instr ssa.Instruction // panic or return site
}

type frame struct {
	fn     *ssa.Function
	cfg    *cfg
	caller *frame
	call   ssa.Instruction
	depth  int
}

type Obl struct {
	Instr  ssa.Instruction
	Kind   string
	Fn     *ssa.Function
	Ok     bool
	Detail string
	Cond   *Term // what is not shown to hold
	Stack  []ssa.Instruction
}

type Engine struct {
	P        *Program
	objs     []*Obj
	byKey    map[*Term]*Obj
	globals  map[*ssa.Global]*Obj
	gmem     map[int]any
	cfgs     map[*ssa.Function]*cfg
	loops    map[int64]*LoopItem
	clos     map[int64]*closure
	obls     []Obl
	evCnt    int
	steps    int
	maxStep  int
	maxDep   int
	visible  map[string]bool            // calls of no effect that are events nevertheless
	opaque   map[string]bool            // functions not inlined (by fnKey): treated as events
	contract map[string]func(*cc) []Out // functions replaced by their contract, which is decided separately
	nonNil   func(t *Term) bool
	recArgs  bool // inner calls of a recursive function need their pointers
	initing  map[*ssa.Package]bool
	inited   map[*ssa.Package]bool
	mutGlob  map[*ssa.Global]bool
	Visited  map[*ssa.Function]bool
	onEvent  func(*Event)
	Unknown  map[string]int // external callees modelled by default as events
}

type closure struct {
	fn   *ssa.Function
	bind []*Term
}

func NewEngine(p *Program) *Engine {
	e := &Engine{P: p, byKey: map[*Term]*Obj{}, globals: map[*ssa.Global]*Obj{}, gmem: map[int]any{}, cfgs: map[*ssa.Function]*cfg{},
		loops: map[int64]*LoopItem{}, clos: map[int64]*closure{}, maxStep: 30_000_000, maxDep: 40, opaque: map[string]bool{}, contract: map[string]func(*cc) []Out{},
		initing: map[*ssa.Package]bool{}, inited: map[*ssa.Package]bool{}, Visited: map[*ssa.Function]bool{}, Unknown: map[string]int{}}
	e.objs = append(e.objs, nil)
	e.mutGlob = map[*ssa.Global]bool{}
	for _, fn := range p.Funcs {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
						if !addrWritten(in.(ssa.Value), 0) {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					e.mutGlob[g] = true
				}
			}
		}
	}
	for g := range p.writtenGlobals() {
		e.mutGlob[g] = true
	}
	return e
}

// writtenGlobals lists the reference-typed variables whose content is changed
// after start-up (maps, slices and what pointers lead to).
func (p *Program) writtenGlobals() map[*ssa.Global]bool {
	if p.written != nil {
		return p.written
	}
	p.written = map[*ssa.Global]bool{}
	r := newRefFlow(p)
	ini := r.initOnly()
	for _, sp := range p.ByPkg {
		for n, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(n, "init$") {
				continue
			}
			gt := g.Type().Underlying().(*types.Pointer).Elem()
			if !refType(gt) || safeType(gt) {
				continue
			}
			if _, isI := gt.Underlying().(*types.Interface); isI {
				continue
			}
			for _, a := range r.globalAccesses(g) {
				if a.write && !ini[a.fn] {
					p.written[g] = true
				}
			}
		}
	}
	return p.written
}

// addrWritten: some use of the address may write through it.
func addrWritten(v ssa.Value, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if addrWritten(x, d+1) {
				return true
			}
		case *ssa.FieldAddr:
			if addrWritten(x, d+1) {
				return true
			}
		case *ssa.Slice:
			// slices of package tables: passing them on is taken as reading when only indexed
			if addrWritten(x, d+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

func (e *Engine) cfgOf(fn *ssa.Function) *cfg {
	c := e.cfgs[fn]
	if c == nil {
		c = buildCFG(fn)
		e.cfgs[fn] = c
	}
	return c
}

// Call evaluates fn on the given arguments from a state.
func (e *Engine) Call(fn *ssa.Function, args []*Term, st *State) (outs []Out, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(engineErr); ok {
				err = x
				return
			}
			panic(r)
		}
	}()
	return e.enter(nil, nil, fn, args, nil, st), nil
}

func (e *Engine) enter(caller *frame, call ssa.Instruction, fn *ssa.Function, args, bind []*Term, st *State) []Out {
	fr := &frame{fn: fn, cfg: e.cfgOf(fn), caller: caller, call: call}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > e.maxDep {
		unsupported("call depth at %s", fnKey(fn))
	}
	if fr.cfg.irred {
		unsupported("irreducible control flow in %s", fnKey(fn))
	}
	e.Visited[fn] = true
	saveEnv, saveDef := st.env, st.defers
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		st.env[b] = bind[i]
	}
	outs := e.run(fr, fn.Blocks[0], 0, st, nil, nil)
	outs = e.mergeAll(outs)
	for i := range outs {
		outs[i].st.env = cloneEnv(saveEnv)
		outs[i].st.defers = append([]deferred{}, saveDef...)
	}
	return outs
}

func And2(a, b *Term) *Term { return Ite(a, b, False) }
func Or2(a, b *Term) *Term  { return Ite(a, True, b) }

func sameDefers(a, b []deferred) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].instr != b[i].instr || a[i].fn != b[i].fn || len(a[i].args) != len(b[i].args) {
			return false
		}
		for j := range a[i].args {
			if a[i].args[j] != b[i].args[j] {
				return false
			}
		}
	}
	return true
}

func mergeable(a, b Out) bool {
	if a.kind != b.kind || a.blk != b.blk || a.st.trace != b.st.trace || !sameDefers(a.st.defers, b.st.defers) {
		return false
	}
	if a.kind == oPanic && a.instr != b.instr {
		return false
	}
	return true
}

// mergeTwo joins a (when gate) with b (otherwise).
func (e *Engine) mergeTwo(gate *Term, a, b Out, guard *Term, mark int) Out {
	m := a.st.clone()
	common := commonFacts(a.st.facts, b.st.facts)
	// disjunctive fact
	fa, fb := True, True
	for f := a.st.facts; f != common; f = f.parent {
		if f.cond != gate {
			fa = And2(f.cond, fa)
		}
	}
	ng := Not(gate)
	for f := b.st.facts; f != common; f = f.parent {
		if f.cond != ng {
			fb = And2(f.cond, fb)
		}
	}
	m.facts = common
	if d := Ite(gate, fa, fb); d != True && d.Op != "undef" && termSize(d) < 400 {
		m.facts = m.facts.add(d)
	}
	for k, v := range a.st.env {
		w, ok := b.st.env[k]
		if !ok {
			delete(m.env, k)
			continue
		}
		if v != w {
			m.env[k] = Ite(gate, v, w)
		}
	}
	for k, v := range a.st.mem {
		w, ok := b.st.mem[k]
		if !ok {
			if !e.older(k, mark) {
				continue
			}
			w = e.get(b.st, k)
		}
		if v != w {
			m.mem[k] = mergeMem(gate, v, w, m.id)
		}
	}
	for k, w := range b.st.mem {
		if _, ok := a.st.mem[k]; !ok {
			m.mem[k] = w
			if e.older(k, mark) {
				m.mem[k] = mergeMem(gate, e.get(a.st, k), w, m.id)
			}
		}
	}
	o := a
	o.st = m
	o.guard = guard
	if a.kind == oRet {
		o.ret = make([]*Term, len(a.ret))
		for i := range a.ret {
			o.ret[i] = Ite(gate, a.ret[i], b.ret[i])
		}
	}
	return o
}

// older tells whether an object existed before the branch (it then holds its
// initial value on the side that did not touch it).
func (e *Engine) older(id, mark int) bool { return id < mark || !e.objs[id].local }

func mergeMem(gate *Term, a, b any, owner int) any {
	if x, ok := a.(*Term); ok {
		return Ite(gate, x, b.(*Term))
	}
	x, y := a.(*ArrV), b.(*ArrV)
	r := &ArrV{owner: owner, cells: map[int64]*Term{}}
	if x.base != y.base {
		r.base = Ite(gate, x.base, y.base)
	} else {
		r.base = x.base
	}
	elem := func(a *ArrV, k int64, like *Term) *Term {
		if v, ok := a.cells[k]; ok {
			return v
		}
		if seqLike(a.base) && (like.Ty == nil || isIntType(like.Ty)) && a.base.Op != "zeros" {
			return At(a.base, Int(k))
		}
		if a.base.Op == "zeros" {
			if like.Ty == nil || isIntType(like.Ty) {
				return Int(0)
			}
			return zeroOf(like.Ty)
		}
		return ElemAt(a.base, Int(k), like.Ty)
	}
	for k, v := range x.cells {
		w := elem(y, k, v)
		r.cells[k] = Ite(gate, v, w)
	}
	for k, w := range y.cells {
		if _, ok := x.cells[k]; !ok {
			r.cells[k] = Ite(gate, elem(x, k, w), w)
		}
	}
	return r
}

var sizeMemo = map[*Term]int{}

func termSize(t *Term) int {
	if n, ok := sizeMemo[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.Args {
		n += termSize(a)
		if n > 100000 {
			n = 100000
			break
		}
	}
	sizeMemo[t] = n
	return n
}

// merge2 joins the outcomes of the two arms of a branch on c.
func (e *Engine) merge2(c *Term, T, F []Out, mark int) []Out {
	var out []Out
	used := make([]bool, len(F))
	for _, t := range T {
		done := false
		for j, f := range F {
			if !used[j] && mergeable(t, f) {
				used[j] = true
				out = append(out, e.mergeTwo(c, t, f, Ite(c, t.guard, f.guard), mark))
				done = true
				break
			}
		}
		if !done {
			t.guard = And2(c, t.guard)
			out = append(out, t)
		}
	}
	for j, f := range F {
		if !used[j] {
			f.guard = And2(Not(c), f.guard)
			out = append(out, f)
		}
	}
	return out
}

// mergeAll joins outcomes of one region that reach the same point with the same history.
func (e *Engine) mergeAll(outs []Out) []Out {
	var res []Out
	for _, o := range outs {
		done := false
		for i := range res {
			if mergeable(res[i], o) {
				res[i] = e.mergeTwo(res[i].guard, res[i], o, Or2(res[i].guard, o.guard), len(e.objs))
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

func withGuard(g *Term, outs []Out) []Out {
	if g == True {
		return outs
	}
	for i := range outs {
		outs[i].guard = And2(g, outs[i].guard)
	}
	return outs
}

func (e *Engine) phis(from, to *ssa.BasicBlock, st *State) {
	var vals []*Term
	var ps []*ssa.Phi
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, simp(e.val(st, p.Edges[idx]), st.facts))
	}
	for i, p := range ps {
		st.env[p] = vals[i]
	}
}

// arrive continues at block b (its phis are already applied).
func (e *Engine) arrive(fr *frame, b *ssa.BasicBlock, st *State, lp *loop, stop *ssa.BasicBlock) []Out {
	if lp != nil && (b == lp.header || !lp.body[b]) || b == stop {
		return []Out{{kind: oJump, blk: b, st: st, guard: True}}
	}
	if l := fr.cfg.loops[b]; l != nil && l != lp {
		outs := e.loop(fr, l, st)
		pd := fr.cfg.ipdom(lp, b)
		var tmp, done []Out
		jumps := 0
		for _, o := range outs {
			if o.kind == oJump {
				jumps++
			}
		}
		for _, o := range outs {
			if o.kind != oJump {
				done = append(done, o)
				continue
			}
			to := pd
			if jumps == 1 {
				to = stop
			}
			tmp = append(tmp, withGuard(o.guard, e.arrive(fr, o.blk, o.st, lp, to))...)
		}
		if jumps <= 1 {
			return append(done, tmp...)
		}
		return e.resume(fr, append(done, e.mergeAll(tmp)...), pd, lp, stop)
	}
	return e.run(fr, b, 0, st, lp, stop)
}

// resume continues outcomes that stopped at pd towards stop.
func (e *Engine) resume(fr *frame, outs []Out, pd *ssa.BasicBlock, lp *loop, stop *ssa.BasicBlock) []Out {
	if pd == nil || pd == stop {
		return outs
	}
	var res []Out
	for _, o := range outs {
		if o.kind == oJump && o.blk == pd {
			res = append(res, withGuard(o.guard, e.arrive(fr, pd, o.st, lp, stop))...)
		} else {
			res = append(res, o)
		}
	}
	return res
}

func (e *Engine) run(fr *frame, b *ssa.BasicBlock, idx int, st *State, lp *loop, stop *ssa.BasicBlock) []Out {
	for {
		if idx == 0 {
			for idx < len(b.Instrs) {
				if _, ok := b.Instrs[idx].(*ssa.Phi); !ok {
					break
				}
				idx++
			}
		}
		for ; idx < len(b.Instrs)-1; idx++ {
			in := b.Instrs[idx]
			e.steps++
			if e.steps > e.maxStep {
				unsupported("analysis budget exhausted in %s", fnKey(fr.fn))
			}
			var outs []Out
			switch x := in.(type) {
			case *ssa.Call:
				outs = e.call(fr, x, &x.Call, st)
				for i := range outs {
					if outs[i].kind == oRet {
						bindResult(outs[i].st, x, outs[i].ret)
					}
				}
			case *ssa.RunDefers:
				outs = e.runDefers(fr, st)
			default:
				e.instr(fr, in, st)
				continue
			}
			if len(outs) == 1 && outs[0].kind == oRet && outs[0].guard == True {
				st = outs[0].st
				continue
			}
			var res []Out
			for _, o := range outs {
				if o.kind != oRet {
					res = append(res, o)
					continue
				}
				// the guard is known on this continuation
				res = append(res, withGuard(o.guard, e.run(fr, b, idx+1, o.st, lp, stop))...)
			}
			return res
		}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Jump:
			to := b.Succs[0]
			e.phis(b, to, st)
			if e.simpleTarget(fr, to, lp, stop) {
				b, idx = to, 0
				continue
			}
			return e.arrive(fr, to, st, lp, stop)
		case *ssa.If:
			c := simp(e.val(st, t.Cond), st.facts)
			switch {
			case c == True || c != False && Prove(st.facts, c):
				c = True
			case c == False || Prove(st.facts, Not(c)):
				c = False
			}
			if c == True || c == False {
				to := b.Succs[0]
				if c == False {
					to = b.Succs[1]
				}
				e.phis(b, to, st)
				if e.simpleTarget(fr, to, lp, stop) {
					b, idx = to, 0
					continue
				}
				return e.arrive(fr, to, st, lp, stop)
			}
			pd := fr.cfg.ipdom(lp, b)
			mark := len(e.objs)
			s2 := st.clone()
			st.facts = st.facts.add(c)
			s2.facts = s2.facts.add(Not(c))
			e.phis(b, b.Succs[0], st)
			var T, F []Out
			T = e.arrive(fr, b.Succs[0], st, lp, pd)
			e.phis(b, b.Succs[1], s2)
			F = e.arrive(fr, b.Succs[1], s2, lp, pd)
			return e.resume(fr, e.merge2(c, T, F, mark), pd, lp, stop)
		case *ssa.Return:
			var rs []*Term
			for _, r := range t.Results {
				rs = append(rs, simp(e.val(st, r), st.facts))
			}
			return []Out{{kind: oRet, st: st, ret: rs, guard: True, instr: t}}
		case *ssa.Panic:
			e.oblige(fr, t, "explicit panic", False, st)
			return []Out{{kind: oPanic, st: st, guard: True, instr: t, ret: []*Term{e.val(st, t.X)}}}
		default:
			unsupported("terminator %T", t)
		}
	}
}

func (e *Engine) simpleTarget(fr *frame, to *ssa.BasicBlock, lp *loop, stop *ssa.BasicBlock) bool {
	if to == stop || lp != nil && (to == lp.header || !lp.body[to]) {
		return false
	}
	if l := fr.cfg.loops[to]; l != nil && l != lp {
		return false
	}
	return true
}

func bindResult(st *State, x *ssa.Call, ret []*Term) {
	switch len(ret) {
	case 0:
	case 1:
		if tup, ok := x.Type().(*types.Tuple); ok && tup.Len() == 1 {
			st.env[x] = mk("struct", nil, "", 0, ret...)
			return
		}
		st.env[x] = ret[0]
	default:
		st.env[x] = mk("struct", nil, "", 0, ret...)
	}
}

func (e *Engine) runDefers(fr *frame, st *State) []Out {
	if len(st.defers) == 0 {
		return []Out{{kind: oRet, st: st, guard: True}}
	}
	d := st.defers[len(st.defers)-1]
	st.defers = st.defers[:len(st.defers)-1]
	outs := e.callValue(fr, d.instr, d.call, d.fn, d.args, st, true)
	var res []Out
	for _, o := range outs {
		if o.kind != oRet {
			res = append(res, o)
			continue
		}
		res = append(res, withGuard(o.guard, e.runDefers(fr, o.st))...)
	}
	return res
}

func (e *Engine) stackOf(fr *frame) []ssa.Instruction {
	var s []ssa.Instruction
	for f := fr; f != nil && f.call != nil; f = f.caller {
		s = append(s, f.call)
	}
	return s
}

func (e *Engine) oblige(fr *frame, in ssa.Instruction, kind string, cond *Term, st *State) {
	ok := cond == True || Prove(st.facts, cond) || proveC(st.facts, cond)
	d := ""
	var open *Term
	if !ok {
		open = simp(cond, st.facts)
		d = open.String()
	}
	e.obls = append(e.obls, Obl{Instr: in, Kind: kind, Fn: fr.fn, Ok: ok, Detail: d, Cond: open, Stack: e.stackOf(fr)})
}

// val is the abstract value of an SSA operand.
func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return refOf(e.globalObj(x))
	case *ssa.Function:
		return e.funcTerm(x)
	case *ssa.Builtin:
		return mk("builtin", nil, x.Name(), 0)
	}
	t, ok := st.env[v]
	if !ok {
		unsupported("no value for %s in %s", v.Name(), v.Parent())
	}
	return t
}

func (e *Engine) funcTerm(fn *ssa.Function) *Term {
	t := mk("func", nil, fn.String(), 0)
	if e.clos[int64(t.id)] == nil {
		e.clos[int64(t.id)] = &closure{fn: fn}
	}
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if isIntType(c.Type()) || isIfaceT(c.Type()) || true {
			if n, ok := constant.Int64Val(c.Value); ok {
				if b := basicOf(c.Type()); b != nil && b.Info()&types.IsFloat != 0 {
					return mk("float", c.Type(), c.Value.ExactString(), 0)
				}
				return Int(n)
			}
			return mk("bigint", c.Type(), c.Value.ExactString(), 0)
		}
	}
	return mk("float", c.Type(), c.Value.ExactString(), 0)
}

func isIfaceT(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	if o := e.globals[g]; o != nil {
		return o
	}
	ty := g.Type().(*types.Pointer).Elem()
	o := e.allocObj(ty, nil)
	o.glob = g
	o.local = false
	e.globals[g] = o
	mine := g.Pkg != nil && isMinePath(g.Pkg.Pkg.Path())
	name := g.String()
	if !mine {
		if isErrorType(ty) {
			o.init = mk("errglob", ty, name, 0)
		} else {
			o.init = mk("extglob", ty, name, 0)
		}
		return o
	}
	if e.mutGlob[g] {
		if o.arr {
			o.init = mk("lmem", nil, name, 0, Int(max(o.n, 0)))
		} else {
			o.init = mk("glob", ty, name, 0)
		}
		return o
	}
	e.initPkg(g.Pkg)
	if v, ok := e.gmem[o.id]; ok {
		switch v := v.(type) {
		case *Term:
			if (v.Op == "errnew" || v.Op == "errorf") && isErrorType(ty) {
				v = mk("errglob", ty, name, 0, v)
			}
			o.init = v
		case *ArrV:
			o.init = e.readArr(v, Int(0), Int(max(o.n, 0)), o.ty)
		}
	}
	return o
}

// initPkg evaluates the package initialiser so that tables and error values are known.
func (e *Engine) initPkg(pk *ssa.Package) {
	if e.inited[pk] || e.initing[pk] {
		return
	}
	e.initing[pk] = true
	fn := pk.Func("init")
	if fn != nil && fn.Blocks != nil {
		st := newState()
		n := len(e.obls)
		// objects of the globals of this package hold their zero value first
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && e.globals[g] == nil {
				ty := g.Type().(*types.Pointer).Elem()
				o := e.allocObj(ty, nil)
				o.glob, o.local = g, false
				e.globals[g] = o
			}
		}
		outs, err := e.Call(fn, nil, st)
		e.obls = e.obls[:n]
		if err == nil {
			var fin *State
			for _, o := range outs {
				if o.kind == oRet {
					fin = o.st
				}
			}
			if fin != nil {
				for k, v := range fin.mem {
					e.gmem[k] = v
				}
			}
		}
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			o := e.globals[g]
			name := g.String()
			ty := g.Type().(*types.Pointer).Elem()
			if e.mutGlob[g] || err != nil {
				if o.arr {
					o.init = mk("lmem", nil, name, 0, Int(max(o.n, 0)))
				} else {
					o.init = mk("glob", ty, name, 0)
				}
				continue
			}
			switch v := e.gmem[o.id].(type) {
			case *Term:
				if (v.Op == "errnew" || v.Op == "errorf") && isErrorType(ty) {
					v = mk("errglob", ty, name, 0, v)
				}
				o.init = v
			case *ArrV:
				o.init = e.readArr(v, Int(0), Int(max(o.n, 0)), o.ty)
			}
		}
		// objects allocated by the initialiser keep their content as initial value
		for k, v := range e.gmem {
			o := e.objs[k]
			if o.glob != nil {
				continue
			}
			switch v := v.(type) {
			case *Term:
				o.init = v
			case *ArrV:
				n := Int(max(o.n, 0))
				if o.n < 0 {
					n = ListLen(v.base)
				}
				o.init = e.readArr(v, Int(0), n, o.ty)
			}
		}
	}
	e.initing[pk] = false
	e.inited[pk] = true
}

func (e *Engine) allocObj(ty types.Type, site ssa.Instruction) *Obj {
	if a, ok := under(ty).(*types.Array); ok {
		return e.newObj(a.Elem(), true, a.Len(), nil, site)
	}
	return e.newObj(ty, false, -1, nil, site)
}

func (e *Engine) set(st *State, v ssa.Value, t *Term) {
	if t == nil {
		panic("nil term for " + v.String())
	}
	st.env[v] = simp(t, st.facts)
}

// stdNonNil is the condition under which a result of the standard library is
// not nil: constructors always yield a value, and a value that comes with an
// error is there when the error is nil.
func stdNonNil(st *State, t *Term) *Term {
	if t.Op != "res" || isMinePath(t.S) || strings.Contains(t.S, modPath) {
		return nil
	}
	for x := st.trace; x != nil; x = x.parent {
		ev, ok := x.item.(*Event)
		if !ok || int64(ev.ID) != t.N/8 {
			continue
		}
		if len(ev.Res) == 1 && strings.Contains(t.S, ".New") {
			return True
		}
		if n := len(ev.Res); n > 1 && t.N%8 == 0 && ev.Kind == "call" {
			last := ev.Res[n-1]
			if last.Op == "res" && last.Ty != nil && types.Identical(last.Ty, errT) {
				return Eq(last, Nil)
			}
		}
		return nil
	}
	return nil
}

func (e *Engine) ptrCheck(fr *frame, in ssa.Instruction, st *State, p *Term) {
	if e.nonNil != nil {
		ok := true
		var chk func(t *Term)
		chk = func(t *Term) {
			if t.Op == "ite" {
				chk(t.Args[1])
				chk(t.Args[2])
				return
			}
			if !nonNil(t) && t.Op != "undef" && t.Op != "extglob" && !e.nonNil(t) {
				ok = false
			}
		}
		chk(p)
		if ok {
			e.obls = append(e.obls, Obl{Instr: in, Kind: "nil dereference", Fn: fr.fn, Ok: true})
			return
		}
	}
	c := dist(p, func(t *Term) *Term {
		if nonNil(t) || t.Op == "undef" || t.Op == "extglob" || e.nonNil != nil && e.nonNil(t) {
			return True
		}
		if s := stdNonNil(st, t); s != nil {
			return s
		}
		return Not(Eq(t, Nil))
	})
	e.oblige(fr, in, "nil dereference", c, st)
}

func (e *Engine) instr(fr *frame, in ssa.Instruction, st *State) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := e.allocObj(x.Type().(*types.Pointer).Elem(), x)
		e.set(st, x, refOf(o))
	case *ssa.BinOp:
		e.set(st, x, noWrap(e.binop(fr, x, st), st.facts))
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			e.ptrCheck(fr, x, st, v)
			e.set(st, x, e.load(st, v, x.Type()))
		case token.NOT:
			e.set(st, x, Not(v))
		case token.SUB:
			if isIntType(x.Type()) {
				e.set(st, x, Wrap(x.Type(), Neg(v)))
			} else {
				e.set(st, x, mk("neg", x.Type(), "", 0, v))
			}
		case token.XOR:
			_, signed := intInfo(x.Type())
			if signed {
				e.set(st, x, Sub(Int(-1), v))
			} else {
				e.set(st, x, Wrap(x.Type(), Sub(Int(-1), v)))
			}
		case token.ARROW:
			e.set(st, x, Fresh("recv", x.Type()))
		default:
			unsupported("unop %s", x.Op)
		}
	case *ssa.ChangeInterface:
		e.set(st, x, e.val(st, x.X))
	case *ssa.ChangeType:
		e.set(st, x, e.val(st, x.X))
	case *ssa.Convert:
		e.set(st, x, e.convert(x, st))
	case *ssa.MultiConvert:
		unsupported("generic conversion")
	case *ssa.Extract:
		e.set(st, x, Fld(e.val(st, x.Tuple), x.Index, x.Type(), fmt.Sprint(x.Index)))
	case *ssa.Field:
		s := structOf(x.X.Type())
		e.set(st, x, Fld(e.val(st, x.X), x.Field, x.Type(), s.Field(x.Field).Name()))
	case *ssa.FieldAddr:
		p := e.val(st, x.X)
		pt := under(x.X.Type()).(*types.Pointer).Elem()
		e.ptrCheck(fr, x, st, p)
		s := structOf(pt)
		e.set(st, x, dist(e.asPtr(p, pt), func(r *Term) *Term {
			if r.Op != "ref" {
				return Bot
			}
			return refField(r, x.Field, s.Field(x.Field).Name())
		}))
	case *ssa.Index:
		v, i := e.val(st, x.X), e.val(st, x.Index)
		if isString(x.X.Type()) {
			e.oblige(fr, x, "index", inRange(i, SeqLen(v)), st)
			e.set(st, x, At(v, i))
			return
		}
		a := under(x.X.Type()).(*types.Array)
		e.oblige(fr, x, "index", inRange(i, Int(a.Len())), st)
		e.set(st, x, ElemAt(v, i, a.Elem()))
	case *ssa.IndexAddr:
		v, i := e.val(st, x.X), e.val(st, x.Index)
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			v = simp(v, st.facts)
			e.oblige(fr, x, "index", inRange(i, e.sliceLen(v)), st)
			e.set(st, x, e.elemRef(v, i, u.Elem()))
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			e.ptrCheck(fr, x, st, v)
			e.oblige(fr, x, "index", inRange(i, Int(a.Len())), st)
			e.set(st, x, dist(e.asPtr(v, u.Elem()), func(r *Term) *Term {
				if r.Op != "ref" {
					return Bot
				}
				return refIndex(r, i)
			}))
		default:
			unsupported("indexaddr %s", x.X.Type())
		}
	case *ssa.Lookup:
		v, i := e.val(st, x.X), e.val(st, x.Index)
		if isString(x.X.Type()) {
			e.oblige(fr, x, "index", inRange(i, SeqLen(v)), st)
			e.set(st, x, At(v, i))
			return
		}
		mt := under(x.X.Type()).(*types.Map)
		e.set(st, x, e.mapLookup(st, v, i, mt, x.CommaOk))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		t := mk("closure", nil, fn.String(), 0, bs...)
		e.clos[int64(t.id)] = &closure{fn: fn, bind: bs}
		e.set(st, x, t)
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		e.set(st, x, mk("iface", x.X.Type(), tyName(x.X.Type()), 0, v))
	case *ssa.MakeMap:
		o := e.newObj(x.Type(), false, -1, mk("mapv", nil, "", 0), x)
		e.set(st, x, mk("mapobj", nil, "", int64(o.id)))
	case *ssa.MapUpdate:
		e.mapUpdate(fr, x, st)
	case *ssa.MakeChan:
		e.set(st, x, Fresh("nonnil", x.Type()))
	case *ssa.MakeSlice:
		n, c := e.val(st, x.Len), e.val(st, x.Cap)
		el := under(x.Type()).(*types.Slice).Elem()
		e.oblige(fr, x, "make length", And2(Ge0(n), Ge0(Sub(Int(1<<47), n))), st)
		if n != c {
			e.oblige(fr, x, "make capacity", Le(n, c), st)
		}
		k := int64(-1)
		if c.isInt() {
			k = c.N
		}
		o := e.newObj(el, true, k, mk("zeros", nil, "", 0, c), x)
		e.set(st, x, mk("slice", nil, "", 0, refOf(o), Int(0), n, c))
	case *ssa.Slice:
		e.set(st, x, e.slice(fr, x, st))
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	case *ssa.Store:
		p := e.val(st, x.Addr)
		e.ptrCheck(fr, x, st, p)
		e.store(st, p, e.val(st, x.Val), x.Val.Type())
	case *ssa.TypeAssert:
		e.set(st, x, e.typeAssert(fr, x, st))
	case *ssa.Defer:
		d := deferred{call: &x.Call, instr: x}
		d.fn, d.args = e.callee(st, &x.Call)
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
	case *ssa.Go:
		f, args := e.callee(st, &x.Call)
		e.evCnt++
		ev := &Event{ID: e.evCnt, Kind: "go", Name: f.String(), Args: args, Instr: x, Fn: fr.fn, Facts: st.facts, Stack: e.stackOf(fr)}
		st.push(ev)
	case *ssa.Range:
		e.set(st, x, mk("range", x.Type(), "", 0, e.val(st, x.X)))
	case *ssa.Next:
		tup := x.Type().(*types.Tuple)
		it := e.val(st, x.Iter)
		freshCnt++
		k := freshCnt
		ok := mk("next", types.Typ[types.Bool], "ok", k, it)
		var kt, vt types.Type = tup.At(1).Type(), tup.At(2).Type()
		if x.IsString {
			vt = types.Typ[types.Rune]
			kt = types.Typ[types.Int]
			st.facts = st.facts.add(Ite(ok, Ge0(mk("next", kt, "k", k, it)), True))
			st.facts = st.facts.add(Ite(ok, Lt(mk("next", kt, "k", k, it), SeqLen(it.Args[0])), True))
		}
		e.set(st, x, mk("struct", nil, "", 0, ok, mk("next", kt, "k", k, it), mk("next", vt, "v", k, it)))
	case *ssa.Send, *ssa.Select:
		unsupported("%T", in)
	default:
		unsupported("instruction %T", in)
	}
}

func inRange(i, n *Term) *Term {
	return And2(Ge0(i), Lt(i, n))
}

// noWrap drops the wrap-around of a result that provably fits its type.
func noWrap(t *Term, f *Facts) *Term {
	if t.Op != "wrap" || f == nil {
		return t
	}
	p := simp(t.Args[0], f)
	lo, hi := typeRange(t.Ty)
	l := Int(-1 << 50)
	if lo != ninf {
		l = Int(lo)
	}
	h := Int(1 << 50)
	if hi != inf {
		h = Int(hi)
	}
	if linProve(f, Sub(p, l), 0) && linProve(f, Sub(h, p), 0) {
		return p
	}
	return t
}

func (e *Engine) binop(fr *frame, x *ssa.BinOp, st *State) *Term {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	ty := x.Type()
	ot := x.X.Type()
	if isIntType(ot) {
		switch x.Op {
		case token.ADD:
			return Wrap(ty, Add(a, b))
		case token.SUB:
			return Wrap(ty, Sub(a, b))
		case token.MUL:
			return Wrap(ty, Mul(a, b))
		case token.QUO, token.REM:
			e.oblige(fr, x, "division by zero", Not(Eq0(b)), st)
			if x.Op == token.QUO {
				return Wrap(ty, Div(a, b))
			}
			return Mod(a, b)
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		case token.XOR:
			if a.isInt() && b.isInt() {
				return Wrap(ty, Int(a.N^b.N))
			}
			if b.isInt() && b.N == 0 {
				return a
			}
			if a.id > b.id {
				a, b = b, a
			}
			return mk("xor", ty, "", 0, a, b)
		case token.AND_NOT:
			if b.isInt() {
				_, signed := intInfo(ty)
				if signed {
					return And(a, Int(^b.N))
				}
				w, _ := intInfo(ty)
				if w < 64 {
					return And(a, Int(^b.N&(1<<uint(w)-1)))
				}
			}
			return mk("andnot", ty, "", 0, a, b)
		case token.SHL, token.SHR:
			if _, signed := intInfo(x.Y.Type()); signed {
				e.oblige(fr, x, "negative shift", Ge0(b), st)
			}
			w, _ := intInfo(ty)
			if b.isInt() {
				if b.N >= int64(w) {
					if x.Op == token.SHL {
						return Int(0)
					}
					b = Int(int64(w - 1))
					if _, s := intInfo(ty); !s {
						return Int(0)
					}
				}
				if x.Op == token.SHL {
					if b.N < 62 {
						return Wrap(ty, Scale(a, 1<<uint(b.N)))
					}
				} else {
					return Shr(a, b)
				}
			}
			if x.Op == token.SHL {
				if a.isInt() && a.N == 1 {
					return mk("shl", ty, "", 0, a, b)
				}
				return mk("shl", ty, "", 0, a, b)
			}
			return mk("shr", ty, "", 0, a, b)
		case token.EQL:
			return Eq0(Sub(a, b))
		case token.NEQ:
			return Not(Eq0(Sub(a, b)))
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		}
		unsupported("int op %s", x.Op)
	}
	switch x.Op {
	case token.EQL:
		return e.eq(a, b, ot, x.Y.Type())
	case token.NEQ:
		return Not(e.eq(a, b, ot, x.Y.Type()))
	case token.ADD:
		if isString(ot) {
			return Cat(a, b)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isString(ot) {
			if a.Op == "str" && b.Op == "str" {
				switch x.Op {
				case token.LSS:
					return Bool(a.S < b.S)
				case token.GTR:
					return Bool(a.S > b.S)
				case token.LEQ:
					return Bool(a.S <= b.S)
				case token.GEQ:
					return Bool(a.S >= b.S)
				}
			}
		}
		return mk("cmp", types.Typ[types.Bool], x.Op.String(), 0, a, b)
	}
	return mk("op", ty, x.Op.String(), 0, a, b)
}

func (e *Engine) eq(a, b *Term, ta, tb types.Type) *Term {
	// mixed interface/concrete comparison
	if isIfaceT(ta) && !isIfaceT(tb) && b != Nil {
		b = mk("iface", tb, tyName(tb), 0, b)
	} else if isIfaceT(tb) && !isIfaceT(ta) && a != Nil {
		a = mk("iface", ta, tyName(ta), 0, a)
	}
	if isBool(ta) {
		return Ite(a, b, Not(b))
	}
	return Eq(a, b)
}

func (e *Engine) convert(x *ssa.Convert, st *State) *Term {
	v := e.val(st, x.X)
	from, to := x.X.Type(), x.Type()
	switch {
	case isIntType(from) && isIntType(to):
		return Wrap(to, v)
	case isIntType(from) && isString(to):
		if v.isInt() {
			return Str(string(rune(v.N)))
		}
		return mk("chr", types.Typ[types.String], "", 0, v)
	case isString(to) && isString(from):
		return v
	case isString(to):
		if sl, ok := under(from).(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return e.readSlice(st, v, sl.Elem())
			}
			if v.Op == "slice" {
				l := e.readSlice(st, v, sl.Elem())
				if l.Op == "list" {
					var rs []rune
					ok := true
					for _, a := range l.Args {
						if !a.isInt() {
							ok = false
							break
						}
						rs = append(rs, rune(a.N))
					}
					if ok {
						return Str(string(rs))
					}
				}
			}
			return mk("runestr", types.Typ[types.String], "", 0, e.readSlice(st, v, sl.Elem()))
		}
	case isString(from):
		if sl, ok := under(to).(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return e.newBytes(v, x)
			}
			if v.Op == "str" {
				var rs []*Term
				for _, r := range v.S {
					rs = append(rs, Int(int64(r)))
				}
				return e.newList(mk("list", nil, "", 0, rs...), Int(int64(len(rs))), sl.Elem(), x)
			}
			rl := mk("runes", nil, "", 0, v)
			return e.newList(rl, mk("len", types.Typ[types.Int], "", 0, rl), sl.Elem(), x)
		}
	}
	if v == Nil {
		return v
	}
	if p, ok := to.(*types.Pointer); ok && p.Elem().String() == "reflect.SliceHeader" && v.Op == "conv" && v.Args[0].Op == "ref" {
		return mk("ref", nil, "", v.Args[0].N, append(append([]*Term{}, v.Args[0].Args...), mk("h", p.Elem(), "", 0))...)
	}
	return mk("conv", to, tyName(to), 0, v)
}

func (e *Engine) slice(fr *frame, x *ssa.Slice, st *State) *Term {
	v := simp(e.val(st, x.X), st.facts)
	lo := Int(0)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	var hi, mx *Term
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	if x.Max != nil {
		mx = e.val(st, x.Max)
	}
	if isString(x.X.Type()) {
		n := SeqLen(v)
		if hi == nil {
			hi = n
		}
		e.oblige(fr, x, "slice bounds", And2(Ge0(lo), And2(Le(lo, hi), Le(hi, n))), st)
		return SubSeq(v, lo, Sub(hi, lo))
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		n, c := e.sliceLen(v), e.sliceCap(v)
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = c
		} else {
			e.oblige(fr, x, "slice bounds", Le(mx, c), st)
		}
		// high bound against the length: reading beyond it would expose stale elements
		lim := mx
		e.oblige(fr, x, "slice bounds", And2(Ge0(lo), And2(Le(lo, hi), Le(hi, lim))), st)
		s := e.asSlice(v, u.Elem())
		return dist(s, func(s *Term) *Term {
			if s.Op != "slice" {
				return s
			}
			return mk("slice", nil, "", 0, s.Args[0], Add(s.Args[1], lo), Sub(hi, lo), Sub(mx, lo))
		})
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		n := Int(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.ptrCheck(fr, x, st, v)
		e.oblige(fr, x, "slice bounds", And2(Ge0(lo), And2(Le(lo, hi), Le(hi, mx))), st)
		return dist(e.asPtr(v, u.Elem()), func(r *Term) *Term {
			if r.Op != "ref" {
				return Bot
			}
			return mk("slice", nil, "", 0, r, lo, Sub(hi, lo), Sub(mx, lo))
		})
	}
	unsupported("slice of %s", x.X.Type())
	return nil
}

// ---------------------------------------------------------------- maps

func (e *Engine) mapContent(st *State, m *Term) *Term {
	if m.Op == "mapobj" {
		return e.get(st, int(m.N)).(*Term)
	}
	return mk("mapof", nil, "", 0, m)
}

func (e *Engine) mapLookup(st *State, m, k *Term, mt *types.Map, commaOk bool) *Term {
	var val, ok *Term
	r := dist(m, func(m *Term) *Term {
		val, ok = zeroOf(mt.Elem()), False
		if m.Op == "mapobj" || m != Nil {
			c := e.mapContent(st, m)
			val, ok = mapGet(c, k, mt)
		}
		return mk("struct", nil, "", 0, val, ok)
	})
	if commaOk {
		return r
	}
	return Fld(r, 0, mt.Elem(), "")
}

func mapGet(c, k *Term, mt *types.Map) (*Term, *Term) {
	switch c.Op {
	case "mapv":
		return zeroOf(mt.Elem()), False
	case "mapset":
		var eq *Term
		if isIntType(mt.Key()) {
			eq = Eq0(Sub(c.Args[1], k))
		} else {
			eq = Eq(c.Args[1], k)
		}
		v, ok := mapGet(c.Args[0], k, mt)
		return Ite(eq, c.Args[2], v), Ite(eq, True, ok)
	case "ite":
		v1, o1 := mapGet(c.Args[1], k, mt)
		v2, o2 := mapGet(c.Args[2], k, mt)
		return Ite(c.Args[0], v1, v2), Ite(c.Args[0], o1, o2)
	}
	ok := mk("mapok", types.Typ[types.Bool], "", 0, c, k)
	return Ite(ok, mk("mapget", mt.Elem(), "", 0, c, k), zeroOf(mt.Elem())), ok
}

func (e *Engine) mapUpdate(fr *frame, x *ssa.MapUpdate, st *State) {
	m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
	e.ptrCheck(fr, x, st, m)
	if m.Op == "mapobj" {
		o := e.objs[m.N]
		c := e.get(st, o.id).(*Term)
		st.mem[o.id] = mk("mapset", nil, "", 0, c, k, v)
		return
	}
	e.evCnt++
	st.push(&Event{ID: e.evCnt, Kind: "mapset", Name: "mapset", Args: []*Term{m, k, v}, Instr: x, Fn: fr.fn, Facts: st.facts, Stack: e.stackOf(fr)})
}

// ---------------------------------------------------------------- interfaces

func (e *Engine) typeAssert(fr *frame, x *ssa.TypeAssert, st *State) *Term {
	v := simp(e.val(st, x.X), st.facts)
	T := x.AssertedType
	toIface := isIfaceT(T)
	cond := dist(v, func(v *Term) *Term {
		switch {
		case v.Op == "iface":
			if toIface {
				return Bool(types.Implements(v.Ty, under(T).(*types.Interface)))
			}
			return Bool(types.Identical(v.Ty, T))
		case v == Nil:
			return False
		case v.Op == "errnew" || v.Op == "errorf" || v.Op == "errglob":
			if toIface && types.NewMethodSet(T).Len() == 0 {
				return True
			}
			if !toIface {
				return False
			}
		}
		n := int64(0)
		if toIface {
			n = 1
		}
		return mk("typeis", types.Typ[types.Bool], tyName(T), n, v)
	})
	val := dist(v, func(v *Term) *Term {
		if toIface {
			return v
		}
		if v.Op == "iface" {
			if types.Identical(v.Ty, T) {
				return v.Args[0]
			}
			return zeroOf(T)
		}
		return mk("unbox", T, "", 0, v)
	})
	if x.CommaOk {
		return mk("struct", nil, "", 0, Ite(cond, val, zeroOf(T)), cond)
	}
	e.oblige(fr, x, "type assertion", cond, st)
	return val
}
