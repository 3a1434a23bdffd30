package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The interpreter of the bit domain: the control of a function on known sizes
// is followed, the words are vectors of bits of the domain. A branch on an
// unknown bit is a selection between the results of its two arms.

type (
	bword struct {
		b []*bx
		s bool // signed
	}
	bptr struct {
		o   *bobj
		off int
		// an unknown index: the pointer is to cell off + idx*step, idx < n
		idx  []*bx
		n    int
		step int
		ty   types.Type
	}
	bslice struct {
		o             *bobj
		off, len, cap int
		et            types.Type
	}
	bstring struct{ b [][]*bx }
	bagg    struct{ cells []any } // array, struct
	btuple  struct{ v []any }
	bfunc   struct {
		fn   *ssa.Function
		bind []any
	}
	bnil  struct{}
	berr  struct{ name string } // an error value or something else not looked into
	biter struct {
		s bstring
		i int
	}
	bobj struct {
		name  string
		kind  string // "local", "param", "global"
		n     int
		cells []any
		id    int
	}
)

type bundecided struct{ msg string }

type bitInterp struct {
	p      *Program
	d      *bitDom
	mut    map[*ssa.Global]bool
	glob   map[*ssa.Global]*bobj
	inits  map[*ssa.Package]bool
	steps  int
	nobj   int
	objs   []*bobj
	bad    map[string]token.Pos // what the function must not do, and where
	seen   map[*ssa.Function]bool
	pdoms  map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	initng bool
}

func newBitInterp(p *Program, mut map[*ssa.Global]bool) *bitInterp {
	return &bitInterp{p: p, d: newBitDom(), mut: mut, glob: map[*ssa.Global]*bobj{}, inits: map[*ssa.Package]bool{}, bad: map[string]token.Pos{}, seen: map[*ssa.Function]bool{}, pdoms: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}}
}

func (m *bitInterp) fail(in ssa.Instruction, f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if in != nil {
		s += " at " + m.p.Pos(in.Pos()) + " in " + fnKey(in.Parent())
	}
	panic(bundecided{s})
}

func cellsOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return int(u.Len()) * cellsOf(u.Elem())
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += cellsOf(u.Field(i).Type())
		}
		return n
	}
	return 1
}

func (m *bitInterp) word(t types.Type, v int64) bword {
	w, s := widthOf(t)
	r := bword{b: make([]*bx, w), s: s}
	for i := range r.b {
		r.b[i] = bbit(uint64(v)>>uint(min(i, 63))&1 == 1)
	}
	return r
}

func widthOf(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false
	case types.Uint8:
		return 8, false
	case types.Int8:
		return 8, true
	case types.Uint16:
		return 16, false
	case types.Int16:
		return 16, true
	case types.Uint32:
		return 32, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func (m *bitInterp) zeros(t types.Type) []any {
	switch u := t.Underlying().(type) {
	case *types.Array:
		var r []any
		z := m.zeros(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, z...)
		}
		return r
	case *types.Struct:
		var r []any
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, m.zeros(u.Field(i).Type())...)
		}
		return r
	case *types.Basic:
		if w, _ := widthOf(t); w > 0 {
			return []any{m.word(t, 0)}
		}
		if u.Info()&types.IsString != 0 {
			return []any{bstring{}}
		}
	}
	return []any{bnil{}}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return true
	}
	return false
}

func (m *bitInterp) alloc(name, kind string, cells []any) *bobj {
	m.nobj++
	o := &bobj{name: name, kind: kind, n: len(cells), cells: cells, id: m.nobj}
	m.objs = append(m.objs, o)
	return o
}

func (m *bitInterp) global(g *ssa.Global, in ssa.Instruction) *bobj {
	if o := m.glob[g]; o != nil {
		return o
	}
	if g.Pkg == nil || !isMinePath(g.Pkg.Pkg.Path()) {
		o := m.alloc(g.String(), "global", []any{berr{g.String()}})
		m.glob[g] = o
		return o
	}
	if !m.inits[g.Pkg] {
		m.inits[g.Pkg] = true
		for _, mem := range g.Pkg.Members {
			if h, ok := mem.(*ssa.Global); ok {
				m.glob[h] = m.alloc(h.String(), "global", m.zeros(h.Type().(*types.Pointer).Elem()))
			}
		}
		was := m.initng
		m.initng = true
		m.call(g.Pkg.Func("init"), nil, in)
		m.initng = was
	}
	return m.glob[g]
}

func constWord(w bword) (int64, bool) {
	var v uint64
	for i, b := range w.b {
		if !b.isConst() {
			return 0, false
		}
		if b.c {
			v |= 1 << uint(i)
		}
	}
	if n := len(w.b); w.s && n < 64 && w.b[n-1].c {
		v |= ^uint64(0) << uint(n)
	}
	return int64(v), true
}

// known gives the value of a word which is the same for every input allowed.
func (m *bitInterp) known(w bword) (int64, bool) {
	if v, ok := constWord(w); ok {
		return v, true
	}
	return 0, false
}

type bframe struct {
	fn  *ssa.Function
	env map[ssa.Value]any
	arg []any
	fv  []any
}

func (m *bitInterp) get(f *bframe, v ssa.Value, in ssa.Instruction) any {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isAgg(x.Type()) {
				return bagg{m.zeros(x.Type())}
			}
			return m.zeros(x.Type())[0]
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return bword{b: []*bx{bbit(constant.BoolVal(x.Value))}}
		case constant.Int:
			if w, _ := widthOf(x.Type()); w > 0 {
				if i, ok := constant.Int64Val(x.Value); ok {
					return m.word(x.Type(), i)
				}
				if u, ok := constant.Uint64Val(x.Value); ok {
					return m.word(x.Type(), int64(u))
				}
			}
		case constant.String:
			s := constant.StringVal(x.Value)
			r := bstring{}
			for i := 0; i < len(s); i++ {
				r.b = append(r.b, m.word(types.Typ[types.Uint8], int64(s[i])).b)
			}
			return r
		}
		return berr{"constant " + x.String()}
	case *ssa.Global:
		return bptr{o: m.global(x, in), ty: x.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return bfunc{fn: x}
	case *ssa.Builtin:
		return berr{"builtin " + x.Name()}
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p == x {
				return f.arg[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.fn.FreeVars {
			if p == x {
				return f.fv[i]
			}
		}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	m.fail(in, "no value for %s", v.Name())
	return nil
}

func (m *bitInterp) w(f *bframe, v ssa.Value, in ssa.Instruction) bword {
	x, ok := m.get(f, v, in).(bword)
	if !ok {
		m.fail(in, "%s is no word", v.Name())
	}
	return x
}

func (m *bitInterp) num(w bword, in ssa.Instruction, what string) int {
	v, ok := m.known(w)
	if !ok {
		m.fail(in, "%s depends on the data", what)
	}
	return int(v)
}

// load reads a value.
func (m *bitInterp) load(p bptr, in ssa.Instruction) any {
	if p.o.kind == "global" && !m.initng {
		for g, o := range m.glob {
			if o == p.o && m.mut[g] {
				m.note("reads the variable "+g.Name()+", which is changed after start-up", in)
			}
		}
	}
	if p.idx != nil {
		var rows [][]any
		c := cellsOf(p.ty)
		for i := 0; i < p.n; i++ {
			rows = append(rows, p.o.cells[p.off+i*p.step:p.off+i*p.step+c])
		}
		out := m.lookup(rows, p.idx, in)
		if isAgg(p.ty) {
			return bagg{out}
		}
		return out[0]
	}
	if isAgg(p.ty) {
		return bagg{append([]any{}, p.o.cells[p.off:p.off+cellsOf(p.ty)]...)}
	}
	return p.o.cells[p.off]
}

// lookup reads the rows of a table at an unknown index.
func (m *bitInterp) lookup(rows [][]any, idx []*bx, in ssa.Instruction) []any {
	k := 0
	for i, b := range idx {
		if !b.isConst() || b.c {
			k = i + 1
		}
	}
	if as, ok := m.d.support(idx, fnSupport); ok && (1<<uint(k) > len(rows) || k > 12) {
		// all the values it may have
		pos := map[int32]int{}
		for i, a := range as {
			pos[a] = i
		}
		sel := make([]int, 1<<uint(len(as)))
		for v := range sel {
			for i, b := range idx {
				if m.d.atPos(b, pos, v) {
					if i > 30 {
						m.fail(in, "index out of range")
					}
					sel[v] |= 1 << uint(i)
				}
			}
			if sel[v] >= len(rows) {
				if m.allowed(as, v) {
					m.fail(in, "index %d out of range [0,%d)", sel[v], len(rows))
				}
				sel[v] = 0
			}
		}
		return m.column(rows, func(bit func(row int) bool) *bx {
			t := make([]bool, len(sel))
			for v := range t {
				t[v] = bit(sel[v])
			}
			return m.d.poly(as, t)
		}, in)
	}
	if k > 12 || 1<<uint(k) > len(rows) {
		m.fail(in, "an index of %d bits into %d elements", k, len(rows))
	}
	return m.column(rows, func(bit func(row int) bool) *bx {
		t := make([]bool, 1<<uint(k))
		for v := range t {
			t[v] = bit(v)
		}
		return m.d.fn(idx[:k], t)
	}, in)
}

// allowed: the values of the atoms are possible.
func (m *bitInterp) allowed(as []int32, v int) bool {
	for _, g := range m.d.groups {
		all, some := true, false
		for _, a := range g {
			in := false
			for i, x := range as {
				if x == a {
					in = true
					some = some || v>>uint(i)&1 == 1
				}
			}
			all = all && in
		}
		if all && !some {
			return false
		}
	}
	return true
}

func (m *bitInterp) column(rows [][]any, mk func(func(int) bool) *bx, in ssa.Instruction) []any {
	var out []any
	for c := range rows[0] {
		f, ok := rows[0][c].(bword)
		if !ok {
			m.fail(in, "a table of other values than words")
		}
		r := bword{b: make([]*bx, len(f.b)), s: f.s}
		for j := range r.b {
			vals := make([]*bx, len(rows))
			for i := range rows {
				vals[i] = rows[i][c].(bword).b[j]
				if !vals[i].isConst() {
					m.fail(in, "an unknown index into unknown values")
				}
			}
			r.b[j] = mk(func(row int) bool { return vals[row].c })
		}
		out = append(out, r)
	}
	return out
}

func (m *bitInterp) note(s string, in ssa.Instruction) {
	if _, ok := m.bad[s]; !ok {
		m.bad[s] = in.Pos()
	}
}

func (m *bitInterp) store(p bptr, v any, in ssa.Instruction) {
	if p.idx != nil {
		m.fail(in, "a write to an unknown place")
	}
	if p.o.kind != "local" && !m.initng {
		m.note("writes to "+p.o.name, in)
	}
	if a, ok := v.(bagg); ok && isAgg(p.ty) {
		copy(p.o.cells[p.off:p.off+cellsOf(p.ty)], a.cells)
		return
	}
	p.o.cells[p.off] = v
}

func (m *bitInterp) pdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if r := m.pdoms[fn]; r != nil {
		return r
	}
	n := len(fn.Blocks)
	all := make([]bool, n)
	for i := range all {
		all[i] = true
	}
	sets := make([][]bool, n)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			sets[i] = make([]bool, n)
			sets[i][i] = true
		} else {
			sets[i] = append([]bool{}, all...)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			s := append([]bool{}, all...)
			for _, q := range b.Succs {
				for j := range s {
					s[j] = s[j] && sets[q.Index][j]
				}
			}
			s[i] = true
			for j := range s {
				if s[j] != sets[i][j] {
					ch = true
				}
			}
			sets[i] = s
		}
	}
	count := func(s []bool) int {
		k := 0
		for _, x := range s {
			if x {
				k++
			}
		}
		return k
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		best := -1
		for j := range sets[i] {
			if j != i && sets[i][j] && (best < 0 || count(sets[j]) > count(sets[best])) {
				best = j
			}
		}
		if best >= 0 {
			r[b] = fn.Blocks[best]
		}
	}
	m.pdoms[fn] = r
	return r
}

func (m *bitInterp) call(fn *ssa.Function, args []any, in ssa.Instruction) any {
	return m.callWith(fn, args, nil, in)
}

func (m *bitInterp) callWith(fn *ssa.Function, args, fv []any, in ssa.Instruction) any {
	if r, ok := m.model(fn, args, in); ok {
		return r
	}
	if fn.Blocks == nil && !(fn.Name() == "init" && fn.Pkg != nil) {
		m.fail(in, "a call of %s", fn)
	}
	pk := fn.Pkg
	for q := fn; pk == nil && q.Parent() != nil; q = q.Parent() {
		pk = q.Parent().Pkg
	}
	if pk == nil || !isMinePath(pk.Pkg.Path()) {
		if fn.Name() == "init" {
			return btuple{}
		}
		m.fail(in, "a call of %s", fn)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && in != nil && in.Parent() != nil && in.Parent().Name() == "init" && in.Parent().Pkg != pk {
		return btuple{} // another package
	}
	m.seen[fn] = true
	f := &bframe{fn: fn, env: map[ssa.Value]any{}, arg: args, fv: fv}
	ret, _ := m.run(f, fn.Blocks[0], nil, nil)
	return ret
}

// run follows the blocks until stop; it gives the result of the function, or the last block before stop.
func (m *bitInterp) run(f *bframe, b, pred, stop *ssa.BasicBlock) (any, *ssa.BasicBlock) {
	for {
		if b == stop {
			return nil, pred
		}
		// the phis all at once
		if pred != nil {
			k := -1
			for i, p := range b.Preds {
				if p == pred {
					k = i
				}
			}
			var vals []any
			var phis []*ssa.Phi
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					phis = append(phis, phi)
					vals = append(vals, m.get(f, phi.Edges[k], in))
				}
			}
			for i, phi := range phis {
				f.env[phi] = vals[i]
			}
		}
		next := (*ssa.BasicBlock)(nil)
		for _, in := range b.Instrs {
			m.steps++
			if m.steps > 20_000_000 {
				m.fail(in, "too many steps")
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return btuple{}, nil
				case 1:
					return m.get(f, x.Results[0], in), nil
				}
				t := btuple{}
				for _, r := range x.Results {
					t.v = append(t.v, m.get(f, r, in))
				}
				return t, nil
			case *ssa.Panic:
				m.fail(in, "a panic")
			case *ssa.If:
				c := m.w(f, x.Cond, in).b[0]
				if v, ok := m.d.decide(c); ok {
					if v {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
					break
				}
				j := m.pdom(f.fn)[b]
				if j == nil {
					m.fail(in, "what is done depends on the data")
				}
				m.choose(f, b, j, c, in)
				// go on after the phis of j
				return m.runFrom(f, j, stop)
			default:
				m.instr(f, in)
			}
		}
		pred, b = b, next
		if b == nil {
			m.fail(nil, "no successor in %s", fnKey(f.fn))
		}
	}
}

// runFrom continues in a block whose phis have their values.
func (m *bitInterp) runFrom(f *bframe, b, stop *ssa.BasicBlock) (any, *ssa.BasicBlock) {
	if b == stop {
		// the phis of stop are set, the caller must not set them again
		return nil, nil
	}
	return m.run(f, b, nil, stop)
}

func (m *bitInterp) snapshot() [][]any {
	r := make([][]any, len(m.objs))
	for i, o := range m.objs {
		r[i] = append([]any{}, o.cells...)
	}
	return r
}

// choose runs both arms of a branch on an unknown bit and selects what is different.
func (m *bitInterp) choose(f *bframe, b, j *ssa.BasicBlock, c *bx, in ssa.Instruction) {
	before := m.snapshot()
	envs := map[ssa.Value]any{}
	for k, v := range f.env {
		envs[k] = v
	}
	arm := func(i int) ([]any, [][]any) {
		for k := range before {
			copy(m.objs[k].cells, before[k])
		}
		f.env = map[ssa.Value]any{}
		for k, v := range envs {
			f.env[k] = v
		}
		var last *ssa.BasicBlock
		done := false
		if b.Succs[i] == j {
			last = b
		} else {
			var ret any
			ret, last = m.run(f, b.Succs[i], b, j)
			if ret != nil {
				m.fail(in, "what is done depends on the data")
			}
			done = last == nil
		}
		var vals []any
		for _, q := range j.Instrs {
			phi, ok := q.(*ssa.Phi)
			if !ok {
				break
			}
			if done {
				vals = append(vals, f.env[phi])
				continue
			}
			for k, p := range j.Preds {
				if p == last {
					vals = append(vals, m.get(f, phi.Edges[k], q))
					break
				}
			}
		}
		return vals, m.snapshot()
	}
	v0, m0 := arm(0)
	v1, m1 := arm(1)
	f.env = envs
	n := 0
	for _, q := range j.Instrs {
		phi, ok := q.(*ssa.Phi)
		if !ok {
			break
		}
		f.env[phi] = m.mux(c, v0[n], v1[n], in)
		n++
	}
	for i, o := range m.objs {
		if i >= len(m0) || i >= len(m1) {
			continue // made in one arm
		}
		for k := range o.cells {
			o.cells[k] = m.mux(c, m0[i][k], m1[i][k], in)
		}
	}
}

func (m *bitInterp) mux(c *bx, x, y any, in ssa.Instruction) any {
	a, ok := x.(bword)
	b, ok2 := y.(bword)
	if ok && ok2 && len(a.b) == len(b.b) {
		r := bword{b: make([]*bx, len(a.b)), s: a.s}
		for i := range a.b {
			if a.b[i] == b.b[i] || a.b[i].eq(b.b[i]) {
				r.b[i] = a.b[i]
			} else {
				r.b[i] = m.d.mux(c, a.b[i], b.b[i])
			}
		}
		return r
	}
	if same(x, y) {
		return x
	}
	m.fail(in, "a value other than a word depends on the data")
	return nil
}

func same(x, y any) bool {
	switch a := x.(type) {
	case bslice:
		b, ok := y.(bslice)
		return ok && a.o == b.o && a.off == b.off && a.len == b.len && a.cap == b.cap
	case bptr:
		b, ok := y.(bptr)
		return ok && a.o == b.o && a.off == b.off && a.idx == nil && b.idx == nil
	case bnil:
		_, ok := y.(bnil)
		return ok
	case berr:
		b, ok := y.(berr)
		return ok && a == b
	case bstring:
		b, ok := y.(bstring)
		if !ok || len(a.b) != len(b.b) {
			return false
		}
		for i := range a.b {
			for k := range a.b[i] {
				if !a.b[i][k].eq(b.b[i][k]) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (m *bitInterp) instr(f *bframe, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		f.env[x] = bptr{o: m.alloc(x.Comment, "local", m.zeros(t)), ty: t}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := m.get(f, x.X, in).(bptr)
			if !ok {
				m.fail(in, "a read through something else than a known pointer")
			}
			f.env[x] = m.load(p, in)
		case token.NOT:
			f.env[x] = bword{b: []*bx{bnot(m.w(f, x.X, in).b[0])}}
		case token.XOR:
			w := m.w(f, x.X, in)
			r := bword{b: make([]*bx, len(w.b)), s: w.s}
			for i := range r.b {
				r.b[i] = bnot(w.b[i])
			}
			f.env[x] = r
		case token.SUB:
			w := m.w(f, x.X, in)
			f.env[x] = m.add(m.word(x.Type(), 0), w, true)
		default:
			m.fail(in, "operator %v", x.Op)
		}
	case *ssa.BinOp:
		f.env[x] = m.binop(f, x)
	case *ssa.Store:
		p, ok := m.get(f, x.Addr, in).(bptr)
		if !ok {
			m.fail(in, "a write through something else than a known pointer")
		}
		m.store(p, m.get(f, x.Val, in), in)
	case *ssa.Convert:
		f.env[x] = m.convert(m.get(f, x.X, in), x.X.Type(), x.Type(), in)
	case *ssa.ChangeType:
		f.env[x] = retype(m.get(f, x.X, in), x.Type())
	case *ssa.MakeInterface:
		f.env[x] = berr{"interface"}
	case *ssa.ChangeInterface:
		f.env[x] = m.get(f, x.X, in)
	case *ssa.FieldAddr:
		p, ok := m.get(f, x.X, in).(bptr)
		if !ok || p.idx != nil {
			m.fail(in, "a field of an unknown structure")
		}
		st := p.ty.Underlying().(*types.Struct)
		off := p.off
		for i := 0; i < x.Field; i++ {
			off += cellsOf(st.Field(i).Type())
		}
		f.env[x] = bptr{o: p.o, off: off, ty: st.Field(x.Field).Type()}
	case *ssa.Field:
		a, ok := m.get(f, x.X, in).(bagg)
		if !ok {
			m.fail(in, "a field of an unknown structure")
		}
		st := x.X.Type().Underlying().(*types.Struct)
		off := 0
		for i := 0; i < x.Field; i++ {
			off += cellsOf(st.Field(i).Type())
		}
		ft := st.Field(x.Field).Type()
		if isAgg(ft) {
			f.env[x] = bagg{a.cells[off : off+cellsOf(ft)]}
		} else {
			f.env[x] = a.cells[off]
		}
	case *ssa.IndexAddr:
		f.env[x] = m.indexAddr(f, x)
	case *ssa.Index:
		switch a := m.get(f, x.X, in).(type) {
		case bagg:
			et := x.X.Type().Underlying().(*types.Array).Elem()
			k := cellsOf(et)
			n := len(a.cells) / k
			iw := m.w(f, x.Index, in)
			var rows [][]any
			for i := 0; i < n; i++ {
				rows = append(rows, a.cells[i*k:i*k+k])
			}
			var out []any
			if i, ok := m.known(iw); ok {
				if i < 0 || int(i) >= n {
					m.fail(in, "index %d out of range [0,%d)", i, n)
				}
				out = rows[i]
			} else {
				out = m.lookup(rows, iw.b, in)
			}
			if isAgg(et) {
				f.env[x] = bagg{out}
			} else {
				f.env[x] = out[0]
			}
		case bstring:
			f.env[x] = m.strAt(a, m.w(f, x.Index, in), in)
		default:
			m.fail(in, "an element of something unknown")
		}
	case *ssa.Lookup:
		a, ok := m.get(f, x.X, in).(bstring)
		if !ok {
			m.fail(in, "a map")
		}
		f.env[x] = m.strAt(a, m.w(f, x.Index, in), in)
	case *ssa.Slice:
		f.env[x] = m.slice(f, x)
	case *ssa.MakeSlice:
		n, k := m.num(m.w(f, x.Len, in), in, "the length"), m.num(m.w(f, x.Cap, in), in, "the capacity")
		et := x.Type().Underlying().(*types.Slice).Elem()
		var cells []any
		for i := 0; i < k; i++ {
			cells = append(cells, m.zeros(et)...)
		}
		f.env[x] = bslice{o: m.alloc("made", "local", cells), len: n, cap: k, et: et}
	case *ssa.SliceToArrayPointer:
		s, ok := m.get(f, x.X, in).(bslice)
		at := x.Type().Underlying().(*types.Pointer).Elem()
		if !ok || s.len < int(at.Underlying().(*types.Array).Len()) {
			m.fail(in, "a slice too short")
		}
		f.env[x] = bptr{o: s.o, off: s.off, ty: at}
	case *ssa.Extract:
		f.env[x] = m.get(f, x.Tuple, in).(btuple).v[x.Index]
	case *ssa.MakeClosure:
		b := bfunc{fn: x.Fn.(*ssa.Function)}
		for _, v := range x.Bindings {
			b.bind = append(b.bind, m.get(f, v, in))
		}
		f.env[x] = b
	case *ssa.Call:
		f.env[x] = m.doCall(f, x)
	case *ssa.Range:
		s, ok := m.get(f, x.X, in).(bstring)
		if !ok {
			m.fail(in, "a range over a map")
		}
		f.env[x] = &biter{s: s}
	default:
		m.fail(in, "%T", in)
	}
}

func retype(v any, t types.Type) any {
	switch x := v.(type) {
	case bword:
		if _, s := widthOf(t); s != x.s {
			x.s = s
		}
		return x
	case bptr:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			x.ty = p.Elem()
		}
		return x
	case bslice:
		if p, ok := t.Underlying().(*types.Slice); ok {
			x.et = p.Elem()
		}
		return x
	}
	return v
}

func (m *bitInterp) strAt(a bstring, iw bword, in ssa.Instruction) any {
	if i, ok := m.known(iw); ok {
		if i < 0 || int(i) >= len(a.b) {
			m.fail(in, "index %d out of range [0,%d)", i, len(a.b))
		}
		return bword{b: a.b[i]}
	}
	var rows [][]any
	for _, b := range a.b {
		rows = append(rows, []any{bword{b: b}})
	}
	return m.lookup(rows, iw.b, in)[0]
}

func (m *bitInterp) indexAddr(f *bframe, x *ssa.IndexAddr) any {
	var o *bobj
	var off, n int
	var et types.Type
	switch a := m.get(f, x.X, x).(type) {
	case bptr:
		if a.idx != nil {
			m.fail(x, "an element of an unknown element")
		}
		at := a.ty.Underlying().(*types.Array)
		o, off, n, et = a.o, a.off, int(at.Len()), at.Elem()
	case bslice:
		o, off, n, et = a.o, a.off, a.len, a.et
	case bnil:
		m.fail(x, "index out of range of nothing")
	default:
		m.fail(x, "an element of something unknown")
	}
	k := cellsOf(et)
	iw := m.w(f, x.Index, x)
	if i, ok := m.known(iw); ok {
		if i < 0 || int(i) >= n {
			m.fail(x, "index %d out of range [0,%d)", i, n)
		}
		return bptr{o: o, off: off + int(i)*k, ty: et}
	}
	return bptr{o: o, off: off, idx: iw.b, n: n, step: k, ty: et}
}

func (m *bitInterp) slice(f *bframe, x *ssa.Slice) any {
	lo, hi, mx := 0, -1, -1
	if x.Low != nil {
		lo = m.num(m.w(f, x.Low, x), x, "the start of a slice")
	}
	if x.High != nil {
		hi = m.num(m.w(f, x.High, x), x, "the end of a slice")
	}
	if x.Max != nil {
		mx = m.num(m.w(f, x.Max, x), x, "the end of a slice")
	}
	switch a := m.get(f, x.X, x).(type) {
	case bstring:
		if hi < 0 {
			hi = len(a.b)
		}
		if lo < 0 || hi > len(a.b) || lo > hi {
			m.fail(x, "slice [%d:%d] out of range %d", lo, hi, len(a.b))
		}
		return bstring{a.b[lo:hi]}
	case bslice:
		if hi < 0 {
			hi = a.len
		}
		if mx < 0 {
			mx = a.cap
		}
		if lo < 0 || lo > hi || hi > mx || mx > a.cap {
			m.fail(x, "slice [%d:%d] out of range %d", lo, hi, a.cap)
		}
		return bslice{o: a.o, off: a.off + lo*cellsOf(a.et), len: hi - lo, cap: mx - lo, et: a.et}
	case bptr:
		at, ok := a.ty.Underlying().(*types.Array)
		if !ok || a.idx != nil {
			m.fail(x, "a slice of something unknown")
		}
		n := int(at.Len())
		if hi < 0 {
			hi = n
		}
		if mx < 0 {
			mx = n
		}
		if lo < 0 || lo > hi || hi > mx || mx > n {
			m.fail(x, "slice [%d:%d] out of range %d", lo, hi, n)
		}
		return bslice{o: a.o, off: a.off + lo*cellsOf(at.Elem()), len: hi - lo, cap: mx - lo, et: at.Elem()}
	case bnil:
		if lo == 0 && hi <= 0 {
			return a
		}
	}
	m.fail(x, "a slice of something unknown")
	return nil
}

func (m *bitInterp) convert(v any, from, to types.Type, in ssa.Instruction) any {
	switch x := v.(type) {
	case bword:
		w, s := widthOf(to)
		if w == 0 {
			m.fail(in, "a conversion to %v", to)
		}
		r := bword{b: make([]*bx, w), s: s}
		for i := range r.b {
			switch {
			case i < len(x.b):
				r.b[i] = x.b[i]
			case x.s:
				r.b[i] = x.b[len(x.b)-1]
			default:
				r.b[i] = b0
			}
		}
		return r
	case bstring:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			var cells []any
			for _, b := range x.b {
				cells = append(cells, bword{b: b})
			}
			return bslice{o: m.alloc("converted", "local", cells), len: len(cells), cap: len(cells), et: sl.Elem()}
		}
		return x
	case bslice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			r := bstring{}
			for i := 0; i < x.len; i++ {
				r.b = append(r.b, x.o.cells[x.off+i].(bword).b)
			}
			return r
		}
		return retype(v, to)
	case bnil:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return bstring{}
		}
		return x
	}
	m.fail(in, "a conversion from %v to %v", from, to)
	return nil
}

// add is x + y, or x - y.
func (m *bitInterp) add(x, y bword, sub bool) bword {
	r := bword{b: make([]*bx, len(x.b)), s: x.s}
	c := bbit(sub)
	for i := range x.b {
		b := y.b[i]
		if sub {
			b = bnot(b)
		}
		t := bxor(x.b[i], b)
		r.b[i] = bxor(t, c)
		c = bxor(m.d.and(x.b[i], b), m.d.and(t, c))
	}
	return r
}

// less is x < y.
func (m *bitInterp) less(x, y bword) *bx {
	r := b0
	n := len(x.b)
	for i := 0; i < n; i++ {
		a, b := x.b[i], y.b[i]
		if i == n-1 && x.s {
			a, b = b, a
		}
		// where they differ, this bit decides
		r = m.d.mux(bxor(a, b), b, r)
	}
	return r
}

func (m *bitInterp) binop(f *bframe, x *ssa.BinOp) any {
	l, r := m.get(f, x.X, x), m.get(f, x.Y, x)
	a, ok := l.(bword)
	b, ok2 := r.(bword)
	if !ok || !ok2 {
		return m.binopOther(x, l, r)
	}
	out := bword{b: make([]*bx, len(a.b)), s: a.s}
	bool1 := func(v *bx) bword { return bword{b: []*bx{v}} }
	bits := func(g func(p, q *bx) *bx) bword {
		for i := range a.b {
			out.b[i] = g(a.b[i], b.b[i])
		}
		return out
	}
	switch x.Op {
	case token.AND:
		return bits(m.d.and)
	case token.OR:
		return bits(m.d.or)
	case token.XOR:
		return bits(bxor)
	case token.AND_NOT:
		return bits(func(p, q *bx) *bx { return m.d.and(p, bnot(q)) })
	case token.SHL, token.SHR:
		n := m.num(b, x, "a shift count")
		if n < 0 {
			m.fail(x, "a negative shift count")
		}
		fill := b0
		if x.Op == token.SHR && a.s {
			fill = a.b[len(a.b)-1]
		}
		for i := range a.b {
			j := i + n
			if x.Op == token.SHL {
				j = i - n
			}
			switch {
			case j < 0:
				out.b[i] = b0
			case j >= len(a.b):
				out.b[i] = fill
			default:
				out.b[i] = a.b[j]
			}
		}
		return out
	case token.ADD:
		return m.add(a, b, false)
	case token.SUB:
		return m.add(a, b, true)
	case token.EQL, token.NEQ:
		r := b1
		for i := range a.b {
			r = m.d.and(r, bnot(bxor(a.b[i], b.b[i])))
		}
		if x.Op == token.NEQ {
			r = bnot(r)
		}
		return bool1(r)
	case token.LSS:
		return bool1(m.less(a, b))
	case token.GTR:
		return bool1(m.less(b, a))
	case token.LEQ:
		return bool1(bnot(m.less(b, a)))
	case token.GEQ:
		return bool1(bnot(m.less(a, b)))
	case token.MUL:
		if _, ok := constWord(a); ok {
			a, b = b, a
		}
		k, ok := constWord(b)
		if !ok {
			m.fail(x, "a product of unknown values")
		}
		sum := m.word(x.Type(), 0)
		for i := range a.b {
			if uint64(k)>>uint(i)&1 == 1 {
				sh := bword{b: make([]*bx, len(a.b)), s: a.s}
				for j := range sh.b {
					if j >= i {
						sh.b[j] = a.b[j-i]
					} else {
						sh.b[j] = b0
					}
				}
				sum = m.add(sum, sh, false)
			}
		}
		return sum
	case token.QUO, token.REM:
		k, ok := constWord(b)
		if !ok {
			m.fail(x, "a division by an unknown value")
		}
		if k == 0 {
			m.fail(x, "a division by zero")
		}
		if v, ok := constWord(a); ok {
			if a.s {
				if x.Op == token.QUO {
					return m.word(x.Type(), v/k)
				}
				return m.word(x.Type(), v%k)
			}
			if x.Op == token.QUO {
				return m.word(x.Type(), int64(uint64(v)/uint64(k)))
			}
			return m.word(x.Type(), int64(uint64(v)%uint64(k)))
		}
		if k > 0 && k&(k-1) == 0 && (!a.s || a.b[len(a.b)-1] == b0) {
			n := 0
			for 1<<uint(n) < k {
				n++
			}
			for i := range a.b {
				switch {
				case x.Op == token.REM && i < n:
					out.b[i] = a.b[i]
				case x.Op == token.QUO && i+n < len(a.b):
					out.b[i] = a.b[i+n]
				default:
					out.b[i] = b0
				}
			}
			return out
		}
	}
	m.fail(x, "operator %v on unknown values", x.Op)
	return nil
}

func (m *bitInterp) binopOther(x *ssa.BinOp, l, r any) any {
	isNil := func(v any) (bool, bool) {
		switch v.(type) {
		case bnil:
			return true, true
		case bslice, bptr, bfunc:
			return false, true
		case berr:
			return false, true
		}
		return false, false
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		a, ok := isNil(l)
		b, ok2 := isNil(r)
		if ok && ok2 && (a || b) {
			return bword{b: []*bx{bbit((a && b) == (x.Op == token.EQL))}}
		}
	}
	if s, ok := l.(bstring); ok {
		if t, ok := r.(bstring); ok {
			switch x.Op {
			case token.ADD:
				return bstring{append(append([][]*bx{}, s.b...), t.b...)}
			case token.EQL, token.NEQ:
				e := bbit(len(s.b) == len(t.b))
				for i := range s.b {
					if e != b0 && i < len(t.b) {
						for k := range s.b[i] {
							e = m.d.and(e, bnot(bxor(s.b[i][k], t.b[i][k])))
						}
					}
				}
				if x.Op == token.NEQ {
					e = bnot(e)
				}
				return bword{b: []*bx{e}}
			}
		}
	}
	m.fail(x, "operator %v", x.Op)
	return nil
}

func (m *bitInterp) doCall(f *bframe, x *ssa.Call) any {
	cm := x.Common()
	var args []any
	for _, a := range cm.Args {
		args = append(args, m.get(f, a, x))
	}
	if cm.IsInvoke() {
		m.fail(x, "a call of a method of an interface")
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return m.builtin(b.Name(), args, x)
	}
	if g, ok := cm.Value.(*ssa.Function); ok {
		return m.call(g, args, x)
	}
	if g, ok := m.get(f, cm.Value, x).(bfunc); ok {
		return m.callWith(g.fn, args, g.bind, x)
	}
	m.fail(x, "a call of an unknown function")
	return nil
}

func (m *bitInterp) builtin(name string, args []any, x *ssa.Call) any {
	switch name {
	case "len", "cap":
		n := 0
		switch a := args[0].(type) {
		case bslice:
			n = a.len
			if name == "cap" {
				n = a.cap
			}
		case bstring:
			n = len(a.b)
		case bagg:
			n = int(x.Call.Args[0].Type().Underlying().(*types.Array).Len())
		case bnil:
		case bptr:
			n = int(a.ty.Underlying().(*types.Array).Len())
		default:
			m.fail(x, "the length of something unknown")
		}
		return m.word(x.Type(), int64(n))
	case "copy":
		d, ok := args[0].(bslice)
		if _, isNil := args[0].(bnil); isNil {
			return m.word(x.Type(), 0)
		}
		if !ok {
			break
		}
		n := d.len
		var src []any
		switch s := args[1].(type) {
		case bslice:
			k := cellsOf(s.et)
			n = min(n, s.len)
			src = append([]any{}, s.o.cells[s.off:s.off+n*k]...)
		case bstring:
			n = min(n, len(s.b))
			for _, b := range s.b[:n] {
				src = append(src, bword{b: b})
			}
		case bnil:
			n = 0
		default:
			m.fail(x, "a copy of something unknown")
		}
		for i, v := range src {
			m.store(bptr{o: d.o, off: d.off + i, ty: types.Typ[types.Uint8]}, v, x)
		}
		return m.word(x.Type(), int64(n))
	case "append":
		et := x.Type().Underlying().(*types.Slice).Elem()
		k := cellsOf(et)
		var add []any
		switch s := args[1].(type) {
		case bslice:
			add = append(add, s.o.cells[s.off:s.off+s.len*k]...)
		case bstring:
			for _, b := range s.b {
				add = append(add, bword{b: b})
			}
		case bnil:
		default:
			m.fail(x, "an append of something unknown")
		}
		var base bslice
		switch s := args[0].(type) {
		case bslice:
			base = s
		case bnil:
			base = bslice{o: m.alloc("appended", "local", nil), et: et}
		default:
			m.fail(x, "an append to something unknown")
		}
		if len(add) == 0 {
			return args[0]
		}
		n := base.len + len(add)/k
		if n <= base.cap {
			for i, v := range add {
				m.store(bptr{o: base.o, off: base.off + base.len*k + i, ty: types.Typ[types.Uint8]}, v, x)
			}
			return bslice{o: base.o, off: base.off, len: n, cap: base.cap, et: et}
		}
		cells := append(append([]any{}, base.o.cells[base.off:base.off+base.len*k]...), add...)
		return bslice{o: m.alloc("appended", "local", cells), len: n, cap: n, et: et}
	case "min", "max":
		r := args[0].(bword)
		for _, a := range args[1:] {
			c := m.less(a.(bword), r)
			if name == "max" {
				c = m.less(r, a.(bword))
			}
			r = m.mux(c, a, r, x).(bword)
		}
		return r
	}
	m.fail(x, "builtin %s", name)
	return nil
}

// model knows the functions of the standard library on words and bytes.
func (m *bitInterp) model(fn *ssa.Function, args []any, in ssa.Instruction) (any, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	bytesOf := func(v any) []*bx2 {
		var r []*bx2
		switch s := v.(type) {
		case bslice:
			for i := 0; i < s.len; i++ {
				w, ok := s.o.cells[s.off+i].(bword)
				if !ok {
					m.fail(in, "unknown bytes")
				}
				r = append(r, &bx2{w.b})
			}
		case bstring:
			for _, b := range s.b {
				r = append(r, &bx2{b})
			}
		}
		return r
	}
	switch {
	case name == "errors.New" || name == "fmt.Errorf":
		return berr{"error"}, true
	case strings.HasPrefix(name, "log.Print"):
		return btuple{}, true
	case name == "bytes.IndexByte" || name == "strings.IndexByte":
		c := args[1].(bword)
		for i, b := range bytesOf(args[0]) {
			e := b1
			for k := range b.b {
				e = m.d.and(e, bnot(bxor(b.b[k], c.b[k])))
			}
			v, ok := m.d.decide(e)
			if !ok {
				m.fail(in, "where the byte is depends on the data")
			}
			if v {
				return m.word(types.Typ[types.Int], int64(i)), true
			}
		}
		return m.word(types.Typ[types.Int], -1), true
	case strings.HasPrefix(name, "math/bits.RotateLeft"):
		w := args[0].(bword)
		n := m.num(args[1].(bword), in, "a rotation")
		k := len(w.b)
		r := bword{b: make([]*bx, k)}
		for i := range r.b {
			r.b[i] = w.b[((i-n)%k+k)%k]
		}
		return r, true
	case strings.HasPrefix(name, "(encoding/binary.littleEndian).") || strings.HasPrefix(name, "(encoding/binary.bigEndian)."):
		op := name[strings.LastIndex(name, ".")+1:]
		n := map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[op]
		s, ok := args[1].(bslice)
		if n == 0 || !ok || s.len < n {
			m.fail(in, "%s on %d bytes", op, s.len)
		}
		at := func(i int) int { // cell of byte i of the word
			if strings.Contains(name, "little") {
				return s.off + i
			}
			return s.off + n - 1 - i
		}
		if strings.HasPrefix(op, "Put") {
			v := args[2].(bword)
			for i := 0; i < n; i++ {
				m.store(bptr{o: s.o, off: at(i), ty: types.Typ[types.Uint8]}, bword{b: append([]*bx{}, v.b[8*i:8*i+8]...)}, in)
			}
			return btuple{}, true
		}
		r := bword{}
		for i := 0; i < n; i++ {
			r.b = append(r.b, s.o.cells[at(i)].(bword).b...)
		}
		return r, true
	}
	return nil, false
}

type bx2 struct{ b []*bx }
