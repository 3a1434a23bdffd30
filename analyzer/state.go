package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Obj is an abstract memory object.
type Obj struct {
	id    int
	ty    types.Type // type of the content; element type for arrays
	arr   bool
	n     int64 // array length, -1 unknown
	init  *Term // initial content; nil means zero
	local bool  // allocated by the analysed code
	site  ssa.Instruction
	key   *Term // pointer term it was created for
	glob  *ssa.Global
}

// ArrV is the content of an array object: a base sequence with overwritten cells.
type ArrV struct {
	owner int
	base  *Term
	cells map[int64]*Term
}

// Facts are the branch conditions known to hold.
type Facts struct {
	parent *Facts
	cond   *Term
	depth  int
	memo   map[*Term]*Term
}

// Trace is the sequence of observable effects on the way to a point.
type Trace struct {
	parent *Trace
	item   any // *Event or *LoopItem
	depth  int
}

type Event struct {
	ID       int
	Kind     string // "call", "invoke", "go", "store", "mapset"
	Name     string
	Args     []*Term
	Content  []*Term // content of pointed-to data at the time of the call
	Res      []*Term
	Instr    ssa.Instruction
	Fn       *ssa.Function
	Facts    *Facts
	Deferred bool
	Stack    []ssa.Instruction
}

type LoopItem struct {
	ID     int
	Header *ssa.BasicBlock
	Fn     *ssa.Function
	Phis   []LoopPhi
	Iters  []LoopIter
	Mod    []LoopMod
	Iter   *Term
	Facts  *Facts // facts at loop entry
	Fresh0 int64  // terms with a higher number are made inside the loop
	Exits  []LoopExit
}

// LoopExit is one way out of a loop, in terms of the iteration it happens in.
type LoopExit struct {
	Kind  outKind
	Guard *Term // holds exactly when the loop is left this way (nil: not known)
	Ret   []*Term
	Facts *Facts
	Items []any // of the last, partial iteration
	St    *State
}

type LoopPhi struct {
	Instr *ssa.Phi
	Init  *Term
	Val   *Term
	Exact bool // Val is init + step*iteration
}
type LoopMod struct {
	Obj   int
	Field int   // the field changed, -1: the whole object
	Init  *Term // nil when array
	Val   *Term
	Ty    types.Type // of the field
	Name  string
}
type LoopIter struct {
	Guard *Term // when the iteration goes this way
	Items []any
	Next  []*Term
	Facts *Facts
	Mem   map[int]any
	St    *State // at the end of the iteration
}

type deferred struct {
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	instr ssa.Instruction
}

type State struct {
	id     int
	mem    map[int]any // *Term or *ArrV
	facts  *Facts
	trace  *Trace
	env    map[ssa.Value]*Term
	defers []deferred
}

var stateCnt int

func newState() *State {
	stateCnt++
	return &State{id: stateCnt, mem: map[int]any{}, env: map[ssa.Value]*Term{}}
}

func (s *State) clone() *State {
	stateCnt++
	n := &State{id: stateCnt, facts: s.facts, trace: s.trace, mem: make(map[int]any, len(s.mem)), env: make(map[ssa.Value]*Term, len(s.env))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	// s gives up in-place mutation rights as well
	stateCnt++
	s.id = stateCnt
	return n
}

func cloneEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (s *State) push(item any) {
	d := 0
	if s.trace != nil {
		d = s.trace.depth
	}
	s.trace = &Trace{parent: s.trace, item: item, depth: d + 1}
}

// items lists the trace from (excluding) stop to t.
func items(t, stop *Trace) []any {
	var out []any
	for ; t != nil && t != stop; t = t.parent {
		out = append(out, t.item)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (f *Facts) list() []*Term {
	var out []*Term
	for ; f != nil; f = f.parent {
		out = append(out, f.cond)
	}
	return out
}

func (f *Facts) add(c *Term) *Facts {
	if c == True {
		return f
	}
	if c.Op == "ite" {
		if c.Args[2] == False {
			return f.add(c.Args[0]).add(c.Args[1])
		}
		if c.Args[1] == False {
			return f.add(Not(c.Args[0])).add(c.Args[2])
		}
	}
	for g := f; g != nil; g = g.parent {
		if g.cond == c {
			return f
		}
	}
	d := 0
	if f != nil {
		d = f.depth
	}
	return &Facts{parent: f, cond: c, depth: d + 1}
}

// commonFacts is the longest shared prefix.
func commonFacts(a, b *Facts) *Facts {
	for a != b {
		da, db := 0, 0
		if a != nil {
			da = a.depth
		}
		if b != nil {
			db = b.depth
		}
		if da >= db {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	return a
}
