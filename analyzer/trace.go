package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A property automaton over traces. States are strings; a loop is entered any
// number of times, to a fixpoint.
type autoStep func(S string, ev *Event, f *Facts) []string

func walkAuto(its []any, S map[string]bool, f *Facts, step autoStep) map[string]bool {
	for _, it := range its {
		switch x := it.(type) {
		case *Event:
			n := map[string]bool{}
			for s := range S {
				for _, t := range step(s, x, f) {
					n[t] = true
				}
			}
			S = n
		case *LoopItem:
			R := map[string]bool{}
			for s := range S {
				R[s] = true
			}
			for {
				k := len(R)
				for _, l := range x.Iters {
					for s := range walkAuto(l.Items, R, l.Facts, step) {
						R[s] = true
					}
				}
				if len(R) == k {
					break
				}
			}
			S = R
		}
	}
	return S
}

// eachEvent visits every event of a trace, with the facts that hold when its
// section of the trace is finished. depth counts enclosing loop bodies.
func eachEvent(its []any, f *Facts, depth int, visit func(ev *Event, f *Facts, depth int)) {
	for _, it := range its {
		switch x := it.(type) {
		case *Event:
			visit(x, f, depth)
		case *LoopItem:
			for _, l := range x.Iters {
				eachEvent(l.Items, l.Facts, depth+1, visit)
			}
		}
	}
}

func outEvents(o Out) []*Event {
	var evs []*Event
	eachEvent(items(o.st.trace, nil), o.st.facts, 0, func(ev *Event, _ *Facts, _ int) { evs = append(evs, ev) })
	return evs
}

var errnoName = "syscall.Errno"

// evErr is the condition that the event reported no failure (nil if it cannot fail).
func evErr(ev *Event) (*Term, *Term) {
	for i := len(ev.Res) - 1; i >= 0; i-- {
		r := ev.Res[i]
		if r.Ty == nil {
			continue
		}
		if isErrorType(r.Ty) {
			return r, Eq(r, Nil)
		}
		if r.Ty.String() == errnoName {
			return r, Eq0(r)
		}
	}
	return nil, nil
}

// unwrapArg sees through interfaces.
func unwrapArg(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// lib lists the exported operations of the library packages.
var libPkgs = map[string]bool{"": true, "cache": true, "crypt": true, "filelock": true, "formosabbs": true, "pttbbs": true, "pttbbs/internal/fnv": true}

func (c *Check) exported(pkgs map[string]bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Parent() != nil || fn.Blocks == nil || fn.Pkg == nil || fn.Synthetic != "" {
			continue
		}
		if !pkgs[relPkg(fn.Pkg.Pkg.Path())] || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
	return out
}

// opaqueLocks makes lock operations visible in traces.
func (c *Check) opaqueLocks(e *Engine) {
	for _, fn := range c.p.Funcs {
		if fn.Pkg != nil && relPkg(fn.Pkg.Pkg.Path()) == "filelock" && fn.Parent() == nil {
			e.opaque[fnKey(fn)] = true
		}
	}
}

// errResult is the last result if it is an error.
func errResult(fn *ssa.Function, o Out) *Term {
	rs := fn.Signature.Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) || len(o.ret) < rs.Len() {
		return nil
	}
	return o.ret[rs.Len()-1]
}

// splitRet splits an outcome by its error result: the facts under which it is
// a success and those under which it is a failure (nil if impossible).
func splitRet(fn *ssa.Function, o Out) (ok, fail *Facts) {
	r := errResult(fn, o)
	if r == nil {
		return o.st.facts, nil
	}
	r = simp(r, o.st.facts)
	return addCond(o.st.facts, isNilT(r)), addCond(o.st.facts, Not(isNilT(r)))
}

// isNilT is the condition that an error value is nil.
func isNilT(r *Term) *Term {
	return dist(r, func(t *Term) *Term {
		switch t.Op {
		case "nil":
			return True
		case "errorf", "errnew", "errglob", "iface":
			return False
		}
		return Eq(t, Nil)
	})
}

func addCond(f *Facts, c *Term) *Facts {
	c = simp(c, f)
	if c == False {
		return nil
	}
	f = saturate(f.add(c))
	if f == nil {
		f = &Facts{cond: True, depth: 1}
	}
	if contradictory(f) {
		return nil
	}
	return f
}

// saturate resolves gated facts whose gate is decided by the other facts.
func saturate(f *Facts) *Facts {
	for round := 0; round < 4; round++ {
		changed := false
		for _, x := range f.list() {
			for x.Op == "ite" {
				g := simp(x.Args[0], f)
				if g == True || Prove(f, x.Args[0]) {
					x = x.Args[1]
				} else if g == False || Prove(f, Not(x.Args[0])) {
					x = x.Args[2]
				} else if x.Args[2] == False {
					f = f.add(x.Args[0])
					changed = true
					x = x.Args[1]
				} else if x.Args[1] == False {
					f = f.add(Not(x.Args[0]))
					changed = true
					x = x.Args[2]
				} else {
					break
				}
				if x == False || simp(x, f) == False {
					return f.add(False)
				}
				if x.Op != "ite" && !Prove(f, x) {
					f = f.add(x)
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return f
}

// proveC proves a gated condition.
func proveC(f *Facts, c *Term) bool {
	if proveCd(f, c, 0) {
		return true
	}
	for q := f; q != nil; q = q.parent {
		if q.cond.Op == "ite" {
			return addCond(f, Not(c)) == nil
		}
	}
	return false
}

func proveCd(f *Facts, c *Term, d int) bool {
	c = simp(c, f)
	if c == True || contradictory(f) {
		return true
	}
	if c == False {
		return false
	}
	if Prove(f, c) {
		return true
	}
	if d < 14 {
		if g := firstGate(c); g != nil {
			for _, k := range []*Term{g, Not(g)} {
				if Prove(f, Not(k)) {
					continue
				}
				if !proveCd(f.add(k), c, d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func shortName(ev *Event) string {
	n := ev.Name
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// retTypesHave tells whether the function returns (pointers to) the object.
func reachable(e *Engine, st *State, t *Term, seen map[*Term]bool, visit func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	visit(t)
	for _, a := range t.Args {
		reachable(e, st, a, seen, visit)
	}
	if t.Op == "ref" || t.Op == "slice" {
		r := t
		if t.Op == "slice" {
			r = t.Args[0]
		}
		if r.Op == "ref" {
			if k := e.objs[r.N].key; k != nil {
				reachable(e, st, k, seen, visit)
			}
			v := e.get(st, int(r.N))
			switch v := v.(type) {
			case *Term:
				reachable(e, st, v, seen, visit)
			case *ArrV:
				if v != nil {
					if v.base != nil {
						reachable(e, st, v.base, seen, visit)
					}
					for _, k := range sortedKeys(v.cells) {
						reachable(e, st, v.cells[k], seen, visit)
					}
				}
			}
		}
	}
	if ob := e.byKey[t]; ob != nil {
		if v, ok := st.mem[ob.id].(*Term); ok {
			reachable(e, st, v, seen, visit)
		}
	}
}

func constInt(t *Term) (int64, bool) {
	if t.isInt() {
		return t.N, true
	}
	return 0, false
}

func sortStrings(s []string) { sort.Strings(s) }

var _ = fmt.Sprint
var _ types.Type
