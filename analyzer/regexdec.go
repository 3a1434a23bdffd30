package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// Decisions about regular expressions: the compiled program of a pattern that
// the source holds as a constant is run, as an automaton, over all lines of a
// specification at once. Nothing is matched against sample text.

// A reSpec is an unambiguous description of lines; its groups mark places.
// Place 2k is where group k begins, 2k+1 where it ends.
type reProg struct {
	re  string
	p   *syntax.Prog
	err error
}

func compileRe(re string) *reProg {
	r, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return &reProg{re: re, err: err}
	}
	p, err := syntax.Compile(r.Simplify())
	return &reProg{re, p, err}
}

func (r *reProg) lookaround() bool {
	for _, in := range r.p.Inst {
		if in.Op == syntax.InstEmptyWidth {
			return true
		}
	}
	return false
}

// alphabet returns one rune of every class the programs cannot tell apart.
func alphabet(ps ...*reProg) []rune {
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true, 0x80: true}
	for _, p := range ps {
		for _, in := range p.p.Inst {
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				for i := 0; i+1 < len(in.Rune); i += 2 {
					cut[in.Rune[i]] = true
					cut[in.Rune[i+1]+1] = true
				}
				if len(in.Rune) == 1 {
					r0 := in.Rune[0]
					cut[r0], cut[r0+1] = true, true
					for r := unicode.SimpleFold(r0); r != r0; r = unicode.SimpleFold(r) {
						cut[r], cut[r+1] = true, true
					}
				}
			}
		}
	}
	var l []rune
	for r := range cut {
		if r <= unicode.MaxRune {
			l = append(l, r)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// a reThread is one way the pattern may match; its captures are the marks of
// the places where they were set (0: a place without a mark).
type reThread struct {
	pc   int
	caps []uint32
}

type reState struct {
	spec    int // place in the specification, before its choices
	list    []reThread
	matched []uint32 // nil: no match yet
	prev    rune     // -1: at the beginning
	text    string   // how this state is reached
}

func (s *reState) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d|%v", s.spec, s.prev, s.matched)
	for _, t := range s.list {
		fmt.Fprintf(&b, "|%d%v", t.pc, t.caps)
	}
	return b.String()
}

// specSteps follows the choices of the specification from pc at one place;
// visit gets the marks of the place and the instruction that goes on.
func specSteps(p *syntax.Prog, pc int, flag syntax.EmptyOp, marks uint32, visit func(pc int, in *syntax.Inst, marks uint32)) {
	in := &p.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		specSteps(p, int(in.Out), flag, marks, visit)
		specSteps(p, int(in.Arg), flag, marks, visit)
	case syntax.InstCapture:
		specSteps(p, int(in.Out), flag, marks|1<<in.Arg, visit)
	case syntax.InstNop:
		specSteps(p, int(in.Out), flag, marks, visit)
	case syntax.InstEmptyWidth:
		if syntax.EmptyOp(in.Arg)&^flag == 0 {
			specSteps(p, int(in.Out), flag, marks, visit)
		}
	case syntax.InstFail:
	default:
		visit(pc, in, marks)
	}
}

// addThread follows the choices of the pattern in order of preference.
func addThread(p *syntax.Prog, list []reThread, seen map[int]bool, pc int, caps []uint32, flag syntax.EmptyOp, marks uint32) []reThread {
	if seen[pc] {
		return list
	}
	seen[pc] = true
	in := &p.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		list = addThread(p, list, seen, int(in.Out), caps, flag, marks)
		return addThread(p, list, seen, int(in.Arg), caps, flag, marks)
	case syntax.InstCapture:
		if int(in.Arg) < len(caps) {
			caps = append([]uint32{}, caps...)
			caps[in.Arg] = marks
		}
		return addThread(p, list, seen, int(in.Out), caps, flag, marks)
	case syntax.InstNop:
		return addThread(p, list, seen, int(in.Out), caps, flag, marks)
	case syntax.InstEmptyWidth:
		if syntax.EmptyOp(in.Arg)&^flag == 0 {
			return addThread(p, list, seen, int(in.Out), caps, flag, marks)
		}
		return list
	case syntax.InstFail:
		return list
	}
	return append(list, reThread{pc, caps})
}

const unsetCap = 1 << 31

// tagMatch runs the pattern over every line of the specification. For each
// capture it returns the places it is at in every line; unmatched is a line
// in which the pattern finds nothing. ok is false when the search is too big.
func tagMatch(spec, pat *reProg) (caps []uint32, unmatched *string, n int, ok bool) {
	ncap := pat.p.NumCap
	if ncap < 2 {
		ncap = 2
	}
	sigma := alphabet(spec, pat)
	start := &reState{spec: spec.p.Start, prev: -1}
	seen := map[string]bool{start.key(): true}
	queue := []*reState{start}
	accept := func(m []uint32, text string) {
		n++
		if m == nil {
			if unmatched == nil {
				unmatched = &text
			}
			return
		}
		if caps == nil {
			caps = append([]uint32{}, m...)
			return
		}
		for i := range caps {
			caps[i] &= m[i]
		}
	}
	for len(queue) > 0 {
		if len(seen) > 400000 {
			return nil, nil, n, false
		}
		s := queue[0]
		queue = queue[1:]
		step := func(r rune) {
			flag := syntax.EmptyOpContext(s.prev, r)
			specSteps(spec.p, spec.p.Start*0+s.spec, flag, 0, func(pc int, in *syntax.Inst, marks uint32) {
				if r < 0 && in.Op != syntax.InstMatch || r >= 0 && (in.Op == syntax.InstMatch || !matchRune(in, r)) {
					return
				}
				if in.Op == syntax.InstMatch {
					// the end of the specification is a place as well
					marks |= 2
				}
				if s.prev < 0 {
					marks |= 1
				}
				// the threads at this place
				var list []reThread
				vis := map[int]bool{}
				for _, t := range s.list {
					list = addThread(pat.p, list, vis, t.pc, t.caps, flag, marks)
				}
				matched := s.matched
				if matched == nil {
					c0 := make([]uint32, ncap)
					for i := range c0 {
						c0[i] = unsetCap
					}
					c0[0] = marks
					list = addThread(pat.p, list, vis, pat.p.Start, c0, flag, marks)
				}
				var next []reThread
				pcs := map[int]bool{}
				for _, t := range list {
					ti := &pat.p.Inst[t.pc]
					if ti.Op == syntax.InstMatch {
						matched = append([]uint32{}, t.caps...)
						matched[1] = marks
						break
					}
					if r >= 0 && matchRune(ti, r) && !pcs[int(ti.Out)] {
						pcs[int(ti.Out)] = true
						next = append(next, reThread{int(ti.Out), t.caps})
					}
				}
				if r < 0 {
					accept(matched, s.text)
					return
				}
				ns := &reState{spec: int(in.Out), list: next, matched: matched, prev: prevClass(pat, spec, r), text: s.text + string(r)}
				if k := ns.key(); !seen[k] {
					seen[k] = true
					queue = append(queue, ns)
				}
			})
		}
		step(-1)
		for _, r := range sigma {
			step(r)
		}
	}
	return caps, unmatched, n, true
}

// prevClass keeps of the last rune what an assertion can see.
func prevClass(a, b *reProg, r rune) rune {
	if !a.lookaround() && !b.lookaround() {
		return 'x'
	}
	switch {
	case r == '\n':
		return '\n'
	case r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z':
		return 'x'
	}
	return ' '
}

func matchRune(in *syntax.Inst, r rune) bool {
	switch in.Op {
	case syntax.InstRune, syntax.InstRune1:
		return in.MatchRune(r)
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return r != '\n'
	}
	return false
}

// reSubset: every text in which a finds something is one in which b does.
// The counterexample is a text.
func reSubset(a, b *reProg) (counter string, states int, ok bool) {
	sigma := alphabet(a, b)
	type st struct {
		a, b   []int
		ma, mb bool
		prev   rune
		text   string
	}
	key := func(s *st) string { return fmt.Sprint(s.a, s.b, s.ma, s.mb, s.prev) }
	start := &st{prev: -1}
	seen := map[string]bool{key(start): true}
	queue := []*st{start}
	run := func(p *reProg, set []int, m bool, flag syntax.EmptyOp, r rune) ([]int, bool) {
		if m {
			return nil, true
		}
		vis := map[int]bool{}
		var list []reThread
		for _, pc := range set {
			list = addThread(p.p, list, vis, pc, nil, flag, 0)
		}
		list = addThread(p.p, list, vis, p.p.Start, nil, flag, 0)
		nx := map[int]bool{}
		for _, t := range list {
			in := &p.p.Inst[t.pc]
			if in.Op == syntax.InstMatch {
				return nil, true
			}
			if r >= 0 && matchRune(in, r) {
				nx[int(in.Out)] = true
			}
		}
		var l []int
		for k := range nx {
			l = append(l, k)
		}
		sort.Ints(l)
		return l, false
	}
	for len(queue) > 0 {
		if len(seen) > 400000 {
			return "", len(seen), false
		}
		s := queue[0]
		queue = queue[1:]
		flag := syntax.EmptyOpContext(s.prev, -1)
		_, ma := run(a, s.a, s.ma, flag, -1)
		_, mb := run(b, s.b, s.mb, flag, -1)
		if ma && !mb {
			return s.text, len(seen), true
		}
		for _, r := range sigma {
			flag := syntax.EmptyOpContext(s.prev, r)
			n := &st{prev: prevClass(a, b, r), text: s.text + string(r)}
			n.a, n.ma = run(a, s.a, s.ma, flag, r)
			n.b, n.mb = run(b, s.b, s.mb, flag, r)
			if n.mb {
				continue
			}
			if k := key(n); !seen[k] {
				seen[k] = true
				queue = append(queue, n)
			}
		}
	}
	return "", len(seen), true
}
