package main

import (
	"go/types"
	"sort"
)

// Linear reasoning over the facts of a program point: a small
// Fourier–Motzkin procedure on integer inequalities, as used by
// bounds-check elimination.

type lin struct {
	c  map[*Term]int64 // monomial (as poly term) -> coefficient
	k  int64
	ok bool
}

func linOf(p *Term) lin {
	l := lin{c: map[*Term]int64{}, ok: true}
	for _, m := range monos(p) {
		switch len(m.vars) {
		case 0:
			l.k += m.c
		case 1:
			l.c[m.vars[0]] += m.c
		default:
			l.c[mkPoly([]mono{{1, m.vars}})] += m.c
		}
		lim := int64(1) << 40
		if len(m.vars) == 0 {
			lim = 1 << 52
		}
		if m.c > lim || m.c < -lim {
			l.ok = false
		}
	}
	return l
}

// Prove tells whether cond follows from the facts.
func Prove(f *Facts, cond *Term) bool {
	return proveD(f, cond, 0)
}

func proveD(f *Facts, cond *Term, depth int) bool {
	cond = simp(cond, f)
	switch cond.Op {
	case "true":
		return true
	case "false":
		return contradictory(f)
	case "ge0":
		return linProve(f, cond.Args[0], depth)
	case "eq0":
		return linProve(f, cond.Args[0], depth) && linProve(f, Neg(cond.Args[0]), depth)
	case "not":
		if e := cond.Args[0]; e.Op == "eq0" {
			return linProve(f, Sub(e.Args[0], Int(1)), depth) || linProve(f, Sub(Neg(e.Args[0]), Int(1)), depth)
		}
	case "ite":
		if depth < 6 {
			c, a, b := cond.Args[0], cond.Args[1], cond.Args[2]
			if b == False {
				return proveD(f, c, depth+1) && proveD(f.add(c), a, depth+1)
			}
			if a == False {
				return proveD(f, Not(c), depth+1) && proveD(f.add(Not(c)), b, depth+1)
			}
			return proveD(f.add(c), a, depth+1) && proveD(f.add(Not(c)), b, depth+1)
		}
	}
	// case split on a disjunctive fact
	return contradictory(f)
}

func contradictory(f *Facts) bool {
	for g := f; g != nil; g = g.parent {
		if g.cond == False {
			return true
		}
	}
	return linProve(f, Int(-1), 2)
}

// linProve: facts |- p >= 0
func linProve(f *Facts, p *Term, depth int) bool {
	if lo, _ := rangeOf(p); lo >= 0 {
		return true
	}
	var cons []lin
	var wraps []*Term
	var splits []*Term
	addCon := func(q *Term) {
		l := linOf(q)
		if l.ok {
			cons = append(cons, l)
		}
	}
	for g := f; g != nil; g = g.parent {
		switch g.cond.Op {
		case "ge0":
			addCon(g.cond.Args[0])
		case "eq0":
			addCon(g.cond.Args[0])
			addCon(Neg(g.cond.Args[0]))
			if a := g.cond.Args[0]; a.Op == "and" && a.Args[1].isInt() && a.Args[1].N > 0 {
				// v & mask == 0, the mask covering all upper bits of v
				m := a.Args[1].N
				low := m & -m
				if lo, hi := rangeOf(a.Args[0]); lo >= 0 && hi <= m+low-1 && (m+low)&m == 0 {
					addCon(Sub(Int(low-1), a.Args[0]))
				}
			}
		case "ite":
			splits = append(splits, g.cond)
		case "not":
			if e := g.cond.Args[0]; e.Op == "eq0" {
				// p != 0 with a one-sided range
				lo, hi := rangeOf(e.Args[0])
				if lo >= 0 {
					addCon(Sub(e.Args[0], Int(1)))
				} else if hi <= 0 {
					addCon(Sub(Neg(e.Args[0]), Int(1)))
				} else {
					splits = append(splits, mk("ite", types.Typ[types.Bool], "", 0, Ge0(Sub(e.Args[0], Int(1))), True, Ge0(Sub(Neg(e.Args[0]), Int(1)))))
				}
			}
		}
	}
	goal := linOf(Sub(Neg(p), Int(1)))
	if !goal.ok {
		return false
	}
	// relevance closure
	rel := map[*Term]bool{}
	for v := range goal.c {
		rel[v] = true
	}
	seenAtom := map[*Term]bool{}
	var atomCons func(v *Term)
	atomCons = func(v *Term) {
		if seenAtom[v] {
			return
		}
		seenAtom[v] = true
		lo, hi := rangeOf(v)
		if lo > ninf && abs64(lo) <= 1<<48 {
			addCon(Sub(v, Int(lo)))
		}
		if hi < inf && abs64(hi) <= 1<<48 {
			addCon(Sub(Int(hi), v))
		}
		switch v.Op {
		case "idx":
			// idx < len(x)
			addCon(Sub(Sub(SeqLen(v.Args[0]), v), Int(1)))
		case "len":
			if v.Args[0].Op == "cstr" || v.Args[0].Op == "trim" || v.Args[0].Op == "trimr" || v.Args[0].Op == "triml" {
				addCon(Sub(SeqLen(v.Args[0].Args[0]), v))
			}
			if v.Args[0].Op == "split" {
				addCon(Sub(v, Int(1)))
			}
		case "cap":
			addCon(Sub(v, mk("len", types.Typ[types.Int], "", 0, v.Args[0])))
		case "div":
			// q = a/s with a>=0, s>0:  s*q <= a
			a, s := v.Args[0], v.Args[1]
			if depth < 4 && linProve(f, a, depth+2) && linProve(f, Sub(s, Int(1)), depth+2) {
				addCon(Sub(a, Mul(s, v)))
				addCon(Sub(a, v))
				addCon(v)
				if s.isInt() {
					addCon(Sub(Add(Mul(s, v), Int(s.N-1)), a))
				}
				// product lemma: n < q  =>  s*(n+1) <= a, for each n compared with q
				for g := f; g != nil; g = g.parent {
					if g.cond.Op == "ge0" {
						q := g.cond.Args[0] // q = v - n - 1 (+...) >= 0
						l := linOf(q)
						for w, k := range l.c {
							// the quotient is not larger than a, so it fits
							if _, hi := typeRange(w.Ty); k == 1 && w.Op == "wrap" && w.Args[0] == v && hi == inf {
								q = Add(Sub(q, w), v)
								l = linOf(q)
								break
							}
						}
						if l.c[v] == 1 {
							n := Sub(Sub(v, q), Int(1)) // n <= v-1
							if !n.isInt() {
								addCon(Sub(a, Mul(s, Add(n, Int(1)))))
							}
						}
					}
				}
			}
		case "mod":
			a, s := v.Args[0], v.Args[1]
			if depth < 2 && linProve(f, a, depth+2) && linProve(f, Sub(s, Int(1)), depth+2) {
				addCon(v)
				addCon(Sub(Sub(s, Int(1)), v))
				addCon(Sub(a, v))
			}
		case "poly":
			// product of two nonnegative factors
			if depth < 2 {
				all := true
				for _, m := range v.mono {
					for _, x := range m.vars {
						if lo, _ := rangeOf(x); lo < 0 && !linProve(f, x, depth+2) {
							all = false
						}
					}
				}
				if all {
					addCon(v)
					if len(v.mono) == 1 && len(v.mono[0].vars) == 2 {
						// x*y >= x when y>=1
						x, y := v.mono[0].vars[0], v.mono[0].vars[1]
						if linProve(f, Sub(y, Int(1)), depth+2) {
							addCon(Sub(v, x))
						}
						if linProve(f, Sub(x, Int(1)), depth+2) {
							addCon(Sub(v, y))
						}
					}
				}
			}
		case "wrap":
			wraps = append(wraps, v)
			if depth < 6 {
				tl, th := typeRange(v.Ty)
				in := v.Args[0]
				ok := true
				if tl != ninf {
					ok = linProve(f, Sub(in, Int(tl)), depth+2)
				} else {
					ok = linProve(f, Add(in, Int(1<<48)), depth+2)
				}
				if ok {
					if th != inf {
						ok = linProve(f, Sub(Int(th), in), depth+2)
					} else {
						ok = linProve(f, Sub(Int(1<<48), in), depth+2)
					}
				}
				if ok {
					addCon(Sub(v, in))
					addCon(Sub(in, v))
				}
			}
		}
	}
	if len(goal.c) == 0 {
		for _, c := range cons {
			for v := range c.c {
				rel[v] = true
			}
		}
	}
	for i := 0; i < 6; i++ {
		n := len(rel)
		// atoms first
		var vs []*Term
		for v := range rel {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		for _, v := range vs {
			atomCons(v)
			if v.Op == "poly" {
				for _, m := range v.mono {
					for _, x := range m.vars {
						rel[x] = true
					}
				}
			}
		}
		for _, c := range cons {
			hit := false
			for v := range c.c {
				if rel[v] {
					hit = true
				}
			}
			if hit {
				for v := range c.c {
					rel[v] = true
				}
			} else {
				for v := range c.c {
					if v.Op == "div" && sharesAtom(v.Args[0], rel) {
						rel[v] = true
					}
				}
			}
		}
		if len(rel) == n {
			break
		}
	}
	var use []lin
	use = append(use, goal)
	for _, c := range cons {
		hit := len(c.c) == 0
		for v := range c.c {
			if rel[v] {
				hit = true
			}
		}
		if hit {
			use = append(use, c)
		}
	}
	if fmUnsat(use) {
		return true
	}
	if depth < 3 {
		for _, s := range splits {
			// split on the gate of a disjunction
			c := s.Args[0]
			if !sharesAtom(s, rel) {
				continue
			}
			f1 := f.without(s).add(c).add(s.Args[1])
			f2 := f.without(s).add(Not(c)).add(s.Args[2])
			if linProve(f1, simp(p, f1), depth+1) && linProve(f2, simp(p, f2), depth+1) {
				return true
			}
		}
	}
	return false
}

func sharesAtom(t *Term, rel map[*Term]bool) bool {
	hit := false
	walk(t, func(x *Term) bool {
		if rel[x] {
			hit = true
		}
		return !hit
	})
	return hit
}

func (f *Facts) without(c *Term) *Facts {
	var l []*Term
	for g := f; g != nil; g = g.parent {
		if g.cond != c {
			l = append(l, g.cond)
		}
	}
	var r *Facts
	for i := len(l) - 1; i >= 0; i-- {
		r = &Facts{parent: r, cond: l[i], depth: len(l) - i}
	}
	return r
}

func fmUnsat(cs []lin) bool {
	work := make([]lin, 0, len(cs))
	key := func(l lin) string { return linKey(l) }
	seen := map[string]bool{}
	push := func(l lin) bool { // returns true on contradiction
		for v, c := range l.c {
			if c == 0 {
				delete(l.c, v)
			}
		}
		if len(l.c) == 0 {
			return l.k < 0
		}
		var g int64
		for _, c := range l.c {
			g = gcd(g, abs64(c))
		}
		if g > 1 {
			for v := range l.c {
				l.c[v] /= g
			}
			k := l.k / g
			if l.k%g != 0 && l.k < 0 {
				k--
			}
			l.k = k
		}
		s := key(l)
		if !seen[s] {
			seen[s] = true
			work = append(work, l)
		}
		return false
	}
	for _, c := range cs {
		n := lin{c: map[*Term]int64{}, k: c.k}
		for v, x := range c.c {
			n.c[v] = x
		}
		if push(n) {
			return true
		}
	}
	for steps := 0; steps < 40; steps++ {
		// choose the variable with the fewest products
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, l := range work {
			for v, c := range l.c {
				if c > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		var best *Term
		bc := 1 << 30
		var vs []*Term
		for v := range pos {
			vs = append(vs, v)
		}
		for v := range neg {
			if pos[v] == 0 {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		for _, v := range vs {
			if x := pos[v] * neg[v]; x < bc {
				bc, best = x, v
			}
		}
		if best == nil {
			return false
		}
		var p, n, rest []lin
		for _, l := range work {
			switch c := l.c[best]; {
			case c > 0:
				p = append(p, l)
			case c < 0:
				n = append(n, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(p)*len(n) > 4000 {
			return false
		}
		work = rest
		for _, a := range p {
			for _, b := range n {
				ca, cb := a.c[best], -b.c[best]
				if g := gcd(ca, cb); g > 1 {
					ca, cb = ca/g, cb/g
				}
				if ca > 1<<31 || cb > 1<<31 {
					continue
				}
				l := lin{c: map[*Term]int64{}}
				big := false
				for v, c := range a.c {
					l.c[v] += c * cb
				}
				for v, c := range b.c {
					l.c[v] += c * ca
				}
				l.k = a.k*cb + b.k*ca
				for _, c := range l.c {
					if abs64(c) > 1<<50 {
						big = true
					}
				}
				if big || abs64(a.k) > 1<<61/cb || abs64(b.k) > 1<<61/ca {
					continue
				}
				delete(l.c, best)
				if push(l) {
					return true
				}
			}
		}
		if len(work) > 3000 {
			return false
		}
	}
	return false
}

func linKey(l lin) string {
	var ks []*Term
	for v := range l.c {
		ks = append(ks, v)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	b := make([]byte, 0, 64)
	for _, v := range ks {
		b = appendInt(b, int64(v.id))
		b = append(b, '*')
		b = appendInt(b, l.c[v])
		b = append(b, ' ')
	}
	b = appendInt(b, l.k)
	return string(b)
}

func appendInt(b []byte, n int64) []byte {
	if n < 0 {
		b = append(b, '-')
		n = -n
	}
	var t [20]byte
	i := len(t)
	for {
		i--
		t[i] = byte('0' + n%10)
		n /= 10
		if n == 0 {
			break
		}
	}
	return append(b, t[i:]...)
}

// ---------------------------------------------------------------- simplification under facts

var iteMemo = map[*Term]bool{}

func hasIte(t *Term) bool {
	if v, ok := iteMemo[t]; ok {
		return v
	}
	r := t.Op == "ite" || t.Op == "typeis" || t.Op == "wrap"
	if !r && t.Ty == types.Typ[types.Bool] {
		r = true
	}
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasIte(a)
	}
	iteMemo[t] = r
	return r
}

// simp rewrites t with the gates decided by the facts resolved.
func simp(t *Term, f *Facts) *Term {
	if f == nil || !hasIte(t) {
		return t
	}
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := simp0(t, f)
	f.memo[t] = r
	return r
}

func simp0(t *Term, f *Facts) *Term {
	if t.Ty == types.Typ[types.Bool] && t.Op != "ite" {
		if d := decideFacts(t, f); d != nil {
			return d
		}
	}
	if t.Op == "ite" {
		c := simp(t.Args[0], f)
		if c == True {
			return simp(t.Args[1], f)
		}
		if c == False {
			return simp(t.Args[2], f)
		}
		return Ite(c, simp(t.Args[1], f), simp(t.Args[2], f))
	}
	return rebuild(t, func(a *Term) *Term { return simp(a, f) })
}

func decideFacts(t *Term, f *Facts) *Term {
	nt := Not(t)
	for g := f; g != nil; g = g.parent {
		c := g.cond
		if c == t || implies(c, t) {
			return True
		}
		if c == nt || implies(c, nt) {
			return False
		}
		if c.Op == "not" && c.Args[0] == t {
			return False
		}
		if t.Op == "typeis" && c.Op == "typeis" && c.Args[0] == t.Args[0] && c.S != t.S && !isIfaceName(t) && !isIfaceName(c) {
			return False
		}
		if t.Op == "typeis" && c.Op == "eq" && c.Args[0] == t.Args[0] && c.Args[1] == Nil {
			return False
		}
		if t.Op == "eq" && t.Args[1] == Nil && c.Op == "typeis" && c.Args[0] == t.Args[0] {
			return False
		}
		if p := linkDecide(t, c); p != nil {
			return p
		}
	}
	return nil
}

// linkDecide knows relations between standard predicates on errors.
func linkDecide(t, c *Term) *Term {
	// isnotexist(e), isexist(e), errIs(e,..) imply e != nil
	if c.Op == "eq" && c.Args[1] == Nil {
		switch t.Op {
		case "isnotexist", "isexist", "errIs":
			if t.Args[0] == c.Args[0] {
				if t.Op == "errIs" && t.Args[1] == Nil {
					return nil
				}
				return False
			}
		}
	}
	if t.Op == "eq" && t.Args[1] == Nil {
		switch c.Op {
		case "isnotexist", "isexist":
			if c.Args[0] == t.Args[0] {
				return False
			}
		case "errIs":
			if c.Args[0] == t.Args[0] && c.Args[1] != Nil {
				return False
			}
		case "eq":
			// e equals a non-nil global error
			for i := 0; i < 2; i++ {
				if c.Args[i] == t.Args[0] && nonNil(c.Args[1-i]) {
					return False
				}
			}
		}
	}
	if t.Op == "eq" && c.Op == "eq" && t != c {
		// equal to two different known values
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if t.Args[i] == c.Args[j] {
					x, y := t.Args[1-i], c.Args[1-j]
					if x.Op == "str" && y.Op == "str" && x != y {
						return False
					}
					if x.Op == "errglob" && y.Op == "errglob" && x != y {
						return False
					}
					if x == Nil && nonNil(y) || y == Nil && nonNil(x) {
						return False
					}
				}
			}
		}
	}
	if t.Op == "eq0" && c.Op == "eq" && t.Args[0].Op == "len" {
		for i := 0; i < 2; i++ {
			if c.Args[i] == t.Args[0].Args[0] && c.Args[1-i].Op == "str" {
				return Bool(c.Args[1-i].S == "")
			}
		}
	}
	if t.Op == "eq" && c.Op == "eq0" && c.Args[0].Op == "len" {
		for i := 0; i < 2; i++ {
			if t.Args[i] == c.Args[0].Args[0] && t.Args[1-i].Op == "str" && t.Args[1-i].S != "" {
				return False
			}
		}
	}
	return nil
}

func isIfaceName(t *Term) bool { return t.N == 1 }

// rebuild reconstructs t over mapped arguments through the normalising constructors.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	if t.Op == "poly" {
		r := Int(0)
		ch := false
		for _, m := range t.mono {
			x := Int(m.c)
			for _, v := range m.vars {
				w := f(v)
				if w != v {
					ch = true
				}
				x = Mul(x, w)
			}
			r = Add(r, x)
		}
		if !ch {
			return t
		}
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = f(a)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return remake(t, args)
}

func remake(t *Term, a []*Term) *Term {
	switch t.Op {
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "ge0":
		return Ge0(a[0])
	case "eq0":
		return Eq0(a[0])
	case "eq":
		return Eq(a[0], a[1])
	case "not":
		return Not(a[0])
	case "wrap":
		return Wrap(t.Ty, a[0])
	case "byteOf":
		return ByteOf(a[0], int(t.N))
	case "shr":
		return Shr(a[0], a[1])
	case "and":
		return And(a[0], a[1])
	case "or":
		return Or(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "at":
		return At(a[0], a[1])
	case "sel":
		return ElemAt(a[0], a[1], t.Ty)
	case "sub":
		return SubSeq(a[0], a[1], a[2])
	case "cat":
		return Cat(a...)
	case "cells":
		return Cells(a)
	case "cstr":
		return Cstr(a[0])
	case "len":
		return SeqLen(a[0])
	case "fld":
		return Fld(a[0], int(t.N), t.Ty, t.S)
	}
	return mk(t.Op, t.Ty, t.S, t.N, a...)
}
