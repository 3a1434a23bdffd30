package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// A Term is a hash-consed node of the value graph: the abstract value of an
// SSA register or memory cell, as an expression over the entry values of the
// analysed function. Two program points hold the same abstract value exactly
// when they hold the same *Term.
type Term struct {
	Op   string
	Args []*Term
	S    string
	N    int64
	Ty   types.Type
	id   int
	mono []mono // for Op "poly"
}

type mono struct {
	c    int64
	vars []*Term
}

var (
	internTab = map[string]*Term{}
	termCnt   = 0
	tyNames   = map[types.Type]string{}
)

func tyName(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := tyNames[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	tyNames[t] = s
	return s
}

func mk(op string, ty types.Type, s string, n int64, args ...*Term) *Term {
	var b []byte
	b = append(b, op...)
	b = append(b, 0)
	b = append(b, s...)
	b = append(b, 0)
	b = strconv.AppendInt(b, n, 36)
	for _, a := range args {
		if a == nil {
			panic("nil arg in " + op)
		}
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 36)
	}
	b = append(b, 0)
	b = append(b, tyName(ty)...)
	k := string(b)
	if t, ok := internTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{Op: op, Args: args, S: s, N: n, Ty: ty, id: termCnt}
	internTab[k] = t
	return t
}

var (
	True  = mk("true", types.Typ[types.Bool], "", 0)
	False = mk("false", types.Typ[types.Bool], "", 0)
	Nil   = mk("nil", nil, "", 0)
	Bot   = mk("undef", nil, "", 0)
)

func Int(n int64) *Term  { return mk("int", nil, "", n) }
func Str(s string) *Term { return mk("str", nil, s, 0) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func (t *Term) isInt() bool { return t.Op == "int" }

var freshCnt int64

func Fresh(op string, ty types.Type, args ...*Term) *Term {
	freshCnt++
	return mk(op, ty, "", freshCnt, args...)
}

// ---------------------------------------------------------------- integers

const inf = math.MaxInt64
const ninf = math.MinInt64

func satAdd(a, b int64) int64 {
	if a == inf || b == inf {
		return inf
	}
	if a == ninf || b == ninf {
		return ninf
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return inf
	}
	if a < 0 && b < 0 && s >= 0 {
		return ninf
	}
	return s
}
func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	if a == inf || a == ninf || b == inf || b == ninf {
		if neg {
			return ninf
		}
		return inf
	}
	p := a * b
	if p/b != a || (a == -1 && b == ninf) || (b == -1 && a == ninf) {
		if neg {
			return ninf
		}
		return inf
	}
	return p
}

func monoKey(vs []*Term) string {
	var b []byte
	for _, v := range vs {
		b = strconv.AppendInt(b, int64(v.id), 36)
		b = append(b, ' ')
	}
	return string(b)
}

func monos(t *Term) []mono {
	switch t.Op {
	case "int":
		if t.N == 0 {
			return nil
		}
		return []mono{{t.N, nil}}
	case "poly":
		return t.mono
	}
	return []mono{{1, []*Term{t}}}
}

func mkPoly(ms []mono) *Term {
	agg := map[string]*mono{}
	for _, m := range ms {
		k := monoKey(m.vars)
		if x, ok := agg[k]; ok {
			x.c += m.c
		} else {
			c := m
			agg[k] = &c
		}
	}
	var keys []string
	for k, m := range agg {
		if m.c != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return Int(0)
	}
	if len(keys) == 1 {
		m := agg[keys[0]]
		if len(m.vars) == 0 {
			return Int(m.c)
		}
		if m.c == 1 && len(m.vars) == 1 {
			return m.vars[0]
		}
	}
	var sb strings.Builder
	var out []mono
	for _, k := range keys {
		fmt.Fprintf(&sb, "%d*%s|", agg[k].c, k)
		out = append(out, *agg[k])
	}
	var args []*Term
	for _, m := range out {
		args = append(args, m.vars...)
	}
	t := mk("poly", nil, sb.String(), 0, args...)
	t.mono = out
	return t
}

func Add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return Int(a.N + b.N)
	}
	if a.isInt() && a.N == 0 {
		return b
	}
	if b.isInt() && b.N == 0 {
		return a
	}
	return mkPoly(append(append([]mono{}, monos(a)...), monos(b)...))
}
func Scale(a *Term, k int64) *Term {
	if k == 1 {
		return a
	}
	var out []mono
	for _, m := range monos(a) {
		out = append(out, mono{m.c * k, m.vars})
	}
	return mkPoly(out)
}
func Neg(a *Term) *Term    { return Scale(a, -1) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func Mul(a, b *Term) *Term {
	var out []mono
	for _, x := range monos(a) {
		for _, y := range monos(b) {
			vs := append(append([]*Term{}, x.vars...), y.vars...)
			sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
			out = append(out, mono{x.c * y.c, vs})
		}
	}
	return mkPoly(out)
}

func basicOf(ty types.Type) *types.Basic {
	if ty == nil {
		return nil
	}
	b, _ := ty.Underlying().(*types.Basic)
	return b
}

func isIntType(ty types.Type) bool {
	b := basicOf(ty)
	return b != nil && b.Info()&types.IsInteger != 0
}

// bits, signed
func intInfo(ty types.Type) (int, bool) {
	b := basicOf(ty)
	if b == nil {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func typeRange(ty types.Type) (int64, int64) {
	if !isIntType(ty) {
		return ninf, inf
	}
	w, s := intInfo(ty)
	if s {
		if w == 64 {
			return ninf, inf
		}
		return -(1 << (w - 1)), 1<<(w-1) - 1
	}
	if w == 64 {
		return 0, inf
	}
	return 0, 1<<w - 1
}

const maxLen = int64(1) << 47

var rangeMemo = map[*Term][2]int64{}

func rangeOf(t *Term) (int64, int64) {
	if t.isInt() {
		return t.N, t.N
	}
	if r, ok := rangeMemo[t]; ok {
		return r[0], r[1]
	}
	lo, hi := rangeOf0(t)
	rangeMemo[t] = [2]int64{lo, hi}
	return lo, hi
}

func rangeOf0(t *Term) (int64, int64) {
	switch t.Op {
	case "poly":
		lo, hi := int64(0), int64(0)
		for _, m := range t.mono {
			l, h := m.c, m.c
			for _, v := range m.vars {
				vl, vh := rangeOf(v)
				a, b, c, d := satMul(l, vl), satMul(l, vh), satMul(h, vl), satMul(h, vh)
				l = min(min(a, b), min(c, d))
				h = max(max(a, b), max(c, d))
			}
			lo, hi = satAdd(lo, l), satAdd(hi, h)
		}
		return lo, hi
	case "at", "byteOf":
		return 0, 255
	case "len", "cap", "iter", "rdlen", "idxany":
		return 0, maxLen
	case "idx":
		return -1, maxLen
	case "ite":
		a, b := rangeOf(t.Args[1])
		c, d := rangeOf(t.Args[2])
		return min(a, c), max(b, d)
	case "and":
		lo, hi := int64(ninf), int64(inf)
		if t.Args[1].isInt() && t.Args[1].N >= 0 {
			lo, hi = 0, t.Args[1].N
		}
		al, ah := rangeOf(t.Args[0])
		if al >= 0 {
			lo = 0
			hi = min(hi, ah)
		}
		return lo, hi
	case "or", "xor":
		al, ah := rangeOf(t.Args[0])
		bl, bh := rangeOf(t.Args[1])
		if al >= 0 && bl >= 0 && ah != inf && bh != inf {
			m := int64(1)
			for m <= ah || m <= bh {
				m <<= 1
			}
			return 0, m - 1
		}
	case "shr":
		al, ah := rangeOf(t.Args[0])
		if t.Args[1].isInt() && t.Args[1].N >= 0 && t.Args[1].N < 64 && al != ninf {
			k := uint(t.Args[1].N)
			if ah == inf {
				return al >> k, inf >> k
			}
			return al >> k, ah >> k
		}
		if al >= 0 {
			return 0, ah
		}
	case "div":
		al, ah := rangeOf(t.Args[0])
		if t.Args[1].isInt() && t.Args[1].N > 0 {
			if al == ninf {
				al = ninf
			} else {
				al = al / t.Args[1].N
			}
			if ah != inf {
				ah = ah / t.Args[1].N
			}
			return al, ah
		}
		if al >= 0 {
			bl, _ := rangeOf(t.Args[1])
			if bl >= 0 {
				return 0, ah
			}
		}
	case "mod":
		al, _ := rangeOf(t.Args[0])
		_, bh := rangeOf(t.Args[1])
		if bh != inf && bh > 0 {
			if al >= 0 {
				return 0, bh - 1
			}
			return -(bh - 1), bh - 1
		}
		if al >= 0 {
			return 0, inf
		}
	case "fsize":
		return 0, 1 << 40 // files are smaller than 1 TiB
	case "rand":
		if t.Args[0].isInt() {
			return 0, t.Args[0].N - 1
		}
		return 0, inf
	}
	if t.Ty != nil {
		return typeRange(t.Ty)
	}
	return ninf, inf
}

func fits(p *Term, ty types.Type) bool {
	if p.Ty != nil && p.Op != "poly" && p.Op != "int" && isIntType(p.Ty) {
		if types.Identical(p.Ty.Underlying(), ty.Underlying()) {
			return true
		}
	}
	lo, hi := rangeOf(p)
	tl, th := typeRange(ty)
	if p.isInt() {
		return lo >= tl && hi <= th
	}
	w, s := intInfo(ty)
	if w == 64 {
		if s {
			return lo > ninf && hi < inf
		}
		return lo >= 0 && hi < inf
	}
	return lo >= tl && hi <= th
}

// Wrap is the value of the mathematical integer p converted to ty.
func Wrap(ty types.Type, p *Term) *Term {
	if fits(p, ty) {
		return p
	}
	w, signed := intInfo(ty)
	if w == 64 && p.Op != "poly" && isIntType(p.Ty) {
		if w2, s2 := intInfo(p.Ty); w2 == 64 && s2 == signed && p.Op != "ite" && !p.isInt() {
			return p
		}
	}
	if p.isInt() {
		if w == 64 {
			return mk("bigint", ty, fmt.Sprint(uint64(p.N)), 0)
		}
		v := uint64(p.N) & (1<<uint(w) - 1)
		if signed && v>>(uint(w)-1) == 1 {
			return Int(int64(v) - 1<<uint(w))
		}
		return Int(int64(v))
	}
	if p.Op == "ite" {
		return Ite(p.Args[0], Wrap(ty, p.Args[1]), Wrap(ty, p.Args[2]))
	}
	if p.Op == "wrap" {
		w2, _ := intInfo(p.Ty)
		if w <= w2 {
			return Wrap(ty, p.Args[0])
		}
	}
	if w < 64 {
		// coefficients modulo 2^w
		var out []mono
		ch := false
		for _, m := range monos(p) {
			c := m.c % (1 << uint(w))
			if c != m.c && (c == 0 || c > 0 == (m.c > 0)) && c == 0 {
				ch = true
				continue
			}
			out = append(out, m)
		}
		if ch {
			return Wrap(ty, mkPoly(out))
		}
	}
	if w == 8 && !signed {
		return ByteOf(p, 0)
	}
	return mk("wrap", ty, "", 0, p)
}

// ByteOf is byte k (little endian, two's complement) of the integer x.
func ByteOf(x *Term, k int) *Term {
	switch x.Op {
	case "int":
		return Int(int64(uint64(x.N) >> uint(8*k) & 0xff))
	case "ite":
		return Ite(x.Args[0], ByteOf(x.Args[1], k), ByteOf(x.Args[2], k))
	case "wrap":
		w, _ := intInfo(x.Ty)
		if 8*k < w {
			return ByteOf(x.Args[0], k)
		}
	case "shr":
		if x.Args[1].isInt() && x.Args[1].N%8 == 0 {
			return ByteOf(x.Args[0], k+int(x.Args[1].N/8))
		}
	}
	lo, hi := rangeOf(x)
	if lo >= 0 && hi <= 255 && k == 0 {
		return x
	}
	if lo >= 0 && k < 7 && hi < 1<<uint(8*k) {
		return Int(0)
	}
	if x.Op == "poly" {
		// x = low + 2^(8k)*b + 2^(8k+8)*rest, low in [0,2^8k), b in [0,255]
		var low, mid []mono
		ok := true
		for _, m := range x.mono {
			switch {
			case k < 7 && m.c%(1<<uint(8*k+8)) == 0:
			case m.c%(1<<uint(8*k)) == 0:
				mid = append(mid, mono{m.c >> uint(8*k), m.vars})
			default:
				low = append(low, m)
			}
		}
		if ll, lh := rangeOf(mkPoly(low)); ll < 0 || lh >= 1<<uint(8*k) {
			ok = false
		}
		md := mkPoly(mid)
		if ml, mh := rangeOf(md); ok && ml >= 0 && mh <= 255 {
			return md
		}
	}
	return mk("byteOf", nil, "", int64(k), x)
}

func distI(t *Term) (c, a, b *Term, ok bool) {
	if t.Op == "ite" {
		return t.Args[0], t.Args[1], t.Args[2], true
	}
	return
}

func Shr(a, b *Term) *Term {
	if b.isInt() && b.N >= 0 && b.N < 63 {
		if b.N == 0 {
			return a
		}
		if a.isInt() {
			return Int(a.N >> uint(b.N))
		}
		k := int64(1) << uint(b.N)
		if a.Op == "shr" && a.Args[1].isInt() {
			return Shr(a.Args[0], Int(a.Args[1].N+b.N))
		}
		var hi, lo []mono
		for _, m := range monos(a) {
			if m.c%k == 0 {
				hi = append(hi, mono{m.c / k, m.vars})
			} else {
				lo = append(lo, m)
			}
		}
		l, h := rangeOf(mkPoly(lo))
		if l >= 0 && h < k {
			return mkPoly(hi)
		}
		// the top byte
		if b.N%8 == 0 && b.N < 56 {
			if l, h := rangeOf(a); l >= 0 && h < int64(1)<<uint(b.N+8) && a.Op != "and" && a.Op != "or" {
				return ByteOf(a, int(b.N/8))
			}
		}
	}
	return mk("shr", nil, "", 0, a, b)
}

func And(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return Int(a.N & b.N)
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.N == 0 {
			return Int(0)
		}
		lo, hi := rangeOf(a)
		if b.N > 0 && b.N&(b.N+1) == 0 {
			k := b.N + 1
			if lo >= 0 && hi <= b.N {
				return a
			}
			var low []mono
			for _, m := range monos(a) {
				if m.c%k != 0 {
					low = append(low, mono{(m.c%k + k) % k, m.vars})
				}
			}
			lp := mkPoly(low)
			if l, h := rangeOf(lp); l >= 0 && h < k {
				return lp
			}
			if b.N == 255 {
				return ByteOf(a, 0)
			}
		}
		if a.Op == "and" && a.Args[1].isInt() {
			return And(a.Args[0], Int(a.Args[1].N&b.N))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a == b {
		return a
	}
	return mk("and", nil, "", 0, a, b)
}

func Or(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return Int(a.N | b.N)
	}
	for i := 0; i < 2; i++ {
		if b.isInt() && b.N == 0 {
			return a
		}
		// a < 2^k and b multiple of 2^k
		lo, hi := rangeOf(a)
		if lo >= 0 && hi < 1<<62 {
			k := int64(1)
			for k <= hi {
				k <<= 1
			}
			ok := true
			for _, m := range monos(b) {
				if m.c%k != 0 {
					ok = false
				}
			}
			if bl, _ := rangeOf(b); ok && bl >= 0 {
				return Add(a, b)
			}
			if b.Op == "wrap" && b.Ty != nil {
				// the same for a product cut to its type: the low bits are not touched
				ok := true
				for _, m := range monos(b.Args[0]) {
					if m.c%k != 0 {
						ok = false
					}
				}
				if _, th := typeRange(b.Ty); ok && th != inf && k < th {
					return Wrap(b.Ty, Add(a, b.Args[0]))
				}
			}
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a == b {
		return a
	}
	return mk("or", nil, "", 0, a, b)
}

func Div(a, b *Term) *Term {
	if b.isInt() && b.N != 0 {
		if a.isInt() {
			return Int(a.N / b.N)
		}
		if b.N == 1 {
			return a
		}
		if b.N > 0 {
			all := true
			var out []mono
			for _, m := range monos(a) {
				if m.c%b.N != 0 {
					all = false
				}
				out = append(out, mono{m.c / b.N, m.vars})
			}
			if all {
				return mkPoly(out)
			}
			if q := divParts(a, b.N); q != nil {
				if lo, _ := rangeOf(a); lo >= 0 {
					return q
				}
			}
		}
	}
	return mk("div", nil, "", 0, a, b)
}

// divParts is the quotient of a non-negative value by k, when all but a rest
// below k is divisible by k.
func divParts(a *Term, k int64) *Term {
	var out, low []mono
	for _, m := range monos(a) {
		r := (m.c%k + k) % k
		if q := (m.c - r) / k; q != 0 {
			out = append(out, mono{q, m.vars})
		}
		if r != 0 {
			low = append(low, mono{r, m.vars})
		}
	}
	if l, h := rangeOf(mkPoly(low)); l >= 0 && h < k {
		return mkPoly(out)
	}
	return nil
}

func Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.N != 0 {
		return Int(a.N % b.N)
	}
	if b.isInt() && b.N > 0 {
		lo, hi := rangeOf(a)
		if lo >= 0 && hi < b.N {
			return a
		}
		if lo >= 0 && b.N&(b.N-1) == 0 {
			return And(a, Int(b.N-1))
		}
		if lo >= 0 {
			var low []mono
			for _, m := range monos(a) {
				if m.c%b.N != 0 {
					low = append(low, mono{(m.c%b.N + b.N) % b.N, m.vars})
				}
			}
			lp := mkPoly(low)
			if l, h := rangeOf(lp); l >= 0 && h < b.N {
				return lp
			}
		}
	}
	return mk("mod", nil, "", 0, a, b)
}

// ---------------------------------------------------------------- booleans

func Not(c *Term) *Term {
	switch c.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return c.Args[0]
	case "ge0":
		return Ge0(Sub(Int(-1), c.Args[0]))
	case "ite":
		return Ite(c.Args[0], Not(c.Args[1]), Not(c.Args[2]))
	}
	return mk("not", types.Typ[types.Bool], "", 0, c)
}

func findIte(p *Term) *Term {
	for _, m := range monos(p) {
		for _, v := range m.vars {
			if v.Op == "ite" {
				return v
			}
		}
	}
	return nil
}

func substPoly(p, v, w *Term) *Term {
	r := Int(0)
	for _, m := range monos(p) {
		x := Int(m.c)
		for _, a := range m.vars {
			if a == v {
				x = Mul(x, w)
			} else {
				x = Mul(x, a)
			}
		}
		r = Add(r, x)
	}
	return r
}

// Ge0 is the condition p >= 0.
func Ge0(p *Term) *Term {
	lo, hi := rangeOf(p)
	if lo >= 0 {
		return True
	}
	if hi < 0 {
		return False
	}
	if v := findIte(p); v != nil {
		return Ite(v.Args[0], Ge0(substPoly(p, v, v.Args[1])), Ge0(substPoly(p, v, v.Args[2])))
	}
	// divide by gcd of coefficients
	var g int64
	for _, m := range monos(p) {
		if len(m.vars) > 0 {
			g = gcd(g, abs64(m.c))
		}
	}
	if g > 1 {
		var out []mono
		for _, m := range monos(p) {
			if len(m.vars) > 0 {
				out = append(out, mono{m.c / g, m.vars})
			} else {
				c := m.c
				q := c / g
				if c%g != 0 && c < 0 {
					q--
				}
				out = append(out, mono{q, nil})
			}
		}
		return Ge0(mkPoly(out))
	}
	return mk("ge0", types.Typ[types.Bool], "", 0, p)
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func Lt(a, b *Term) *Term { return Ge0(Sub(Sub(b, a), Int(1))) }
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }

// Eq0 is the condition p == 0.
func Eq0(p *Term) *Term {
	if p.isInt() {
		return Bool(p.N == 0)
	}
	lo, hi := rangeOf(p)
	if lo > 0 || hi < 0 {
		return False
	}
	if v := findIte(p); v != nil {
		return Ite(v.Args[0], Eq0(substPoly(p, v, v.Args[1])), Eq0(substPoly(p, v, v.Args[2])))
	}
	if lo == 0 && p.Op == "len" {
		return mk("eq0", types.Typ[types.Bool], "", 0, p)
	}
	ms := monos(p)
	for _, m := range ms {
		if len(m.vars) > 0 {
			if m.c < 0 {
				p = Neg(p)
			}
			break
		}
	}
	return mk("eq0", types.Typ[types.Bool], "", 0, p)
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "ref", "iface", "errorf", "errnew", "closure", "func", "slice", "mapobj", "nonnil", "errglob":
		return true
	}
	return false
}

// Eq of two non-integer terms.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if a.Op == "str" && b.Op == "str" {
		return Bool(a.S == b.S)
	}
	if a.Op == "nil" && nonNil(b) || b.Op == "nil" && nonNil(a) {
		return False
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	if a.Op == "str" && a.S == "" {
		a, b = b, a
	}
	if b.Op == "str" && b.S == "" {
		return Eq0(SeqLen(a))
	}
	if a.Op == "errglob" && b.Op == "errglob" || a.Op == "errglob" && nonNil(b) || b.Op == "errglob" && nonNil(a) {
		return False
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.S != b.S {
			return False
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if (a.Op == "true" || a.Op == "false" || b.Op == "true" || b.Op == "false") && (a.Ty != nil || b.Ty != nil) {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return Not(b)
		}
		return Not(a)
	}
	if a.Op == "ref" && b.Op == "ref" && len(a.Args) == 0 && len(b.Args) == 0 {
		return Bool(a.N == b.N)
	}
	if la, lb := SeqLen0(a), SeqLen0(b); la != nil && lb != nil {
		if e := Eq0(Sub(la, lb)); e == False {
			return False
		}
	}
	if a.id > b.id && b.Op != "nil" {
		a, b = b, a
	}
	return mk("eq", types.Typ[types.Bool], "", 0, a, b)
}

// constDiff: p - q when it is a constant
func constDiff(p, q *Term) (int64, bool) {
	d := Sub(p, q)
	if d.isInt() {
		return d.N, true
	}
	return 0, false
}

// implies is a cheap sound test that c implies d.
func implies(c, d *Term) bool {
	if c == d || d == True || c == False {
		return true
	}
	if c.Op == "eq0" && d.Op == "ge0" {
		if n, ok := constDiff(d.Args[0], c.Args[0]); ok && n >= 0 {
			return true
		}
		if n, ok := constDiff(d.Args[0], Neg(c.Args[0])); ok && n >= 0 {
			return true
		}
	}
	if c.Op == "ge0" && d.Op == "ge0" {
		if n, ok := constDiff(d.Args[0], c.Args[0]); ok && n >= 0 {
			return true
		}
	}
	return false
}

// Ite is the gated merge of a and b: a when c holds, b otherwise.
func Ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	case a == Bot:
		return b
	case b == Bot:
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if c.Op == "ge0" {
		// orient: choose the representation with the smaller id
		n := Not(c)
		if n.Op == "ge0" && n.id < c.id {
			c, a, b = n, b, a
		}
	}
	if c.Op == "ite" {
		// conjunction and disjunction shaped conditions
		if c.Args[2] == False && c.Args[1] != True {
			return Ite(c.Args[0], Ite(c.Args[1], a, b), b)
		}
		if c.Args[1] == False {
			return Ite(c.Args[0], b, Ite(c.Args[2], a, b))
		}
		if c.Args[1] == True {
			return Ite(c.Args[0], a, Ite(c.Args[2], a, b))
		}
		if c.Args[2] == True {
			return Ite(c.Args[0], Ite(c.Args[1], a, b), a)
		}
		return Ite(c.Args[0], Ite(c.Args[1], a, b), Ite(c.Args[2], a, b))
	}
	a = assumeIn(a, c, true)
	b = assumeIn(b, c, false)
	if a == b {
		return a
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return Not(c)
	}
	if a == True && implies(c, b) {
		return b
	}
	if b == False && implies(a, c) && a != True {
		return a
	}
	if b == True && implies(Not(c), a) {
		return a
	}
	if a == False && implies(b, Not(c)) {
		return b
	}
	if a.Op == "slice" && b.Op == "slice" && a.Args[0] == b.Args[0] {
		return mk("slice", a.Ty, "", 0, a.Args[0], Ite(c, a.Args[1], b.Args[1]), Ite(c, a.Args[2], b.Args[2]), Ite(c, a.Args[3], b.Args[3]))
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.Args) == len(b.Args) {
		var fs []*Term
		for i := range a.Args {
			fs = append(fs, Ite(c, a.Args[i], b.Args[i]))
		}
		return mk("struct", a.Ty, "", 0, fs...)
	}
	if a.Op == "iface" && b.Op == "iface" && a.S == b.S {
		return mk("iface", a.Ty, a.S, 0, Ite(c, a.Args[0], b.Args[0]))
	}
	if c.Op == "eq0" && seqLike(a) && seqLike(b) {
		// empty-or-not gates of one text
		if r := eq0SeqGate(c, a, b); r != nil {
			return r
		}
	}
	if r := cstrGate(c, a, b); r != nil {
		return r
	}
	ty := a.Ty
	if ty == nil {
		ty = b.Ty
	}
	if ty == nil && (a.Op == "true" || a.Op == "false" || b.Op == "true" || b.Op == "false") {
		ty = types.Typ[types.Bool]
	}
	return mk("ite", ty, "", 0, c, a, b)
}

// eq0SeqGate: (len(x)==0 ? "" : x) is x
func eq0SeqGate(c, a, b *Term) *Term {
	if c.Args[0] == SeqLen(b) && a.Op == "str" && a.S == "" {
		return b
	}
	return nil
}

// cstrGate recognises (index(x,0) == -1 ? x : x[:index(x,0)]) as cstr(x).
func cstrGate(c, a, b *Term) *Term {
	var id *Term
	neg := false
	switch c.Op {
	case "eq0":
		id = Sub(c.Args[0], Int(1))
		if id.Op != "idx" {
			return nil
		}
	case "ge0":
		p := c.Args[0]
		if p.Op == "idx" { // idx >= 0
			id, neg = p, true
		} else if q := Sub(Int(-1), p); q.Op == "idx" { // idx <= -1
			id = q
		} else if q := Neg(p); q.Op == "idx" && false {
			id = q
		}
	}
	if id == nil || id.Op != "idx" || id.S != "byte" || !id.Args[1].isInt() || id.Args[1].N != 0 {
		return nil
	}
	if neg {
		a, b = b, a
	}
	x := id.Args[0]
	if a == x && b == SubSeq(x, Int(0), id) {
		return Cstr(x)
	}
	// the length form, used for slices
	if a == SeqLen(x) && b == id {
		return SeqLen(Cstr(x))
	}
	return nil
}

func assumeIn(t, c *Term, v bool) *Term {
	if t.Op == "ite" {
		d := decide(t.Args[0], c, v)
		if d == True {
			return assumeIn(t.Args[1], c, v)
		}
		if d == False {
			return assumeIn(t.Args[2], c, v)
		}
		x, y := assumeIn(t.Args[1], c, v), assumeIn(t.Args[2], c, v)
		if x != t.Args[1] || y != t.Args[2] {
			return Ite(t.Args[0], x, y)
		}
		return t
	}
	if t.Ty == types.Typ[types.Bool] {
		return decide(t, c, v)
	}
	return t
}

// decide condition t knowing that c has value v
func decide(t, c *Term, v bool) *Term {
	k := c
	if !v {
		k = Not(c)
	}
	if k.Op == "not" && t == k.Args[0] {
		return False
	}
	if implies(k, t) {
		return True
	}
	if implies(k, Not(t)) {
		return False
	}
	return t
}

// ---------------------------------------------------------------- sequences (strings and byte contents)

func seqLike(t *Term) bool { return SeqLen0(t) != nil }

func SeqLen0(t *Term) *Term {
	switch t.Op {
	case "str":
		return Int(int64(len(t.S)))
	case "sub":
		return t.Args[2]
	case "asbytes":
		return SeqLen(t.Args[0])
	case "cat":
		l := Int(0)
		for _, a := range t.Args {
			l = Add(l, SeqLen(a))
		}
		return l
	case "cells":
		return Int(int64(len(t.Args)))
	case "zeros":
		return t.Args[0]
	case "uslice":
		return t.Args[1]
	case "upd":
		return SeqLen(t.Args[0])
	case "chr":
		_, hi := rangeOf(t.Args[0])
		if hi < 128 {
			return Int(1)
		}
		return mk("len", types.Typ[types.Int], "", 0, t)
	case "ite":
		a, b := SeqLen0(t.Args[1]), SeqLen0(t.Args[2])
		if a == nil || b == nil {
			return nil
		}
		return Ite(t.Args[0], a, b)
	case "content":
		return mk("len", types.Typ[types.Int], "", 0, t.Args[0])
	case "hash":
		return Int(t.N & 0xff)
	case "lmem", "rd":
		if len(t.Args) > 0 {
			return t.Args[0]
		}
		return mk("len", types.Typ[types.Int], "", 0, t)
	case "cstr", "enc5", "dec5", "trim", "trimr", "triml", "dec", "fmtv", "line", "strf", "elemstr", "oldlen", "rep":
		return mk("len", types.Typ[types.Int], "", 0, t)
	}
	if t.Ty != nil {
		if b := basicOf(t.Ty); b != nil && b.Info()&types.IsString != 0 {
			return mk("len", types.Typ[types.Int], "", 0, t)
		}
	}
	return nil
}

func SeqLen(t *Term) *Term {
	if l := SeqLen0(t); l != nil {
		return l
	}
	if t.Op == "nil" {
		return Int(0)
	}
	return mk("len", types.Typ[types.Int], "", 0, t)
}

func Cat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.Op == "cat" {
			out = append(out, p.Args...)
			continue
		}
		if p.Op == "str" && p.S == "" || p.Op == "cells" && len(p.Args) == 0 || p.Op == "nil" {
			continue
		}
		out = append(out, p)
	}
	// fuse adjacent literals
	var f []*Term
	for _, p := range out {
		if n := len(f); n > 0 {
			l := f[n-1]
			if l.Op == "str" && p.Op == "str" {
				f[n-1] = Str(l.S + p.S)
				continue
			}
			if l.Op == "cells" && p.Op == "cells" {
				f[n-1] = Cells(append(append([]*Term{}, l.Args...), p.Args...))
				continue
			}
			if l.Op == "sub" && p.Op == "sub" && l.Args[0] == p.Args[0] && Add(l.Args[1], l.Args[2]) == p.Args[1] {
				f[n-1] = SubSeq(l.Args[0], l.Args[1], Add(l.Args[2], p.Args[2]))
				continue
			}
		}
		f = append(f, p)
	}
	if len(f) == 0 {
		return Str("")
	}
	if len(f) == 1 {
		return f[0]
	}
	return mk("cat", nil, "", 0, f...)
}

func Cells(cs []*Term) *Term {
	all := true
	var b []byte
	for _, c := range cs {
		if !c.isInt() {
			all = false
			break
		}
		b = append(b, byte(c.N))
	}
	if all {
		return Str(string(b))
	}
	// consecutive bytes of one sequence
	if cs[0].Op == "at" {
		x, off := cs[0].Args[0], cs[0].Args[1]
		ok := true
		for i, c := range cs {
			if c.Op != "at" || c.Args[0] != x || c.Args[1] != Add(off, Int(int64(i))) {
				ok = false
				break
			}
		}
		if ok {
			return SubSeq(x, off, Int(int64(len(cs))))
		}
	}
	return mk("cells", nil, "", 0, cs...)
}

// SubSeq is x[off:off+n].
func SubSeq(x, off, n *Term) *Term {
	if n.isInt() && n.N == 0 {
		return Str("")
	}
	if off.isInt() && off.N == 0 && n == SeqLen(x) {
		return x
	}
	switch x.Op {
	case "sub":
		return SubSeq(x.Args[0], Add(x.Args[1], off), n)
	case "str":
		if off.isInt() && n.isInt() && off.N >= 0 && n.N >= 0 && off.N+n.N <= int64(len(x.S)) {
			return Str(x.S[off.N : off.N+n.N])
		}
	case "cells":
		if off.isInt() && n.isInt() && off.N >= 0 && n.N >= 0 && off.N+n.N <= int64(len(x.Args)) {
			return Cells(x.Args[off.N : off.N+n.N])
		}
	case "zeros":
		return mk("zeros", nil, "", 0, n)
	case "cat":
		// strip a known prefix
		rest := off
		for i, p := range x.Args {
			l := SeqLen(p)
			if p.Op == "str" && rest.isInt() && n.isInt() && rest.N >= 0 && n.N >= 0 && rest.N+n.N <= int64(len(p.S)) {
				return Str(p.S[rest.N : rest.N+n.N])
			}
			if rest.isInt() && rest.N == 0 {
				y := Cat(x.Args[i:]...)
				if n == SeqLen(y) {
					return y
				}
				if n == l {
					return p
				}
				break
			}
			d := Sub(rest, l)
			if d.isInt() && d.N >= 0 {
				rest = d
				continue
			}
			break
		}
	case "ite":
		return Ite(x.Args[0], SubSeq(x.Args[1], off, n), SubSeq(x.Args[2], off, n))
	}
	if n.Op == "len" && n.Args[0].Op == "cstr" {
		y := n.Args[0].Args[0]
		if y.Op == "sub" && y.Args[0] == x && y.Args[1] == off || y == x && off.isInt() && off.N == 0 {
			return n.Args[0]
		}
	}
	if n.Op == "ite" {
		return Ite(n.Args[0], SubSeq(x, off, n.Args[1]), SubSeq(x, off, n.Args[2]))
	}
	return mk("sub", nil, "", 0, x, off, n)
}

func Cstr(x *Term) *Term {
	if x.Op == "cstr" || x.Op == "hash" {
		return x
	}
	if x.Op == "str" {
		if i := strings.IndexByte(x.S, 0); i >= 0 {
			return Str(x.S[:i])
		}
		return x
	}
	if h := hashPrefix(x); h != nil {
		return h
	}
	return mk("cstr", nil, "", 0, x)
}

// hashPrefix is the NUL-free hash at the start of a NUL-terminated buffer.
func hashPrefix(x *Term) *Term {
	if x.Op == "cat" && x.Args[0].Op == "hash" && x.Args[1].Op == "str" && strings.Trim(x.Args[1].S, "\x00") == "" && len(x.Args) == 2 {
		return x.Args[0]
	}
	return nil
}

// At is byte i of the sequence x.
func At(x, i *Term) *Term {
	if i.Op == "ite" {
		return Ite(i.Args[0], At(x, i.Args[1]), At(x, i.Args[2]))
	}
	switch x.Op {
	case "sub":
		return At(x.Args[0], Add(x.Args[1], i))
	case "str":
		if i.isInt() && i.N >= 0 && i.N < int64(len(x.S)) {
			return Int(int64(x.S[i.N]))
		}
	case "cells":
		if i.isInt() && i.N >= 0 && i.N < int64(len(x.Args)) {
			return x.Args[i.N]
		}
	case "zeros":
		return Int(0)
	case "ite":
		return Ite(x.Args[0], At(x.Args[1], i), At(x.Args[2], i))
	case "upd":
		if e := Eq0(Sub(x.Args[1], i)); e == True {
			return x.Args[2]
		} else if e == False {
			return At(x.Args[0], i)
		}
	case "cat":
		rest := i
		for _, p := range x.Args {
			d := Sub(rest, SeqLen(p))
			if lo, _ := rangeOf(d); lo >= 0 {
				rest = d
				continue
			}
			if _, hi := rangeOf(d); hi < 0 {
				return At(p, rest)
			}
			break
		}
	}
	return mk("at", nil, "", 0, x, i)
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.Op {
	case "int":
		return fmt.Sprint(t.N)
	case "str":
		return strconv.Quote(t.S)
	case "true", "false", "nil":
		return t.Op
	case "poly":
		var ps []string
		for _, m := range t.mono {
			var vs []string
			if m.c != 1 || len(m.vars) == 0 {
				vs = append(vs, fmt.Sprint(m.c))
			}
			for _, v := range m.vars {
				vs = append(vs, v.str(d+1))
			}
			ps = append(ps, strings.Join(vs, "*"))
		}
		return "(" + strings.Join(ps, " + ") + ")"
	case "ge0":
		return t.Args[0].str(d+1) + ">=0"
	case "eq0":
		return t.Args[0].str(d+1) + "==0"
	case "ite":
		return "(" + t.Args[0].str(d+1) + " ? " + t.Args[1].str(d+1) + " : " + t.Args[2].str(d+1) + ")"
	case "at":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "ref":
		s := fmt.Sprintf("&obj%d", t.N)
		for _, a := range t.Args {
			s += "." + a.str(d+1)
		}
		return s
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	if t.N != 0 {
		s += fmt.Sprintf("#%d", t.N)
	}
	if len(t.Args) > 0 {
		s += "("
		for i, a := range t.Args {
			if i > 0 {
				s += ", "
			}
			if i > 8 {
				s += fmt.Sprintf("…+%d", len(t.Args)-i)
				break
			}
			s += a.str(d + 1)
		}
		s += ")"
	}
	return s
}

// walk visits every subterm once.
func walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

func contains(t *Term, op string) bool {
	found := false
	walk(t, func(x *Term) bool {
		if x.Op == op {
			found = true
		}
		return !found
	})
	return found
}

func containsTerm(t, y *Term) bool {
	found := false
	walk(t, func(x *Term) bool {
		if x == y {
			found = true
		}
		return !found
	})
	return found
}

// whether x starts with the literal p
func HasPrefixT(x *Term, p string) *Term {
	if x.Op == "str" {
		return Bool(strings.HasPrefix(x.S, p))
	}
	r := Ge0(Sub(SeqLen(x), Int(int64(len(p)))))
	for i := 0; i < len(p); i++ {
		r = Ite(r, Eq0(Sub(At(x, Int(int64(i))), Int(int64(p[i])))), False)
	}
	return r
}
