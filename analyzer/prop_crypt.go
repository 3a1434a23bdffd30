package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// C25: the password hash. The function is interpreted in the bit domain with
// the password and the salt unknown; each bit of its result must have the
// normal form of the same bit of DES crypt(3), which is built here from the
// tables of the standard.

var (
	desPC1 = []int{57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
		63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4}
	desPC2 = []int{14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
		41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32}
	desRot = []int{1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1}
	desE   = []int{32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17,
		16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1}
	desP = []int{16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25}
	desF = []int{40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5, 45, 13, 53, 21, 61, 29,
		36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10, 50, 18, 58, 26, 33, 1, 41, 9, 49, 17, 57, 25}
	desS = [8][64]int{
		{14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
			4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13},
		{15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
			0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9},
		{10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
			13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12},
		{7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
			10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14},
		{2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
			4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3},
		{12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
			9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13},
		{4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
			1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12},
		{13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
			7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11},
	}
)

const cryptAlphabet = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

// alphabetChar is the character of a value of six bits.
func (d *bitDom) alphabetChar(v []*bx) []*bx {
	out := make([]*bx, 8)
	for k := range out {
		t := make([]bool, 64)
		for i := range t {
			t[i] = cryptAlphabet[i]>>uint(k)&1 == 1
		}
		out[k] = d.fn(v, t)
	}
	return out
}

// desCrypt is the eleven characters of crypt(3) for the key (64 bits, first bit
// first) and the salt (12 bits, lowest first).
func (d *bitDom) desCrypt(key, salt []*bx) [][]*bx {
	var cd []*bx
	for _, i := range desPC1 {
		cd = append(cd, key[i-1])
	}
	c, dd := cd[:28], cd[28:]
	rot := func(x []*bx, n int) []*bx { return append(append([]*bx{}, x[n:]...), x[:n]...) }
	var ks [16][]*bx
	for r := range ks {
		c, dd = rot(c, desRot[r]), rot(dd, desRot[r])
		all := append(append([]*bx{}, c...), dd...)
		for _, i := range desPC2 {
			ks[r] = append(ks[r], all[i-1])
		}
	}
	l, r := make([]*bx, 32), make([]*bx, 32)
	for i := range l {
		l[i], r[i] = b0, b0
	}
	box := [8][4][]bool{}
	for s := range box {
		for o := 0; o < 4; o++ {
			t := make([]bool, 64)
			for v := range t {
				// input k of the box is bit k of v: b1 is bit 0
				b := func(k int) int { return v >> uint(k) & 1 }
				row, col := 2*b(0)+b(5), 8*b(1)+4*b(2)+2*b(3)+b(4)
				t[v] = desS[s][16*row+col]>>uint(3-o)&1 == 1
			}
			box[s][o] = t
		}
	}
	for it := 0; it < 25; it++ {
		for n := 0; n < 16; n++ {
			e := make([]*bx, 48)
			for i, k := range desE {
				e[i] = r[k-1]
			}
			for i := 0; i < 12; i++ {
				x := d.and(salt[i], bxor(e[i], e[i+24]))
				e[i], e[i+24] = bxor(e[i], x), bxor(e[i+24], x)
			}
			var f []*bx
			for s := 0; s < 8; s++ {
				in := make([]*bx, 6)
				for k := range in {
					in[k] = bxor(e[6*s+k], ks[n][6*s+k])
				}
				for o := 0; o < 4; o++ {
					f = append(f, d.fn(in, box[s][o]))
				}
			}
			nr := make([]*bx, 32)
			for i, k := range desP {
				nr[i] = bxor(l[i], f[k-1])
			}
			l, r = r, nr
		}
		l, r = r, l // the halves change places after the last round, the permutations around it cancel out
	}
	pre := append(append([]*bx{}, l...), r...)
	var out []*bx
	for _, k := range desF {
		out = append(out, pre[k-1])
	}
	out = append(out, b0, b0)
	var chars [][]*bx
	for i := 0; i < 66; i += 6 {
		v := make([]*bx, 6)
		for k := range v {
			v[k] = out[i+5-k]
		}
		chars = append(chars, d.alphabetChar(v))
	}
	return chars
}

type cryptCase struct {
	n, nul  int // length of the key, place of its first zero byte (n: none)
	salt    int // length of the salt
	badSalt int // 1, 2: this character is no 7-bit character
}

func (k cryptCase) String() string {
	s := fmt.Sprintf("a password of %d bytes", k.n)
	if k.nul < k.n {
		s += fmt.Sprintf(" with a zero byte at %d", k.nul)
	}
	s += fmt.Sprintf(", a salt of %d", k.salt)
	if k.badSalt > 0 {
		s += fmt.Sprintf(" whose character %d is above 127", k.badSalt)
	}
	return s
}

func checkCrypt(c *Check) {
	fn := c.need("crypt", "Fcrypt")
	if fn == nil {
		return
	}
	if sig := fn.Signature; !c.ob(sig.Params().Len() == 2 && sig.Results().Len() == 2, "anchor", fnKey(fn), fnPos(fn), "another signature") {
		return
	}
	var cases []cryptCase
	for n := 0; n <= 10; n++ {
		for z := 0; z <= n && z <= 9; z++ {
			if z < n && n != 8 && n != 9 && n != 3 {
				continue
			}
			cases = append(cases, cryptCase{n: n, nul: z, salt: 2})
		}
		if n > 0 && n < 10 {
			cases = append(cases, cryptCase{n: n, nul: n, salt: 13})
		}
	}
	cases = append(cases, cryptCase{n: 16, nul: 16, salt: 13}, cryptCase{n: 50, nul: 50, salt: 14}, cryptCase{n: 8, nul: 8, salt: 14}, cryptCase{n: 8, nul: 8, salt: 3}, cryptCase{n: 255, nul: 255, salt: 13},
		cryptCase{n: 0, salt: 0}, cryptCase{n: 0, salt: 1}, cryptCase{n: 9, nul: 9, salt: 0}, cryptCase{n: 9, nul: 9, salt: 1},
		cryptCase{n: 4, nul: 4, salt: 2, badSalt: 1}, cryptCase{n: 4, nul: 4, salt: 2, badSalt: 2}, cryptCase{n: 9, nul: 9, salt: 13, badSalt: 1}, cryptCase{n: 9, nul: 9, salt: 13, badSalt: 2})
	mut := NewEngine(c.p).mutGlob
	res := make([]cryptResult, len(cases))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range cases {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			res[i] = cryptRun(c.p, fn, mut, cases[i])
		}()
	}
	wg.Wait()
	pos := fnPos(fn)
	for i, r := range res {
		for f := range r.seen {
			c.funcs[f] = true
		}
		k := cases[i]
		rule := "the hash is the one of crypt(3)"
		if k.salt < 2 || k.badSalt > 0 {
			rule = "a salt which is none is refused"
		}
		if r.err != "" {
			c.ob(false, rule, fnKey(fn), pos, "%s (%v)", r.err, k)
		} else {
			c.ob(r.why == "", rule, fnKey(fn), pos, "%s (%v)", r.why, k)
		}
		for _, i := range r.chars {
			c.ob(true, rule, fmt.Sprintf("%s character %d", fnKey(fn), i), pos, "")
		}
		c.paths++
		var bad []string
		for s := range r.bad {
			bad = append(bad, s)
		}
		sort.Strings(bad)
		for _, s := range bad {
			c.ob(false, "the hash depends on its arguments alone and changes nothing", s, r.bad[s], "%s (%v)", s, k)
		}
		c.ob(len(bad) == 0, "the hash depends on its arguments alone and changes nothing", fnKey(fn), pos, "")
	}
}

type cryptResult struct {
	err, why string
	chars    []int // characters which are right
	bad      map[string]token.Pos
	seen     map[*ssa.Function]bool
}

func cryptRun(p *Program, fn *ssa.Function, mut map[*ssa.Global]bool, k cryptCase) (r cryptResult) {
	m := newBitInterp(p, mut)
	r.seen, r.bad = m.seen, m.bad
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(bundecided)
			if !ok {
				panic(e)
			}
			r.err = u.msg
		}
	}()
	d := m.d
	byteOf := func(name string, nonzero bool) []*bx {
		var b []*bx
		var g []int32
		for i := 0; i < 8; i++ {
			b = append(b, d.atom(fmt.Sprintf("%s.%d", name, i)))
			g = append(g, int32(len(d.names)-1))
		}
		if nonzero {
			d.groups = append(d.groups, g)
		}
		return b
	}
	u8 := types.Typ[types.Uint8]
	var key []any
	block := make([]*bx, 64)
	for i := range block {
		block[i] = b0
	}
	for i := 0; i < k.n; i++ {
		b := m.word(u8, 0).b
		if i != k.nul {
			b = byteOf(fmt.Sprintf("password[%d]", i), i < k.nul)
		}
		key = append(key, bword{b: b})
		if i < 8 && i < k.nul {
			for j := 0; j < 7; j++ { // the seven low bits of the character are the seven first of the byte of the key
				block[8*i+j] = b[6-j]
			}
		}
	}
	var salt []any
	var sv []*bx
	for i := 0; i < k.salt; i++ {
		if i >= 2 {
			salt = append(salt, bword{b: byteOf(fmt.Sprintf("salt[%d]", i), false)})
			continue
		}
		var v []*bx
		for j := 0; j < 6; j++ {
			v = append(v, d.atom(fmt.Sprintf("salt[%d].%d", i, j)))
		}
		sv = append(sv, v...)
		b := d.alphabetChar(v)
		if k.badSalt == i+1 {
			b = byteOf(fmt.Sprintf("salt[%d]", i), false)
			b[7] = b1
		}
		salt = append(salt, bword{b: b})
	}
	arg := func(name string, cells []any) any {
		if len(cells) == 0 {
			return bnil{}
		}
		// room behind the slice which is not the function's to write to
		room := append(append([]any{}, cells...), bword{b: byteOf(name+" room", false)}, bword{b: byteOf(name+" room", false)})
		return bslice{o: m.alloc("the "+name, "param", room), len: len(cells), cap: len(room), et: u8}
	}
	out := m.call(fn, []any{arg("password", key), arg("salt", salt)}, fn.Blocks[0].Instrs[0])
	t, ok := out.(btuple)
	if !ok || len(t.v) != 2 {
		r.err = "no results"
		return
	}
	_, failed := t.v[1].(berr)
	if k.salt < 2 || k.badSalt > 0 {
		if !failed {
			r.why = "no error"
		}
		if s, ok := t.v[0].(bslice); ok && s.len > 0 {
			r.why = "a hash comes with the error"
		}
		return
	}
	if failed {
		r.why = "an error"
		return
	}
	h, ok := t.v[0].(bslice)
	if !ok || h.len != 14 {
		r.why = "the result is not 13 characters and a zero byte"
		return
	}
	if h.o.kind != "local" {
		r.why = "the result is not the caller's own"
		return
	}
	want := append([][]*bx{d.alphabetChar(sv[:6]), d.alphabetChar(sv[6:])}, d.desCrypt(block, sv)...)
	want = append(want, m.word(u8, 0).b)
	for i, w := range want {
		g, ok := h.o.cells[h.off+i].(bword)
		if !ok || len(g.b) != 8 {
			r.why = fmt.Sprintf("character %d is no byte", i)
			return
		}
		for j := range w {
			if !g.b[j].eq(w[j]) {
				r.why = fmt.Sprintf("bit %d of character %d is %s instead of %s", j, i, clip(d.String(g.b[j]), 200), clip(d.String(w[j]), 200))
				return
			}
		}
		r.chars = append(r.chars, i)
	}
	return
}

func init() {
	checks["C25"] = checkDef{run: checkCrypt, min: 16, rule: "interpretation of the hash function in a bit domain (algebraic normal form over password and salt bits, hash-consed boxes); every bit of the result has the normal form of DES crypt(3) built from the standard's tables"}
}
