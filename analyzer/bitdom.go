package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// The bit domain: every bit of a machine word is the exclusive or of
// monomials over atoms (its algebraic normal form). Functions of many inputs
// (the substitution boxes) are atoms of their own, numbered by their truth
// table and inputs. Two bits with the same form are equal for every value of
// the inputs.

type bx struct {
	ms []int32 // sorted monomials
	c  bool    // the constant
	h  [2]uint64
}

type bitDom struct {
	names  []string  // of the atoms
	monos  [][]int32 // atoms of each monomial, sorted
	monoID map[string]int32
	fns    map[string]int32 // atoms of functions
	groups [][]int32        // in each group some atom is set (bytes which are not zero)
	single map[int32]*bx
}

func newBitDom() *bitDom {
	return &bitDom{monoID: map[string]int32{}, fns: map[string]int32{}, single: map[int32]*bx{}}
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func mhash(m int32) [2]uint64 {
	return [2]uint64{mix64(uint64(m)*2 + 1), mix64(mix64(uint64(m)+0x1234567) ^ 0xabcdef)}
}

var b0, b1 = &bx{}, &bx{c: true}

func bbit(v bool) *bx {
	if v {
		return b1
	}
	return b0
}

func (x *bx) isConst() bool { return len(x.ms) == 0 }

func (x *bx) key() [3]uint64 {
	k := [3]uint64{x.h[0], x.h[1], uint64(len(x.ms)) << 1}
	if x.c {
		k[2]++
	}
	return k
}

func (x *bx) eq(y *bx) bool { return x.key() == y.key() }

func (d *bitDom) atom(name string) *bx {
	d.names = append(d.names, name)
	return d.mono([]int32{int32(len(d.names) - 1)})
}

// mono is the product of atoms (sorted, without repetition).
func (d *bitDom) mono(as []int32) *bx {
	var b strings.Builder
	var w [4]byte
	for _, a := range as {
		binary.LittleEndian.PutUint32(w[:], uint32(a))
		b.Write(w[:])
	}
	id, ok := d.monoID[b.String()]
	if !ok {
		id = int32(len(d.monos))
		d.monos = append(d.monos, append([]int32{}, as...))
		d.monoID[b.String()] = id
	}
	if x := d.single[id]; x != nil {
		return x
	}
	x := &bx{ms: []int32{id}, h: mhash(id)}
	d.single[id] = x
	return x
}

func bxor(x, y *bx) *bx {
	if x.isConst() && !x.c {
		return y
	}
	if y.isConst() && !y.c {
		return x
	}
	r := &bx{c: x.c != y.c, h: [2]uint64{x.h[0] ^ y.h[0], x.h[1] ^ y.h[1]}}
	if len(y.ms) == 0 {
		r.ms = x.ms
		return r
	}
	if len(x.ms) == 0 {
		r.ms = y.ms
		return r
	}
	r.ms = make([]int32, 0, len(x.ms)+len(y.ms))
	i, j := 0, 0
	for i < len(x.ms) && j < len(y.ms) {
		switch {
		case x.ms[i] < y.ms[j]:
			r.ms = append(r.ms, x.ms[i])
			i++
		case x.ms[i] > y.ms[j]:
			r.ms = append(r.ms, y.ms[j])
			j++
		default:
			i++
			j++
		}
	}
	r.ms = append(r.ms, x.ms[i:]...)
	r.ms = append(r.ms, y.ms[j:]...)
	return r
}

func bnot(x *bx) *bx { return bxor(x, b1) }

func unionAtoms(a, b []int32) []int32 {
	var r []int32
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i >= len(a) || a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (d *bitDom) and(x, y *bx) *bx {
	if x.isConst() {
		if x.c {
			return y
		}
		return b0
	}
	if y.isConst() {
		return d.and(y, x)
	}
	if x.eq(y) {
		return x
	}
	if x.eq(bnot(y)) {
		return b0
	}
	if len(x.ms) > 1 && len(y.ms) > 1 && len(x.ms)*len(y.ms) > 4096 {
		return d.fn([]*bx{x, y}, []bool{false, false, false, true})
	}
	cnt := map[int32]bool{}
	add := func(z *bx) {
		for _, m := range z.ms {
			cnt[m] = !cnt[m]
		}
	}
	for _, m := range x.ms {
		for _, n := range y.ms {
			add(d.mono(unionAtoms(d.monos[m], d.monos[n])))
		}
	}
	if x.c {
		add(y)
	}
	if y.c {
		add(x)
	}
	return sumOf(cnt, x.c && y.c)
}

func sumOf(cnt map[int32]bool, c bool) *bx {
	r := &bx{c: c}
	for m, odd := range cnt {
		if odd {
			r.ms = append(r.ms, m)
			h := mhash(m)
			r.h[0] ^= h[0]
			r.h[1] ^= h[1]
		}
	}
	sort.Slice(r.ms, func(i, j int) bool { return r.ms[i] < r.ms[j] })
	return r
}

func (d *bitDom) or(x, y *bx) *bx { return bxor(bxor(x, y), d.and(x, y)) }

// mux is c ? x : y
func (d *bitDom) mux(c, x, y *bx) *bx { return bxor(y, d.and(c, bxor(x, y))) }

// support lists the atoms of the bits, or nil with false if there are more than max.
func (d *bitDom) support(xs []*bx, max int) ([]int32, bool) {
	seen := map[int32]bool{}
	var out []int32
	for _, x := range xs {
		for _, m := range x.ms {
			for _, a := range d.monos[m] {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
					if len(out) > max {
						return nil, false
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out, true
}

// at evaluates a bit where the atoms set are the bits of v (in the order of as).
func (d *bitDom) at(x *bx, as []int32, v int) bool {
	pos := map[int32]int{}
	for i, a := range as {
		pos[a] = i
	}
	return d.atPos(x, pos, v)
}

func (d *bitDom) atPos(x *bx, pos map[int32]int, v int) bool {
	r := x.c
	for _, m := range x.ms {
		all := true
		for _, a := range d.monos[m] {
			if v>>uint(pos[a])&1 == 0 {
				all = false
				break
			}
		}
		if all {
			r = !r
		}
	}
	return r
}

// poly is the normal form of the function of the atoms with the truth table.
func (d *bitDom) poly(as []int32, tt []bool) *bx {
	t := append([]bool{}, tt...)
	for i := range as {
		for v := range t {
			if v>>uint(i)&1 == 1 {
				t[v] = t[v] != t[v^1<<uint(i)]
			}
		}
	}
	cnt := map[int32]bool{}
	for v := range t {
		if v == 0 || !t[v] {
			continue
		}
		var ms []int32
		for i, a := range as {
			if v>>uint(i)&1 == 1 {
				ms = append(ms, a)
			}
		}
		cnt[d.mono(ms).ms[0]] = true
	}
	return sumOf(cnt, t[0])
}

const fnSupport = 8

// fn is the function with the truth table (input i is bit i of the row) of the inputs.
func (d *bitDom) fn(in []*bx, tt []bool) *bx {
	in, tt = append([]*bx{}, in...), append([]bool{}, tt...)
	// inputs without constants, none twice
	drop := func(i int, keep func(v int) int) {
		n := make([]bool, len(tt)/2)
		for v := range n {
			lo := v & (1<<uint(i) - 1)
			hi := v >> uint(i) << uint(i+1)
			n[v] = tt[keep(lo|hi)]
		}
		tt = n
		in = append(in[:i], in[i+1:]...)
	}
	for i := 0; i < len(in); {
		if in[i].c && !in[i].isConst() {
			for v := range tt {
				if v>>uint(i)&1 == 0 {
					tt[v], tt[v|1<<uint(i)] = tt[v|1<<uint(i)], tt[v]
				}
			}
			in[i] = bnot(in[i])
		}
		if in[i].isConst() {
			one := 0
			if in[i].c {
				one = 1 << uint(i)
			}
			drop(i, func(v int) int { return v | one })
			continue
		}
		dup := -1
		for j := 0; j < i; j++ {
			if in[j].eq(in[i]) {
				dup = j
			}
		}
		if dup >= 0 {
			drop(i, func(v int) int { return v | v>>uint(dup)&1<<uint(i) })
			continue
		}
		i++
	}
	for i := 0; i < len(in); {
		essential := false
		for v := range tt {
			if tt[v] != tt[v^1<<uint(i)] {
				essential = true
			}
		}
		if !essential {
			drop(i, func(v int) int { return v })
			continue
		}
		i++
	}
	if len(in) == 0 {
		return bbit(tt[0])
	}
	if as, ok := d.support(in, fnSupport); ok {
		pos := map[int32]int{}
		for i, a := range as {
			pos[a] = i
		}
		t := make([]bool, 1<<uint(len(as)))
		for v := range t {
			row := 0
			for i, x := range in {
				if d.atPos(x, pos, v) {
					row |= 1 << uint(i)
				}
			}
			t[v] = tt[row]
		}
		return d.poly(as, t)
	}
	// affine
	aff := true
	for v := range tt {
		w := tt[0]
		for i := range in {
			if v>>uint(i)&1 == 1 && tt[1<<uint(i)] != tt[0] {
				w = !w
			}
		}
		if w != tt[v] {
			aff = false
			break
		}
	}
	if aff {
		r := bbit(tt[0])
		for i, x := range in {
			if tt[1<<uint(i)] != tt[0] {
				r = bxor(r, x)
			}
		}
		return r
	}
	// an atom: inputs in a fixed order
	ord := make([]int, len(in))
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(a, b int) bool {
		x, y := in[ord[a]].key(), in[ord[b]].key()
		for k := range x {
			if x[k] != y[k] {
				return x[k] < y[k]
			}
		}
		return false
	})
	var key strings.Builder
	for _, i := range ord {
		k := in[i].key()
		var w [24]byte
		for j, q := range k {
			binary.LittleEndian.PutUint64(w[8*j:], q)
		}
		key.Write(w[:])
	}
	for v := range tt {
		row := 0
		for k, i := range ord {
			if v>>uint(k)&1 == 1 {
				row |= 1 << uint(i)
			}
		}
		if tt[row] {
			key.WriteByte('1')
		} else {
			key.WriteByte('0')
		}
	}
	a, ok := d.fns[key.String()]
	if !ok {
		d.names = append(d.names, fmt.Sprintf("box%d", len(d.fns)))
		a = int32(len(d.names) - 1)
		d.fns[key.String()] = a
	}
	return d.mono([]int32{a})
}

// decide tells a bit which is the same for every input allowed.
func (d *bitDom) decide(x *bx) (val, known bool) {
	if x.isConst() {
		return x.c, true
	}
	as, ok := d.support([]*bx{x}, 16)
	if !ok {
		return false, false
	}
	pos := map[int32]int{}
	for i, a := range as {
		pos[a] = i
	}
	var need []int
	for _, g := range d.groups {
		mask, in := 0, true
		for _, a := range g {
			if p, ok := pos[a]; ok {
				mask |= 1 << uint(p)
			} else {
				in = false
			}
		}
		if in {
			need = append(need, mask)
		}
	}
	first := true
next:
	for v := 0; v < 1<<uint(len(as)); v++ {
		for _, m := range need {
			if v&m == 0 {
				continue next
			}
		}
		r := d.atPos(x, pos, v)
		if first {
			val, first = r, false
		} else if r != val {
			return false, false
		}
	}
	return val, !first
}

func (d *bitDom) String(x *bx) string {
	var s []string
	for i, m := range x.ms {
		if i == 8 {
			s = append(s, fmt.Sprintf("… %d more", len(x.ms)-i))
			break
		}
		var p []string
		for _, a := range d.monos[m] {
			p = append(p, d.names[a])
		}
		s = append(s, strings.Join(p, "·"))
	}
	if x.c || len(s) == 0 {
		c := "0"
		if x.c {
			c = "1"
		}
		s = append(s, c)
	}
	return strings.Join(s, " ⊕ ")
}
