package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C30: flag words. A query is evaluated to a boolean term over the stored flag
// word; the term is decided in a bit-level domain: which bits of the word it
// depends on, and its value for each combination of those.

// bit is 0, 1, or 2+i for bit i of the word.
type bitv []int

// bitsOf expresses an integer term as bits of the word; nil when it cannot.
func bitsOf(t, word *Term, env map[int]int) bitv {
	if t == word {
		w, _ := intInfo(t.Ty)
		if w == 0 || w > 64 {
			w = 64
		}
		v := make(bitv, 64)
		for i := 0; i < w; i++ {
			if b, ok := env[i]; ok {
				v[i] = b
			} else {
				v[i] = 2 + i
			}
		}
		return v
	}
	switch t.Op {
	case "int":
		v := make(bitv, 64)
		for i := 0; i < 64; i++ {
			v[i] = int(uint64(t.N)>>uint(i)) & 1
		}
		return v
	case "poly":
		// a sum of values with pairwise disjoint bits, or all constant
		acc := make(bitv, 64)
		sum := int64(0)
		allConst := true
		for _, m := range t.mono {
			if len(m.vars) == 0 {
				sum += m.c
				continue
			}
			if len(m.vars) > 1 {
				return nil
			}
			v := bitsOf(m.vars[0], word, env)
			if v == nil {
				return nil
			}
			if n, ok := v.konst(); ok {
				sum += n * m.c
				continue
			}
			if m.c <= 0 || m.c&(m.c-1) != 0 {
				return nil
			}
			k := 0
			for c := m.c; c > 1; c >>= 1 {
				k++
			}
			allConst = false
			for i := 63; i >= 0; i-- {
				b := 0
				if i >= k {
					b = v[i-k]
				}
				if b != 0 && acc[i] != 0 {
					return nil
				}
				if b != 0 {
					acc[i] = b
				}
			}
		}
		if allConst {
			return bitsOf(Int(sum), word, env)
		}
		for i := 0; i < 64; i++ {
			b := int(uint64(sum)>>uint(i)) & 1
			if b != 0 && acc[i] != 0 {
				return nil
			}
			if b != 0 {
				acc[i] = b
			}
		}
		return acc
	case "wrap":
		v := bitsOf(t.Args[0], word, env)
		if v == nil {
			return nil
		}
		w, signed := intInfo(t.Ty)
		if w == 0 {
			w = 64
		}
		r := make(bitv, 64)
		copy(r, v[:w])
		if signed && w < 64 {
			for i := w; i < 64; i++ {
				r[i] = v[w-1]
			}
		}
		return r
	case "byteOf":
		v := bitsOf(t.Args[0], word, env)
		if v == nil {
			return nil
		}
		k := int(t.N)
		r := make(bitv, 64)
		for i := 0; i < 8 && 8*k+i < 64; i++ {
			r[i] = v[8*k+i]
		}
		return r
	case "and", "or", "xor", "andnot":
		a := bitsOf(t.Args[0], word, env)
		b := bitsOf(t.Args[1], word, env)
		if a == nil || b == nil {
			return nil
		}
		r := make(bitv, 64)
		for i := range r {
			x, y := a[i], b[i]
			if t.Op == "andnot" {
				switch {
				case y == 0:
					r[i] = x
				case y == 1, x == 0:
					r[i] = 0
				default:
					return nil
				}
				continue
			}
			if x > y {
				x, y = y, x
			}
			switch t.Op {
			case "and":
				if x == 0 {
					r[i] = 0
				} else if x == 1 || x == y {
					r[i] = y
				} else {
					return nil
				}
			case "or":
				if x == 0 || x == y {
					r[i] = y
				} else if x == 1 {
					r[i] = 1
				} else {
					return nil
				}
			case "xor":
				if x == 0 {
					r[i] = y
				} else if x == y {
					r[i] = 0
				} else {
					return nil
				}
			}
		}
		return r
	case "shr", "shl":
		a := bitsOf(t.Args[0], word, env)
		b := bitsOf(t.Args[1], word, env)
		if a == nil || b == nil {
			return nil
		}
		n, ok := b.konst()
		if !ok || n < 0 {
			return nil
		}
		w, _ := intInfo(t.Ty)
		if w == 0 {
			w = 64
		}
		r := make(bitv, 64)
		for i := 0; i < w; i++ {
			j := i + int(n)
			if t.Op == "shl" {
				j = i - int(n)
			}
			if j >= 0 && j < 64 {
				r[i] = a[j]
			}
		}
		return r
	case "div", "mod":
		a := bitsOf(t.Args[0], word, env)
		n, ok := constInt(t.Args[1])
		if a == nil || !ok || n <= 0 || n&(n-1) != 0 || a[63] != 0 {
			if a != nil && ok && n > 0 {
				if x, c := a.konst(); c {
					if t.Op == "div" {
						return bitsOf(Int(x/n), word, env)
					}
					return bitsOf(Int(x%n), word, env)
				}
			}
			return nil
		}
		k := 0
		for c := n; c > 1; c >>= 1 {
			k++
		}
		r := make(bitv, 64)
		if t.Op == "div" {
			for i := 0; i+k < 64; i++ {
				r[i] = a[i+k]
			}
		} else {
			copy(r, a[:k])
		}
		return r
	case "ite":
		c, ok := condOf(t.Args[0], word, env)
		if !ok {
			return nil
		}
		if c {
			return bitsOf(t.Args[1], word, env)
		}
		return bitsOf(t.Args[2], word, env)
	}
	return nil
}

func (v bitv) konst() (int64, bool) {
	n := uint64(0)
	for i, b := range v {
		if b > 1 {
			return 0, false
		}
		n |= uint64(b) << uint(i)
	}
	return int64(n), true
}

// condOf decides a condition under an assignment of bits of the word.
func condOf(t, word *Term, env map[int]int) (val, ok bool) {
	switch t.Op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "not":
		v, ok := condOf(t.Args[0], word, env)
		return !v, ok
	case "ite":
		c, ok := condOf(t.Args[0], word, env)
		if !ok {
			return false, false
		}
		if c {
			return condOf(t.Args[1], word, env)
		}
		return condOf(t.Args[2], word, env)
	case "eq0", "ge0":
		v := bitsOf(t.Args[0], word, env)
		if v == nil {
			return false, false
		}
		if n, k := v.konst(); k {
			if t.Op == "eq0" {
				return n == 0, true
			}
			return n >= 0, true
		}
		if t.Op == "eq0" {
			for _, b := range v {
				if b == 1 {
					return false, true
				}
			}
		}
		if t.Op == "ge0" && v[63] < 2 {
			return v[63] == 0, true
		}
	}
	return false, false
}

// support collects the bits of the word that a term may depend on.
func support(t, word *Term) map[int]bool {
	out := map[int]bool{}
	walk(t, func(x *Term) bool {
		if v := bitsOf(x, word, nil); v != nil && x != word {
			for _, b := range v {
				if b >= 2 {
					out[b-2] = true
				}
			}
			return false
		}
		if x == word {
			for i := 0; i < 64; i++ {
				out[i] = true
			}
		}
		return true
	})
	return out
}

// isBit decides that the condition is exactly "bit k of the word is set".
func isBit(t, word *Term, mask uint64) bool {
	sup := support(t, word)
	var bs []int
	for i := 0; i < 64; i++ {
		if mask>>uint(i)&1 == 1 {
			sup[i] = true
		}
	}
	for b := range sup {
		bs = append(bs, b)
	}
	sort.Ints(bs)
	if len(bs) > 12 {
		return false
	}
	for a := 0; a < 1<<uint(len(bs)); a++ {
		env := map[int]int{}
		w := uint64(0)
		for j, b := range bs {
			env[b] = a >> uint(j) & 1
			w |= uint64(env[b]) << uint(b)
		}
		v, ok := condOf(t, word, env)
		if !ok || v != (w&mask != 0) {
			return false
		}
	}
	return true
}

// The bits the PTT headers assign (include/pttstruct.h, include/uflags.h).
var boardBits = map[string]uint64{
	"IsNoCount": 0x2, "IsGroupBoard": 0x8, "IsClass": 0x8, "IsHide": 0x10, "IsPostMask": 0x20, "IsAnonymous": 0x40, "IsDefaultAnonymous": 0x80,
	"IsNoCredit": 0x100, "IsVoteBoard": 0x200, "IsWarnEL": 0x400, "IsTop": 0x800, "IsNoRecommend": 0x1000, "IsAngelAnonymous": 0x2000,
	"IsBMCount": 0x4000, "IsIsSymbolic": 0x8000, "IsNoBoo": 0x10000, "IsRestrictedPost": 0x40000, "IsGuestPost": 0x80000,
	"IsCooldown": 0x100000, "IsCPLog": 0x200000, "IsNoFastRecommend": 0x400000, "IsIPLogRecommend": 0x800000, "IsOver18": 0x1000000,
	"IsNoReply": 0x2000000, "IsAlignedComment": 0x4000000, "IsNoSelfDeletePost": 0x8000000, "IsBMMaskContent": 0x10000000,
}

var userBits = map[string]uint64{
	"getAdbannerByUserrec": 0x40, "getAdbannerUsongByUserrec": 0x80, "getRejOuttamailByUserrec": 0x40000, "getDefBackupByUserrec": 0x10000,
	"getSecureLoginByUserrec": 0x80000, "getFavAddNewByUserrec": 0x2, "getFavNoHilightByUserrec": 0x1, "getFavNoModMarkByUserrec": 0x1000,
	"getColoredModMarkByUserrec": 0x2000, "getDbcsAwareByUserrec": 0x200, "getDbcsDropRepeatByUserrec": 0x800, "getDbcsNointrescByUserrec": 0x400,
	"getCursorASCIIByUserrec": 0x2000000, "getMenuLightBarByUserrec": 0x1000000, "getNewAngelPagerByUserrec": 0x20000,
}

var allFlags = map[string]uint64{
	"dbanner": 0x40, "dbannerUsong": 0x80, "rejOuttamail": 0x40000, "defBackup": 0x10000, "secureLogin": 0x80000, "favAddnew": 0x2,
	"favNohilight": 0x1, "noModmark": 0x1000, "coloredModmark": 0x2000, "dbcsAware": 0x200, "dbcsDropRepeat": 0x800, "dbcsNointresc": 0x400,
	"cursorASCII": 0x2000000, "menuLightbar": 0x1000000, "newAngelPager": 0x20000,
}

var flagConsts = map[string]int64{
	"FileLocal": 1, "FileRead": 1, "FileMarked": 2, "FileDigest": 4, "FileReplied": 4, "FileBottom": 8, "FileMulti": 8, "FileSolved": 0x10,
	"FileHide": 0x20, "FileBoardID": 0x20, "FileBoardMaster": 0x40, "FileVote": 0x40, "FileAnonymous": 0x80,
	"UfFavNohilight": 1, "UfFavAddnew": 2, "UfFriend": 0x10, "UfBrdsort": 0x20, "UfAdbanner": 0x40, "UfAdbannerUsong": 0x80, "UfDbcsAware": 0x200,
	"UfDbcsNointresc": 0x400, "UfDbscDropRepeat": 0x800, "UfNoModmark": 0x1000, "UfColoredModmark": 0x2000, "UfDefbackup": 0x10000,
	"UfNewAngelPager": 0x20000, "UfRejOuttamail": 0x40000, "UfSecureLogin": 0x80000, "UfForeign": 0x100000, "UfLiveright": 0x200000,
	"UfMenuLightbar": 0x1000000, "UfCursorASCII": 0x2000000,
	"BoardPostMask": 0x20, "BoardGroupBoard": 8, "BoardHide": 0x10, "PermSYSOP": 040000, "PermBM": 02000,
	"FavhFav": 1, "FavhTag": 2, "FavhUnread": 4, "FavhAdmTag": 8,
}

func checkFlags(c *Check) {
	one := func(fn *ssa.Function, args []*Term, word *Term, mask uint64, name string) {
		e := c.engine()
		outs, ok := c.eval(e, fn, args, newState())
		if !ok {
			return
		}
		for _, o := range outs {
			if !okRet(o) || !feasible(o) {
				continue
			}
			t := o.ret[0]
			if o.guard != nil && len(outs) > 1 {
				// several returns: the value under the condition of the return
				t = Ite(o.guard, t, Bool(false))
				c.ob(true, "one bit", name, fn.Pos(), "")
			}
			c.ob(len(outs) == 1 && isBit(t, word, mask), "exactly its bit", name, fnPos(fn), "the answer is %v, not bit %#x of the flag word", clip(t.String(), 300), mask)
		}
	}
	bt := c.p.Type("pttbbs", "BoardHeader")
	ft := c.p.Type("pttbbs", "FileHeader")
	if !c.ob(bt != nil && ft != nil, "anchor", "BoardHeader and FileHeader", token.NoPos, "the record types are missing") {
		return
	}
	for _, m := range sortedKeysS(boardBits) {
		fn := c.needM("pttbbs", "BoardHeader", m)
		if fn == nil {
			continue
		}
		args := params(fn)
		e := c.engine()
		st := newState()
		w := e.fieldOf(st, args[0], bt, "Brdattr")
		one(fn, args, w, boardBits[m], "BoardHeader."+m)
	}
	if fn := c.needM("pttbbs", "FileHeader", "IsVotePost"); fn != nil {
		args := params(fn)
		e := c.engine()
		one(fn, args, e.fieldOf(newState(), args[0], ft, "Filemode"), 0x40, "FileHeader.IsVotePost")
	}
	for _, m := range sortedKeysS(userBits) {
		fn := c.p.Func("pttbbs", m)
		if fn == nil || fn.Blocks == nil {
			continue
		}
		args := params(fn)
		one(fn, args, mk("inv", types.Typ[types.Uint32], "UserFlag", 0, args[0]), userBits[m], m)
	}
	// the collected settings of a user
	if fn := c.p.Func("pttbbs", "getUserFlagAllByID"); fn != nil && fn.Blocks != nil {
		e := c.engine()
		// whatever user records are loaded
		for _, m := range c.p.ByPkg["pttbbs"].Members {
			if g, ok := m.(*ssa.Global); ok {
				if sl, ok := derefType(g.Type()).Underlying().(*types.Slice); ok && !isByte(sl.Elem()) {
					e.mutGlob[g] = true
				}
			}
		}
		outs, ok := c.eval(e, fn, params(fn), newState())
		if ok {
			n := 0
			for _, o := range outs {
				good, _ := splitRet(fn, o)
				if !okRet(o) || good == nil {
					continue
				}
				rt := derefType(fn.Signature.Results().At(0).Type())
				v := simp(e.load(o.st, o.ret[0], rt), good)
				s := structOf(rt)
				for i := 0; s != nil && i < s.NumFields(); i++ {
					mask, known := allFlags[s.Field(i).Name()]
					if !known {
						continue
					}
					n++
					t := Fld(v, i, s.Field(i).Type(), s.Field(i).Name())
					ws := subterms(t, func(x *Term) bool { return x.Op == "inv" && x.S == "UserFlag" })
					c.ob(len(ws) == 1 && isBit(t, ws[0], mask), "exactly its bit", "settings of a user: "+s.Field(i).Name(), fnPos(fn), "the answer is %v", clip(t.String(), 300))
				}
			}
			c.ob(n >= len(allFlags), "coverage", "settings of a user", fnPos(fn), "only %d settings found", n)
		}
	}
	pk := c.p.ByPkg["pttbbs"]
	for _, n := range sortedKeysS(flagConsts) {
		k, ok := pk.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		v, exact := constant.Int64Val(constant.ToInt(k.Val()))
		c.ob(exact && v == flagConsts[n], "published value", n, k.Pos(), "%s is %v, the PTT headers say %#x", n, k.Val(), flagConsts[n])
	}
}

// fieldOf reads a field of the object a pointer argument points to.
func (e *Engine) fieldOf(st *State, ptr *Term, ty types.Type, name string) *Term {
	t, y := e.load(st, ptr, ty), ty
	for _, j := range fieldPath(ty, name) {
		s := structOf(y)
		t, y = Fld(t, j, s.Field(j).Type(), s.Field(j).Name()), s.Field(j).Type()
	}
	return t
}

func init() {
	checks["C30"] = checkDef{run: checkFlags, min: 60,
		rule: "bit-level abstract interpretation of every flag query: the bits of the stored word its result depends on and its value for each combination of them must be those of the single bit the PTT headers assign; the published flag constants have the published values"}
}
