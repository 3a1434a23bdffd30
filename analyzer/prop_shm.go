package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: the shared-memory cache. The cache is built for every setting and its
// readers are evaluated on it: each value is the one at the place the
// structure has for the setting.

type shmSetting struct {
	align int64
	cool  bool
	hash  int64
	idlen int64
	rest  int64 // the number of users is a multiple of the alignment and this
}

func (s shmSetting) String() string {
	return fmt.Sprintf("alignment %d, cool-down %v, hash bits %d, id length %d, users %d modulo the alignment", s.align, s.cool, s.hash, s.idlen, s.rest)
}

// alignUp rounds up to a multiple of a.
func alignUp(x *Term, a int64) *Term {
	if a <= 1 {
		return x
	}
	r := Mod(x, Int(a))
	return Add(x, Ite(Eq0(r), Int(0), Sub(Int(a), r)))
}

func checkSHM(c *Check) {
	open := c.need("pttbbs", "NewCache")
	raw := c.need("cache", "NewCache")
	sty, cty := c.p.Type("pttbbs", "MemoryMappingSetting"), c.p.Type("pttbbs", "Cache")
	dec := c.need("pttbbs", "UnmarshalUserInfo")
	if open == nil || raw == nil || dec == nil || !c.ob(sty != nil && cty != nil, "anchor", "cache types", fnPos(open), "a type is missing") {
		return
	}
	ms := map[string]*ssa.Function{}
	for _, n := range []string{"Version", "UserID", "Money", "UserInfo"} {
		if ms[n] = c.needM("pttbbs", "Cache", n); ms[n] == nil {
			return
		}
	}
	var all []shmSetting
	for _, a := range []int64{0, 1, 2, 3, 4, 5, 8, 16} {
		for _, cd := range []bool{false, true} {
			// the three sizes do not interact: every value of one with some of the others
			for h := int64(0); h <= 30; h++ {
				if a == 2 || h == 16 {
					all = c.shmAll(all, a, cd, h, 12)
				}
			}
			for _, l := range []int64{0, 1, 2, 3, 7, 8, 10, 11, 13, 14, 15, 16, 20, 31, 63, 127, 255, 256, 1000} {
				if a == 4 || l < 12 && a < 9 && !cd {
					all = c.shmAll(all, a, cd, 16, l)
				}
			}
		}
	}
	c.shortUserInfo(dec)
	for _, s := range all {
		c.shm(open, raw, dec, ms, sty, s)
	}
}

// shortUserInfo: less bytes than a record decode to an empty record.
func (c *Check) shortUserInfo(dec *ssa.Function) {
	e := c.engine()
	args, st := params(dec), newState()
	data := e.readSlice(st, args[0], types.Typ[types.Uint8])
	st.facts = st.facts.add(Ge0(Sub(Int(int64(userinfoCodec().size)-1), SeqLen(data))))
	outs, ok := c.eval(e, dec, args, st)
	if !ok {
		return
	}
	n := 0
	for _, o := range outs {
		if !feasible(o) {
			continue
		}
		n++
		f := nf(saturate(nf(guarded(nf(o.st.facts), o))))
		why := ""
		if !okRet(o) {
			why = "panics"
		} else {
			why = c.shmEmpty(e, o.st, f, o.ret[0], dec, data)
		}
		c.ob(why == "", "less bytes than a record are no record", fnKey(dec), fnPos(dec), "%s", why)
	}
	c.ob(n > 0, "less bytes than a record are no record", fnKey(dec), fnPos(dec), "no outcome")
}

func (c *Check) shmAll(all []shmSetting, a int64, cd bool, h, l int64) []shmSetting {
	all = append(all, shmSetting{a, cd, h, l, 0})
	for r := int64(1); r < a; r++ {
		all = append(all, shmSetting{a, cd, h, l, r})
	}
	return all
}

func (c *Check) shm(open, raw, dec *ssa.Function, ms map[string]*ssa.Function, sty types.Type, s shmSetting) {
	e := c.engine()
	e.contract[fnKey(raw)] = opened
	e.contract[fnKey(dec)] = func(k *cc) []Out {
		v := mk("record", k.sig.Results().At(0).Type(), "", 0, k.bytes(0))
		k.st.facts = k.st.facts.add(Not(Eq(v, Nil)))
		return one(k.st, v)
	}
	args, st := params(open), newState()
	set := args[1]
	users := param("MaxUsers", types.Typ[types.Uint32])
	if s.align > 1 {
		users = Add(Scale(users, s.align), Int(s.rest))
	}
	idlen := Int(s.idlen)
	var fs []*Term
	for _, f := range structFields(sty) {
		switch f.Name() {
		case "AlignmentBytes":
			fs = append(fs, Int(s.align))
		case "MaxUsers":
			fs = append(fs, users)
		case "IDLen":
			fs = append(fs, idlen)
		case "UseCoolDown":
			if s.cool {
				fs = append(fs, True)
			} else {
				fs = append(fs, False)
			}
		case "HashBits":
			fs = append(fs, Int(s.hash))
		default:
			fs = append(fs, zeroOf(f.Type()))
		}
	}
	st.facts = st.facts.add(Not(Eq(set, Nil)))
	e.store(st, set, mk("struct", sty, "", 0, fs...), sty)
	outs, ok := c.eval(e, open, args, st)
	if !ok {
		return
	}
	pos := fnPos(open)
	n := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "a cache opens for every setting", fnKey(open), pos, "panics") {
			continue
		}
		its := items(o.st.trace, nil)
		c.byError(open, o, func(f *Facts, failed bool) {
			evs := callsOf(its, fnKey(raw))
			if failed {
				c.ob(len(evs) == 1 && proveC(f, Not(isNilT(evs[0].Res[1]))), "a cache opens for every setting", fnKey(open), pos, "an error although the memory was mapped (%v)", s)
				return
			}
			n++
			c.ob(len(evs) == 1 && evs[0].Args[0] == args[0], "a cache opens for every setting", fnKey(open), pos, "the memory named is not mapped once")
			o.st.facts = f
			c.shmRead(e, o.st, simp(o.ret[0], f), dec, ms, s, users, idlen)
		})
	}
	c.ob(n > 0, "a cache opens for every setting", fnKey(open), pos, "no outcome opens it (%v)", s)
}

func (c *Check) shmRead(e *Engine, st *State, cc *Term, dec *ssa.Function, ms map[string]*ssa.Function, s shmSetting, users, idlen *Term) {
	uid := param("uid", types.Typ[types.Int])
	w := Add(idlen, Int(1))
	ids := Int(8)
	next := alignUp(Add(ids, Mul(w, Add(users, Int(1)))), s.align)
	money := Add(Add(next, Scale(users, 4)), Int(4))
	hash := Add(Add(money, Scale(users, 4)), Int(8))
	if s.cool {
		hash = Add(hash, Scale(users, 4))
	}
	info := Add(hash, Int(4<<uint(s.hash)+4+8))
	size := int64(userinfoCodec().size)
	for _, r := range []struct {
		name string
		at   *Term // of element uid
		size *Term
		conf bool // uid is limited by the setting
	}{
		{"Version", Int(0), Int(4), false},
		{"UserID", Add(ids, Mul(w, uid)), w, true},
		{"Money", Add(money, Scale(uid, 4)), Int(4), true},
		{"UserInfo", Add(info, Scale(uid, size)), Int(size), false},
	} {
		fn := ms[r.name]
		args := []*Term{cc}
		if r.name != "Version" {
			args = append(args, uid)
		}
		e.obls = nil
		outs, err := e.Call(fn, args, st.clone())
		c.used(e)
		what := fnKey(fn)
		if !c.ob(err == nil, "analysis", what, fnPos(fn), "undecided: %v (%v)", err, s) {
			continue
		}
		hits, misses := 0, 0
		for _, o := range outs {
			if !feasible(o) || !c.ob(okRet(o), "reading returns", what, fnPos(fn), "panics (%v)", s) {
				continue
			}
			// the mapped memory as the reader saw it
			var buf *Term
			look := func(t *Term) {
				for x := range subTerms(t) {
					if x.Op == "content" && len(x.Args) == 1 && strings.HasPrefix(x.Args[0].String(), "inv:Bytes(") {
						buf = x
					}
				}
			}
			reachable(e, o.st, o.ret[0], map[*Term]bool{}, look)
			for _, k := range nf(o.st.facts).list() {
				look(k)
			}
			f0 := saturate(nf(guarded(nf(o.st.facts), o)))
			if f0 == nil || contradictory(f0) {
				continue
			}
			in := []*Term{Ge0(uid)}
			if r.name == "Version" {
				in = nil
			}
			if r.conf {
				in = append(in, Ge0(Sub(Sub(users, uid), Int(1))))
			}
			if buf != nil {
				in = append(in, Ge0(Sub(SeqLen(buf), Add(r.at, r.size))))
			}
			all := True
			for _, k := range in {
				all = And2(all, k)
			}
			c.cases(f0, o.ret[0], func(f *Facts, v *Term) {
				if g := feasibleWith(f, all); g != nil {
					if !c.ob(buf != nil, "the value is read from its place", what, fnPos(fn), "the value of a configured element is %v without reading the memory (%v)", clip(v.String(), 120), s) {
						return
					}
					hits++
					why := c.shmValue(e, o.st, g, r.name, v, SubSeq(buf, r.at, r.size), dec, fn)
					c.ob(why == "", "the value is read from its place", what, fnPos(fn), "%s (%v)", why, s)
				}
				if g := feasibleWith(f, Not(all)); g != nil {
					misses++
					why := c.shmEmpty(e, o.st, g, v, fn, buf)
					c.ob(why == "", "outside the range the value is empty", what, fnPos(fn), "%s (%v)", why, s)
				}
			})
		}
		c.ob(hits > 0 && misses > 0, "the value is read from its place", what, fnPos(fn), "no outcome reads it (%v)", s)
		for _, o := range e.obls {
			c.ob(o.Ok, "reading stays inside the memory", what+" "+fnKey(o.Fn)+" "+o.Kind, o.Instr.Pos(), "%s (%v)", clip(o.Detail, 200), s)
		}
	}
}

// shmValue compares a value with the one stored in the bytes b.
func (c *Check) shmValue(e *Engine, st *State, f *Facts, name string, v, b *Term, dec, fn *ssa.Function) string {
	v = unwrapIn(f, v)
	var want *Term
	switch name {
	case "Version":
		want = leRead(b, 0, 4)
	case "Money":
		want = Wrap(types.Typ[types.Int32], leRead(b, 0, 4))
	case "UserID":
		want = Cstr(b)
	default:
		if v.Op == "record" {
			if x := simp(v.Args[0], f); !eqT(f, x, b) {
				return fmt.Sprintf("the record is decoded from %s, at its place is %s", clip(x.String(), 160), clip(b.String(), 160))
			}
			return ""
		}
		delete(e.contract, fnKey(dec))
		s1 := st.clone()
		s1.facts = f
		outs, err := e.Call(dec, []*Term{e.newBytes(b, nil)}, s1)
		if err != nil {
			return "undecided: " + err.Error()
		}
		good, why := 0, ""
		for _, o := range outs {
			g := nf(guarded(nf(o.st.facts), o))
			if !feasible(o) || !okRet(o) || contradictory(nf(saturate(g))) {
				continue
			}
			good++
			if w := e.deepEq(nf(saturate(g)), st, v, o.st, o.ret[0], nil, 0); w != "" && why == "" {
				why = "the record is not the one at its place: " + w
			}
		}
		if good == 0 {
			return "undecided: the record has no decoding"
		}
		return why
	}
	if eqT(f, v, want) {
		return ""
	}
	return fmt.Sprintf("the value is %s, at its place is %s", clip(v.String(), 160), clip(want.String(), 160))
}

// shmEmpty: the value holds no byte of the memory.
func (c *Check) shmEmpty(e *Engine, st *State, f *Facts, v *Term, fn *ssa.Function, buf *Term) string {
	v = simp(v, f)
	switch under(fn.Signature.Results().At(0).Type()).(type) {
	case *types.Basic:
		if isString(fn.Signature.Results().At(0).Type()) {
			if proveC(f, Eq0(SeqLen(v))) {
				return ""
			}
		} else if eqT(f, v, Int(0)) {
			return ""
		}
		return "the value is " + clip(v.String(), 160)
	}
	if proveC(f, isNilT(v)) {
		return "the record is nil"
	}
	if v.Op == "record" {
		if x := simp(v.Args[0], f); !proveC(f, Ge0(Sub(Int(int64(userinfoCodec().size)-1), SeqLen(x)))) {
			return "the record is decoded from " + clip(x.String(), 160)
		}
		return ""
	}
	why := ""
	reachable(e, st, v, map[*Term]bool{}, func(x *Term) {
		if buf != nil && why == "" {
			for y := range subTerms(simp(x, f)) {
				if y == buf {
					why = "the record holds bytes of the memory: " + clip(x.String(), 160)
				}
			}
		}
	})
	return why
}

func init() {
	checks["C31"] = checkDef{run: checkSHM, min: 30, rule: "abstract interpretation of the cache constructor and its readers for every alignment, cool-down and hash-bits setting with symbolic numbers of users and id lengths: the bytes read are those of the structure's offset polynomial, a uid outside the range reads nothing"}
}
