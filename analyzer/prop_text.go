package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32, C33, C36, C37: small values a record is made of.

// ---------------------------------------------------------------- C32

func checkRecommend(c *Check) {
	add := c.needM("pttbbs", "FileHeader", "AddRecommend")
	get := c.needM("pttbbs", "FileHeader", "Recommend")
	if add == nil || get == nil {
		return
	}
	e := c.engine()
	args := params(add)
	st := newState()
	score := func(st *State) *Term {
		outs, ok := c.eval(e, get, []*Term{args[0]}, st.clone())
		if !ok || len(outs) != 1 || !okRet(outs[0]) {
			c.ob(false, "the score is readable", fnKey(get), fnPos(get), "the accessor does not return one value")
			return nil
		}
		return outs[0].ret[0]
	}
	r := score(st)
	if r == nil {
		return
	}
	st.facts = assume(st.facts, Ge0(Add(r, Int(100))))
	st.facts = assume(st.facts, Ge0(Sub(Int(100), r)))
	u := args[1]
	sum := Add(r, u)
	want := Ite(Ge0(Sub(sum, Int(101))), Int(100), Ite(Ge0(Sub(Int(-101), sum)), Int(-100), sum))
	outs, ok := c.eval(e, add, args, st)
	if !ok {
		return
	}
	n := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "the score saturates", fnKey(add), fnPos(add), "panics") {
			continue
		}
		f := saturate(nf(o.st.facts))
		if f == nil {
			continue
		}
		n++
		got := score(o.st)
		if got == nil {
			continue
		}
		c.ob(eqT(f, got, want), "the score saturates", fnKey(add), fnPos(add), "from a score r within -100..100 and a change u the new score is %v; it must be r+u kept within -100..100", clip(got.String(), 300))
		for _, k := range []int64{-100, 100} {
			b := Add(got, Int(100))
			if k > 0 {
				b = Sub(Int(100), got)
			}
			c.ob(proveC(f, Ge0(b)), "the score stays in range", fnKey(add), fnPos(add), "the new score %v is not proved to be on the right side of %d", clip(got.String(), 300), k)
		}
		// nothing else of the record changes
		c.onlyLeaf(e, add, args[0], newState(), o.st, f, got, score(st))
	}
	c.ob(n > 0, "the score saturates", fnKey(add), fnPos(add), "no outcome returns")
	c.scoreWriters(add)
}

// onlyLeaf checks that the attributes of the record other than the changed one
// are as before.
func (c *Check) onlyLeaf(e *Engine, fn *ssa.Function, rec *Term, before, after *State, f *Facts, got, old *Term) {
	ty := derefT(rec.Ty)
	a := e.leaves(before, e.load(before, rec, ty), ty, "", nil, false)
	b := e.leaves(after, e.load(after, rec, ty), ty, "", nil, false)
	if !c.ob(len(a) == len(b), "nothing else changes", fnKey(fn), fnPos(fn), "the attributes cannot be compared") {
		return
	}
	for i := range a {
		if eqT(f, a[i].val, old) || eqT(f, b[i].val, got) {
			continue
		}
		c.ob(eqT(f, a[i].val, b[i].val), "nothing else changes", fnKey(fn)+" "+strings.TrimPrefix(a[i].path, "."), fnPos(fn), "the attribute becomes %v", clip(b[i].val.String(), 200))
	}
}

// scoreWriters: the stored score is changed by the score update and the
// decoder (which stores what the file holds) only.
func (c *Check) scoreWriters(add *ssa.Function) {
	rec := derefType(add.Params[0].Type())
	s := structOf(rec)
	field := -1
	for i := 0; i < s.NumFields(); i++ {
		if strings.EqualFold(s.Field(i).Name(), "recommend") {
			field = i
		}
	}
	if field < 0 {
		return
	}
	for _, fn := range c.p.Funcs {
		if fn.Blocks == nil || fn == add {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != field || derefType(fa.X.Type()) != rec {
					continue
				}
				for _, r := range *fa.Referrers() {
					st, ok := r.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(fa) {
						continue
					}
					// arithmetic on the stored score elsewhere would escape the saturation
					bad := false
					var seek func(v ssa.Value, d int)
					seek = func(v ssa.Value, d int) {
						if d > 6 || bad {
							return
						}
						switch x := v.(type) {
						case *ssa.BinOp:
							seek(x.X, d+1)
							seek(x.Y, d+1)
						case *ssa.Convert:
							seek(x.X, d+1)
						case *ssa.Phi:
							for _, y := range x.Edges {
								seek(y, d+1)
							}
						case *ssa.UnOp:
							if g, ok := x.X.(*ssa.FieldAddr); ok && g.Field == field && derefType(g.X.Type()) == rec && fn.Name() != add.Name() {
								bad = true
							}
						}
					}
					if bo, ok := st.Val.(*ssa.BinOp); ok {
						seek(bo, 0)
					}
					c.ob(!bad, "the score is changed in one place", fnKey(fn), st.Pos(), "the stored score is computed from the stored score outside the saturating update")
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C33

func checkConvert(c *Check) {
	type conv struct{ name, op string }
	for _, k := range []conv{{"Utf8ToBig5", "enc5"}, {"Big5ToUtf8", "dec5"}} {
		fn := c.need("", k.name)
		if fn == nil {
			continue
		}
		e := c.engine()
		args := params(fn)
		st := newState()
		outs, ok := c.eval(e, fn, args, st)
		if !ok {
			continue
		}
		n := 0
		for _, o := range outs {
			if !feasible(o) || !c.ob(okRet(o), "the whole text is converted", fnKey(fn), fnPos(fn), "panics") {
				continue
			}
			f := saturate(nf(o.st.facts))
			if f == nil {
				continue
			}
			n++
			in := e.textOf(newState(), args[0])
			got := e.textOf(o.st, o.ret[0])
			c.cases(f, got, func(f *Facts, got *Term) {
				if proveC(f, Eq0(SeqLen(in))) && proveC(f, Eq0(SeqLen(got))) {
					c.ob(true, "the whole text is converted", fnKey(fn), fnPos(fn), "")
					return
				}
				why := ""
				if got.Op == "enc5stop" {
					why = "; this encoder stops at the first character without a counterpart"
				}
				c.ob(eqT(f, got, mk(k.op, strT, "", 0, in)), "the whole text is converted", fnKey(fn), fnPos(fn), "the result is %v%s", clip(got.String(), 200), why)
			})
		}
		c.ob(n > 0, "the whole text is converted", fnKey(fn), fnPos(fn), "no outcome returns")
	}
	// every other use of a text converter
	for _, fn := range c.p.Funcs {
		if fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				n := ""
				if com.IsInvoke() {
					n = com.Method.FullName()
				} else if sc := com.StaticCallee(); sc != nil {
					n = sc.String()
				}
				if !strings.Contains(n, "golang.org/x/text/") {
					continue
				}
				c.ob(c.convOK(fn, n), "one conversion rule", fnKey(fn)+" "+n[strings.LastIndex(n, "/")+1:], in.Pos(), "%s calls %s itself; only the two converters are known to replace what cannot be converted", fnKey(fn), n)
			}
		}
	}
}

// convOK: the function is a converter, or only called by converters.
func (c *Check) convOK(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var ok func(fn *ssa.Function) bool
	ok = func(fn *ssa.Function) bool {
		if seen[fn] {
			return true
		}
		seen[fn] = true
		if fn.Parent() != nil {
			return ok(fn.Parent())
		}
		if fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Pkg == c.p.ByPkg[""] && (fn.Name() == "Utf8ToBig5" || fn.Name() == "Big5ToUtf8" || strings.HasPrefix(fn.Name(), "init")) {
			return true
		}
		if fn.Object() == nil || fn.Object().Exported() {
			return false
		}
		callers := c.callersOf(fn)
		for _, k := range callers {
			if !ok(k) {
				return false
			}
		}
		return len(callers) > 0
	}
	return ok(fn)
}

func (c *Check) callersOf(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range c.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op == ssa.Value(fn) {
						out = append(out, g)
					}
				}
			}
		}
	}
	return out
}

// textOf is the content of a string or byte slice value.
func (e *Engine) textOf(st *State, v *Term) *Term {
	if v == Nil {
		return Str("")
	}
	if v.Op == "ite" {
		return Ite(v.Args[0], e.textOf(st, v.Args[1]), e.textOf(st, v.Args[2]))
	}
	if sl, ok := under(v.Ty).(*types.Slice); ok && isByte(sl.Elem()) || v.Op == "slice" {
		return e.readSlice(st, v, byteT)
	}
	return v
}

// ---------------------------------------------------------------- C36

func checkNewRecords(c *Check) {
	attrs := map[string]string{"owner": "Owner", "date": "Date", "title": "Title", "board_id": "BoardID", "filename": "Filename"}
	type spec struct {
		name     string
		required []string
		stored   []string // held by an accessor
		fresh    string   // an accessor holding a value the operation makes
	}
	for _, s := range []spec{
		{"NewBoardRecord", []string{"board_id", "title"}, []string{"board_id", "title"}, ""},
		{"NewArticleRecordWithMap", []string{"owner", "date", "title", "board_id"}, []string{"owner", "date", "title"}, "Filename"},
		{"NewArticleRecord", nil, []string{"filename", "owner", "date", "title"}, ""},
	} {
		fn := c.needM("pttbbs", "Connector", s.name)
		if fn == nil {
			continue
		}
		key := fnKey(fn)
		e := c.engine()
		args := params(fn)
		argOf := map[string]*Term{}
		var mapArg *Term
		if s.required != nil {
			for i, p := range fn.Params {
				if _, ok := under(p.Type()).(*types.Map); ok {
					mapArg = args[i]
				}
			}
			if !c.ob(mapArg != nil, "anchor", key, fnPos(fn), "no map of attributes") {
				continue
			}
		} else {
			for i, n := range s.stored {
				argOf[n] = args[1+i]
			}
		}
		outs, ok := c.eval(e, fn, args, newState())
		if !ok {
			continue
		}
		good := 0
		for _, o := range outs {
			if !feasible(o) || !c.ob(okRet(o), "creation fails with an error", key, fnPos(fn), "panics") {
				continue
			}
			okf, _ := splitRet(fn, o)
			if okf == nil {
				continue
			}
			okf = saturate(nf(okf))
			if okf == nil {
				continue
			}
			good++
			st := o.st.clone()
			st.facts = okf
			rec := simp(o.ret[0], okf)
			for _, n := range s.required {
				m := c.mapEntry(okf, mapArg, n)
				c.ob(m != nil, "a required argument is present and text", key+" "+n, fnPos(fn), "creation succeeds on a path where %q is not proved to be present and a string", n)
				argOf[n] = m
			}
			for _, n := range s.stored {
				if argOf[n] == nil {
					continue
				}
				rs := c.callMethod(e, Out{kind: o.kind, ret: o.ret, st: st}, rec, attrs[n])
				c.ob(len(rs) > 0, "the record holds the argument", key+" "+n, fnPos(fn), "the record has no attribute %s", attrs[n])
				for _, r := range rs {
					c.ob(eqT(r.st.facts, r.ret[0], argOf[n]), "the record holds the argument", key+" "+n, fnPos(fn), "%s() of the new record is %v; %q was given as %v", attrs[n], clip(r.ret[0].String(), 200), n, argOf[n])
				}
			}
			made := (*Term)(nil)
			if s.fresh != "" {
				for _, r := range c.callMethod(e, Out{kind: o.kind, ret: o.ret, st: st}, rec, s.fresh) {
					made = r.ret[0]
					// the name that was created
					opened := false
					for _, ev := range outEvents(o) {
						if isOpen(ev) {
							if p := ev.Args[0]; eqT(okf, p, made) || endsWith(p, made) {
								opened = true
							}
						}
					}
					c.ob(opened, "the record holds the reserved name", key, fnPos(fn), "%s() is %v, which is not the name of the created file", s.fresh, clip(made.String(), 200))
				}
			}
			// every other attribute stays empty
			v := rec
			if v.Op == "iface" {
				v = v.Args[0]
			}
			if v.Op == "ref" && rec.Op == "iface" {
				ty := derefT(rec.Ty)
				held := map[string]bool{}
				for _, l := range e.leaves(st, e.load(st, v, ty), ty, "", nil, false) {
					name := strings.TrimPrefix(l.path, ".")
					val := simp(l.val, okf)
					known := made != nil && eqT(okf, val, made)
					for _, n := range s.stored {
						if argOf[n] != nil && eqT(okf, val, argOf[n]) && !held[n] {
							known = true
							held[n] = true
							break
						}
					}
					c.ob(known || isZeroTerm(val), "nothing else is set", key+" "+name, fnPos(fn), "the attribute is set to %v", clip(val.String(), 200))
				}
			}
		}
		c.ob(good > 0, "creation can succeed", key, fnPos(fn), "no outcome succeeds")
	}
	c.facade(map[string]bool{"NewBoardRecord": true, "CreateArticleRecord": true})
}

// mapEntry is the text given for a name, if proved to be present and a string.
func (c *Check) mapEntry(f *Facts, m *Term, name string) *Term {
	var got *Term
	for x := f; x != nil; x = x.parent {
		walk(x.cond, func(t *Term) bool {
			if t.Op == "mapget" && t.Args[1] == Str(name) && mentionsT(t.Args[0], m) {
				got = t
			}
			return true
		})
	}
	if got == nil {
		return nil
	}
	is := mk("typeis", boolT, "string", 0, got)
	if !proveC(f, is) {
		return nil
	}
	return mk("unbox", strT, "", 0, got)
}

func isZeroTerm(t *Term) bool {
	switch t.Op {
	case "int":
		return t.N == 0
	case "str":
		return t.S == ""
	case "nil", "false":
		return true
	case "zero":
		return true
	case "struct", "arr", "cells", "rep":
		for _, a := range t.Args {
			if !isZeroTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

// endsWith: a path whose last component is name.
func endsWith(p, name *Term) bool {
	a, b := catParts(p), catParts(name)
	if len(a) < len(b) || len(b) == 0 {
		return false
	}
	k := len(a) - len(b)
	for i := len(b) - 1; i > 0; i-- {
		if a[k+i] != b[i] {
			return false
		}
	}
	x, y := a[k], b[0]
	if x == y {
		return k > 0 && a[k-1].Op == "str" && strings.HasSuffix(a[k-1].S, "/")
	}
	return x.Op == "str" && y.Op == "str" && strings.HasSuffix(x.S, "/"+y.S)
}

func catParts(t *Term) []*Term {
	if t.Op == "cat" {
		return t.Args
	}
	return []*Term{t}
}

// ---------------------------------------------------------------- C37

const loginLayout = "[01/02/2006 15:04:05 Mon]"

func checkLogins(c *Check) {
	c.decodeAttempt()
	c.encodeAttempt()
	c.decodeRecent()
}

var timeType types.Type

func (c *Check) decodeAttempt() {
	fn := c.needM("pttbbs", "LoginAttempt", "UnmarshalText")
	if fn == nil {
		return
	}
	key := fnKey(fn)
	timeType = fieldType(fn.Params[0].Type(), "LoginStartTime")
	if !c.ob(timeType != nil, "anchor", key, fnPos(fn), "no LoginStartTime") {
		return
	}
	type form struct {
		name string
		mark int64
		id   bool
	}
	for _, fm := range []form{{"success mark", ' ', true}, {"failure mark", '-', true}, {"per-user line", '[', false}, {"other", 0, false}} {
		// lines that are long enough, and lines that are not
		for _, short := range []bool{false, true} {
			if fm.name == "other" && short {
				continue
			}
			e := c.engine()
			args := params(fn)
			st := newState()
			text := e.readSlice(st, args[1], byteT)
			n := SeqLen(text)
			at := func(i int64) *Term { return At(text, Int(i)) }
			off := int64(0)
			if fm.id {
				off = 13
			}
			if fm.name != "other" {
				st.facts = assume(st.facts, Ge0(Sub(n, Int(1))))
				st.facts = assume(st.facts, Eq0(Sub(at(0), Int(fm.mark))))
			}
			bar := off + int64(len(loginLayout))
			wantErr := ""
			switch {
			case fm.name == "other":
				wantErr = "a line that does not start with a mark or a time"
				for _, k := range []int64{' ', '-', '['} {
					st.facts = assume(st.facts, Not(Eq0(Sub(at(0), Int(k)))))
				}
			case short:
				wantErr = fmt.Sprintf("a line of less than %d bytes", bar+1)
				st.facts = assume(st.facts, Ge0(Sub(Int(bar), n)))
			default:
				st.facts = assume(st.facts, Ge0(Sub(n, Int(bar+1))))
			}
			con := key + " " + fm.name
			outs, ok := c.eval(e, fn, args, st)
			if !ok {
				continue
			}
			if wantErr != "" {
				for _, o := range outs {
					if !feasible(o) {
						continue
					}
					if !c.ob(okRet(o), "a malformed line is an error", con, fnPos(fn), "%s makes it panic", wantErr) {
						continue
					}
					okf, _ := splitRet(fn, o)
					if okf != nil {
						okf = saturate(nf(okf))
					}
					c.ob(okf == nil || contradictory(okf), "a malformed line is an error", con, fnPos(fn), "%s is accepted", wantErr)
				}
				continue
			}
			sub := SubSeq(text, Int(off), Int(int64(len(loginLayout))))
			rest := SubSeq(text, Int(bar+1), Sub(n, Int(bar+1)))
			good := 0
			for _, o := range outs {
				if !feasible(o) || !c.ob(okRet(o), "a line is decoded", con, fnPos(fn), "panics") {
					continue
				}
				okf, bad := splitRet(fn, o)
				sep := Eq0(Sub(at(bar), Int(' ')))
				// a refused line is malformed
				for _, f := range c.splitGates(bad, o.ret[len(o.ret)-1]) {
					tm := c.timeParse(f, o, loginLayout, sub)
					c.ob(tm != nil && proveC(f, Ite(sep, Not(Eq(tm[1], Nil)), True)), "a well-formed line is decoded", con, fnPos(fn), "a line of that form is refused although its separator is a space and its time is valid")
				}
				for _, f := range c.splitGates(okf, nil) {
					good++
					tm := c.timeParse(f, o, loginLayout, sub)
					if !c.ob(tm != nil, "the time of the line", con, fnPos(fn), "no time is parsed from bytes %d..%d by the layout %q", off, bar-1, loginLayout) {
						continue
					}
					c.ob(proveC(f, Eq(tm[1], Nil)), "a malformed time is an error", con, fnPos(fn), "success although the time was not parsed")
					c.ob(proveC(f, sep), "a malformed line is an error", con, fnPos(fn), "a line without a space after the time is accepted")
					get := func(field string) *Term {
						p := fieldPath(derefT(args[0].Ty), field)
						if p == nil {
							c.ob(false, "anchor", con+" "+field, fnPos(fn), "no field %s", field)
							return Nil
						}
						ft := fieldType(args[0].Ty, field)
						return e.load(o.st, refFieldPath(e, args[0], args[0].Ty, p), ft)
					}
					c.ob(eqT(f, get("LoginStartTime"), tm[0]), "the time of the line", con, fnPos(fn), "the time is %v", clip(get("LoginStartTime").String(), 200))
					succ := get("Success")
					if fm.mark == ' ' {
						c.ob(proveC(f, succ), "the mark of the line", con, fnPos(fn), "a line starting with a space is a success")
					} else {
						c.ob(proveC(f, Not(succ)), "the mark of the line", con, fnPos(fn), "a line starting with %q is not a success", rune(fm.mark))
					}
					id := get("UserID")
					want := Str("")
					if fm.id {
						want = mk("trim", strT, "space", 0, SubSeq(text, Int(1), Int(12)))
					}
					c.ob(sameID(f, id, want, SubSeq(text, Int(1), Int(12))), "the user id of the line", con, fnPos(fn), "the user id is %v, expected %v", clip(id.String(), 200), want)
					host := get("FromHost")
					pre := HasPrefixT(rest, "?@")
					wh := Ite(pre, SubSeq(rest, Int(2), Sub(SeqLen(rest), Int(2))), rest)
					c.ob(eqT(f, host, wh), "the host of the line", con, fnPos(fn), "the host is %v; expected the text from byte %d on, without a leading \"?@\"", clip(host.String(), 300), bar+1)
				}
			}
			c.ob(good > 0, "a line is decoded", con, fnPos(fn), "no outcome succeeds")
		}
	}
	// the empty line
	e := c.engine()
	args := params(fn)
	st := newState()
	st.facts = assume(st.facts, Eq0(SeqLen(e.readSlice(st, args[1], byteT))))
	outs, ok := c.eval(e, fn, args, st)
	if ok {
		for _, o := range outs {
			if !feasible(o) {
				continue
			}
			if c.ob(okRet(o), "a malformed line is an error", key+" empty", fnPos(fn), "an empty line makes it panic") {
				okf, _ := splitRet(fn, o)
				c.ob(okf == nil || contradictory(okf), "a malformed line is an error", key+" empty", fnPos(fn), "an empty line is accepted")
			}
		}
		for _, b := range e.obls {
			c.ob(b.Ok, "a malformed line is an error", key+" empty "+b.Kind, b.Instr.Pos(), "an empty line may make it panic: %s", b.Detail)
		}
	}
}

// sameID accepts any trimming of the padding on the right of the column.
func sameID(f *Facts, got, want, col *Term) bool {
	if eqT(f, got, want) {
		return true
	}
	got = simp(got, f)
	for _, o := range []string{"trim", "trimr"} {
		if got.Op == o && (got.S == "space" || got.S == " ") && eqT(f, got.Args[0], col) {
			return true
		}
	}
	return false
}

// splitGates splits facts over the undecided gates of a value.
func (c *Check) splitGates(f *Facts, v *Term) []*Facts {
	if f == nil {
		return nil
	}
	f = saturate(f)
	if f == nil || contradictory(f) {
		return nil
	}
	if v == nil {
		return []*Facts{f}
	}
	var out []*Facts
	c.cases(f, v, func(f *Facts, v *Term) {
		if v == Nil || contradictory(f) {
			return
		}
		if g := saturate(f); g != nil && !contradictory(g) {
			out = append(out, g)
		}
	})
	return out
}

// timeParse finds the parsing of the given text by the layout: its value and
// its error.
func (c *Check) timeParse(f *Facts, o Out, layout string, text *Term) []*Term {
	var res []*Term
	look := func(t *Term) {
		for _, x := range subterms(t, func(y *Term) bool {
			return y.Op == "fn" && strings.HasPrefix(y.S, "time.Parse") && len(y.Args) >= 2
		}) {
			if x.Args[0] == Str(layout) && eqT(f, x.Args[1], text) && (len(x.Args) == 2 || strings.Contains(x.Args[2].String(), "time.UTC")) {
				b := strings.TrimSuffix(x.S, ".1")
				res = []*Term{mk("fn", timeType, b, 0, x.Args...), mk("fn", errT, b+".1", 0, x.Args...)}
			}
		}
	}
	for _, r := range o.ret {
		look(r)
	}
	for x := f; x != nil; x = x.parent {
		look(x.cond)
	}
	return res
}

func fieldType(ty types.Type, name string) types.Type {
	ft := derefT(ty)
	p := fieldPath(ft, name)
	if p == nil {
		return nil
	}
	for _, i := range p {
		ft = structOf(ft).Field(i).Type()
	}
	return ft
}

func (c *Check) encodeAttempt() {
	fn := c.needM("pttbbs", "LoginAttempt", "MarshalText")
	if fn == nil {
		return
	}
	key := fnKey(fn)
	e := c.engine()
	args := params(fn)
	st := newState()
	get := func(field string) *Term {
		return e.load(st, refFieldPath(e, args[0], args[0].Ty, fieldPath(derefT(args[0].Ty), field)), fieldType(args[0].Ty, field))
	}
	succ, id, tm, host := get("Success"), get("UserID"), get("LoginStartTime"), get("FromHost")
	outs, ok := c.eval(e, fn, args, st)
	if !ok {
		return
	}
	text := mk("fn", strT, "(time.Time).Format", 0, tm, Str(loginLayout))
	n := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "the line of an attempt", key, fnPos(fn), "panics") {
			continue
		}
		okf, bad := splitRet(fn, o)
		if bad != nil {
			if g := saturate(bad); g != nil && !contradictory(g) {
				c.ob(false, "the line of an attempt", key, fnPos(fn), "an attempt cannot be encoded on some path")
			}
		}
		if okf = saturate(nf(okf)); okf == nil {
			continue
		}
		n++
		got := e.textOf(o.st, o.ret[0])
		for _, sys := range []bool{true, false} {
			for _, good := range []bool{true, false} {
				f := okf
				cond := Ge0(Sub(SeqLen(id), Int(1)))
				want := []*Term{text, Str(" "), host}
				if sys {
					f = addCond(f, cond)
					m := "-"
					if good {
						m = " "
					}
					want = []*Term{Str(m), mk("fmtv", strT, "%-12s", 0, id), text, Str(" ?@"), host}
				} else {
					f = addCond(f, Not(cond))
				}
				if f != nil {
					if good {
						f = addCond(f, succ)
					} else {
						f = addCond(f, Not(succ))
					}
				}
				if f == nil {
					continue
				}
				g := simp(got, f)
				c.cases(f, g, func(f *Facts, g *Term) {
					c.ob(eqT(f, normPad(g), normPad(Cat(want...))), "the line of an attempt", fmt.Sprintf("%s user id %v, success %v", key, sys, good), fnPos(fn), "the line is %v; expected %v", clip(g.String(), 300), Cat(want...))
				})
			}
		}
	}
	c.ob(n > 0, "the line of an attempt", key, fnPos(fn), "no outcome succeeds")
}

// normPad writes a padding to a column in one way.
func normPad(t *Term) *Term { return t }

func (c *Check) decodeRecent() {
	fn := c.need("pttbbs", "NewLoginRecentRecord")
	if fn == nil {
		return
	}
	key := fnKey(fn)
	e := c.engine()
	args := params(fn)
	const layout = "01/02/2006 15:04:05"
	line := args[0]
	sp := mk("split", nil, "", 0, line, Str(" "))
	outs, ok := c.eval(e, fn, args, newState())
	if !ok {
		return
	}
	var rt types.Type = fn.Signature.Results().At(0).Type()
	timeType = fieldType(rt, "LoginStartTime")
	n := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "a recent login is decoded", key, fnPos(fn), "panics") {
			continue
		}
		_ = sp
		okf, bad := splitRet(fn, o)
		i0 := Idx(line, Int(' '))
		three := func(f *Facts) *Term { return c.moreFields(f, o, line) }
		seg := func(k int64) *Term {
			for _, t := range c.termsOf(o, okf) {
				if t.Op == "sel" && t.Args[0].Op == "split" && t.Args[0].Args[0] == line && t.Args[0].Args[1] == Str(" ") && t.Args[1] == Int(k) {
					return t
				}
			}
			return nil
		}
		first := Ite(Ge0(i0), SubSeq(line, Int(0), i0), line)
		for _, f := range c.splitGates(bad, o.ret[1]) {
			l := three(f)
			if l != nil && proveC(f, Ge0(Sub(Int(2), l))) {
				c.ob(true, "a malformed line is an error", key, fnPos(fn), "")
				continue
			}
			tm := c.recentTime(f, o, layout, first, seg(1))
			c.ob(tm != nil && proveC(f, Not(Eq(tm[1], Nil))), "a well-formed line is decoded", key, fnPos(fn), "a line is refused that has three fields and a valid time")
		}
		for _, f := range c.splitGates(okf, nil) {
			n++
			l := three(f)
			c.ob(l != nil && proveC(f, Ge0(Sub(l, Int(3)))), "a malformed line is an error", key, fnPos(fn), "a line without three fields is accepted")
			tm := c.recentTime(f, o, layout, first, seg(1))
			if !c.ob(tm != nil, "the time of the line", key, fnPos(fn), "no time is parsed from the first two fields by the layout %q", layout) {
				continue
			}
			c.ob(proveC(f, Eq(tm[1], Nil)), "a malformed time is an error", key, fnPos(fn), "success although the time was not parsed")
			st := o.st.clone()
			st.facts = f
			rec := simp(o.ret[0], f)
			get := func(field string) *Term {
				return e.load(st, refFieldPath(e, rec, rt, fieldPath(derefT(rt), field)), fieldType(rt, field))
			}
			c.ob(eqT(f, get("LoginStartTime"), tm[0]), "the time of the line", key, fnPos(fn), "the time is %v", clip(get("LoginStartTime").String(), 200))
			h := get("FromHost")
			c.ob(seg(2) != nil && eqT(f, h, seg(2)), "the host of the line", key, fnPos(fn), "the host is %v, expected the third field", clip(h.String(), 200))
		}
	}
	c.ob(n > 0, "a recent login is decoded", key, fnPos(fn), "no outcome succeeds")
}

func (c *Check) recentTime(f *Facts, o Out, layout string, first, second *Term) []*Term {
	if second == nil {
		return nil
	}
	return c.timeParse(f, o, layout, Cat(first, Str(" "), second))
}

// termsOf lists the terms in the results and facts of an outcome.
func (c *Check) termsOf(o Out, f *Facts) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		walk(t, func(y *Term) bool {
			if seen[y] {
				return false
			}
			seen[y] = true
			out = append(out, y)
			return true
		})
	}
	for _, r := range o.ret {
		add(r)
		if r.Op == "ite" || r.Op == "ref" {
			reachable(c.lastEngine, o.st, r, map[*Term]bool{}, add)
		}
	}
	for _, ff := range []*Facts{f, o.st.facts} {
		for x := ff; x != nil; x = x.parent {
			if x.cond != nil {
				add(x.cond)
			}
		}
	}
	return out
}

// moreFields is the number of fields of the line.
func (c *Check) moreFields(f *Facts, o Out, line *Term) *Term {
	for _, t := range c.termsOf(o, f) {
		if t.Op == "len" && t.Args[0].Op == "split" && t.Args[0].Args[0] == line && t.Args[0].Args[1] == Str(" ") {
			return t
		}
	}
	return nil
}

func init() {
	checks["C32"] = checkDef{run: checkRecommend, min: 10,
		rule: "value graph of the score update for a symbolic score within -100..100 and every change: the accessor afterwards yields the sum kept within the bounds, no other attribute changes, and no other function computes the stored score from itself"}
	checks["C33"] = checkDef{run: checkConvert, min: 6,
		rule: "value graph of the two converters: for every input the result is the complete conversion of the whole input by an encoder that replaces what it cannot express; scan of the program for conversions made elsewhere"}
	checks["C36"] = checkDef{run: checkNewRecords, min: 30,
		rule: "value graph of the record constructors: on success each accessor yields the argument of its name, each required argument is proved present and text, every other attribute is empty; the reserved name is the one created; wiring of the facade operations"}
	checks["C37"] = checkDef{run: checkLogins, min: 30,
		rule: "value graph of the line codecs under each form of the line (mark, no mark, too short, other): results equal the columns of the format, success implies the format, refusal implies its violation"}
}
