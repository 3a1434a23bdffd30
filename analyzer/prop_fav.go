package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: the favorites tree. Every decoder is decided against the layout with
// the decoders it calls replaced by their contract: on success a value and
// the place where it ended.

const startInside = "start inside the data"

// favDecoder is the contract of a decoder (data, start) -> (value, end, error).
func favDecoder(c *Check, calls *[]*Event) func(*cc) []Out {
	return func(k *cc) []Out {
		ev := k.e.newEvent(k.fr, k.in, "call", k.name, k.args, nil, k.st, k.deferred)
		d := k.bytes(0)
		ev.Content = []*Term{d}
		res := k.sig.Results()
		v := mk("res", res.At(0).Type(), k.name, int64(ev.ID)*8)
		end := mk("res", res.At(1).Type(), k.name, int64(ev.ID)*8+1)
		err := mk("res", errT, k.name, int64(ev.ID)*8+2)
		ev.Res = []*Term{v, end, err}
		k.st.push(ev)
		if calls != nil {
			*calls = append(*calls, ev)
		}
		start := k.args[1]
		k.e.oblige(k.fr, k.in, startInside, And2(Ge0(start), Ge0(Sub(SeqLen(d), start))), k.st)
		return k.e.fork(k.st, Eq(err, Nil), func(st *State) []Out {
			st.facts = st.facts.add(Not(Eq(v, Nil))).add(Ge0(Sub(end, start))).add(Ge0(Sub(SeqLen(d), end))).add(Ge0(end))
			return one(st, v, end, Nil)
		}, func(st *State) []Out { return one(st, Nil, end, err) })
	}
}

// favEval evaluates a decoder at any place inside the data.
func (c *Check) favEval(fn *ssa.Function, contracts ...*ssa.Function) (e *Engine, data, start *Term, outs []Out, calls []*Event, ok bool) {
	e = c.engine()
	for _, k := range contracts {
		e.contract[fnKey(k)] = favDecoder(c, &calls)
	}
	args := params(fn)
	st := newState()
	data = e.readSlice(st, args[0], types.Typ[types.Uint8])
	n := SeqLen(data)
	if len(args) > 1 {
		start = args[1]
		st.facts = st.facts.add(Ge0(start)).add(Ge0(Sub(n, start)))
	} else {
		start = Int(0)
	}
	outs, ok = c.eval(e, fn, args, st)
	for _, o := range e.obls {
		if o.Kind == startInside {
			c.ob(o.Ok, "decoding continues inside the data", fnKey(fn), o.Instr.Pos(), "%s", o.Detail)
		}
	}
	return
}

type favBody struct {
	code  int64
	typ   string
	size  int64
	attrs []attr
	kind  string // constant of the root package
}

func favBodies() []favBody {
	return []favBody{
		{1, "FavBoardItem", 12, []attr{u("board number", "u32", 0, "", "BoardID"), u("last visit", "time", 4, "", "LastVisit"), u("attribute", "u32", 8, "", "Attr")}, "FavoriteTypeBoard"},
		{2, "FavFolderItem", 50, []attr{u("folder number", "u8", 0, "", "FolderID"), s("title", "big5", 1, 49, "", "Title")}, "FavoriteTypeFolder"},
		{3, "FavLineItem", 1, []attr{u("line number", "u8", 0, "", "LineID")}, "FavoriteTypeLine"},
	}
}

func checkFav(c *Check) {
	fileFn := c.need("pttbbs", "UnmarshalFavFile")
	folderFn := c.need("pttbbs", "UnmarshalFavFolder")
	itemFn := c.need("pttbbs", "UnmarshalFavItem")
	if fileFn == nil || folderFn == nil || itemFn == nil {
		return
	}
	c.favFile(fileFn, folderFn, false)
	if open := c.need("pttbbs", "OpenFavFile"); open != nil {
		c.favFile(open, folderFn, true)
	}
	c.favFolder(folderFn, itemFn)
	c.favItem(itemFn)
	c.favFileOut()
	c.favFolderOut()
	c.favItemOut()
	c.favList()
}

// noInput: a step of reading the file failed.
func (c *Check) noInput(f *Facts, its []any, path *Term) bool {
	bad := false
	eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
		if ev.Kind == "call" && len(ev.Res) > 0 && len(ev.Args) > 0 {
			if err := ev.Res[len(ev.Res)-1]; types.Identical(err.Ty, errT) && proveC(f, Not(isNilT(err))) {
				bad = true
			}
		}
	})
	return bad
}

// the one successful call of a decoder in a list of trace items
func callsOf(its []any, name string) []*Event {
	var out []*Event
	eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
		if ev.Name == name {
			out = append(out, ev)
		}
	})
	return out
}

// favFile: a file is its version and the folder after it. The bytes are the
// argument, or all those of the file that the argument names.
func (c *Check) favFile(fn, folder *ssa.Function, named bool) {
	e, data, outs, ok := (*Engine)(nil), (*Term)(nil), []Out(nil), false
	var path *Term
	if named {
		e = c.engine()
		e.contract[fnKey(folder)] = favDecoder(c, nil)
		args := params(fn)
		path = args[0]
		outs, ok = c.eval(e, fn, args, newState())
	} else {
		e, data, _, outs, _, ok = c.favEval(fn, folder)
	}
	if !ok {
		return
	}
	ty := c.p.Type("pttbbs", "FavFile")
	key, pos := fnKey(fn), fnPos(fn)
	n := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "decoder returns", key, pos, "the decoder panics") {
			continue
		}
		its := items(o.st.trace, nil)
		c.byError(fn, o, func(f *Facts, failed bool) {
			evs := callsOf(its, fnKey(folder))
			data := data
			if named {
				in := c.openedFile(e, f, its, path)
				if in == nil || in.all == nil {
					c.ob(failed && c.noInput(f, its, path), "the file named is read", key, pos, "the whole file is not read")
					return
				}
				data = in.all
			}
			if failed {
				short := proveC(f, Ge0(Sub(Int(1), SeqLen(data))))
				bad := len(evs) == 1 && proveC(f, Not(isNilT(evs[0].Res[2])))
				c.ob(short || bad, "a complete file is accepted", key, pos, "an error although the version is there and the folder was read")
				return
			}
			n++
			if !c.ob(len(evs) == 1 && proveC(f, isNilT(evs[0].Res[2])), "the folder follows the version", key, pos, "success without having read one folder") {
				return
			}
			c.ob(eqT(f, evs[0].Content[0], data) && eqT(f, evs[0].Args[1], Int(2)), "the folder follows the version", key, pos, "the folder is read from %v", evs[0].Args[1])
			v := e.load(o.st, simp(o.ret[0], f), ty)
			ls := e.leaves(o.st, v, ty, "", nil, true)
			x, y := leafByName(ls, "Version"), leafByName(ls, "Folder")
			c.ob(x != nil && eqT(f, x.val, leRead(data, 0, 2)), "the version comes first", key, pos, "the version is not the first two bytes")
			c.ob(y != nil && eqT(f, y.val, evs[0].Res[0]), "the folder follows the version", key, pos, "the folder returned is not the one read")
		})
	}
	c.ob(n > 0, "decoder yields a tree", key, pos, "no path returns a file")
}

// a made is what one iteration of a loop adds to a list.
type made struct {
	it *LoopIter
	f  *Facts
	x  *Term
}

// collected finds the loop that makes a list element by element, by appending
// or by storing the element of iteration i at place i.
func (c *Check) collected(e *Engine, st *State, f *Facts, seq *Term, el types.Type) (*LoopItem, []made, string) {
	ps, ok := c.parts(e, st, f, seq, nil, el)
	if !ok || len(ps) != 1 {
		return nil, nil, "the list is not made by one loop"
	}
	var out []made
	if ps[0].kind == "fold" {
		for _, lf := range c.foldLeaves(e, ps[0], el) {
			if !lf.ok || len(lf.parts) != 1 || lf.parts[0].kind != "elem" {
				return nil, nil, "an iteration does not add one element"
			}
			out = append(out, made{lf.it, lf.f, simp(lf.parts[0].t, lf.f)})
		}
		return ps[0].l, out, ""
	}
	b := seq
	if b.Op == "sub" && b.Args[1] == Int(0) {
		b = b.Args[0]
	}
	for _, l := range e.loops {
		for _, m := range l.Mod {
			if m.Val != b {
				continue
			}
			for i := range l.Iters {
				it := &l.Iters[i]
				g := nf(it.Facts)
				if it.Guard != nil {
					g = addCond(g, it.Guard)
				}
				if g = saturate(nf(g)); contradictory(nf(g)) {
					continue
				}
				a, ok := it.Mem[m.Obj].(*ArrV)
				if !ok {
					return nil, nil, "an iteration stores the element in an unknown way"
				}
				// the element stored in this iteration, at its own place
				v := e.arrElem(a, l.Iter, el)
				rest := a.base
				if len(a.cells) == 0 && rest.Op == "upd" && rest.Args[0] == b && eqT(g, rest.Args[1], l.Iter) {
					v = rest.Args[2]
				} else {
					return nil, nil, "an iteration does not store one element at its place"
				}
				c.cases(g, v, func(g *Facts, v *Term) {
					if g = saturate(nf(g)); !contradictory(nf(g)) {
						out = append(out, made{it, g, v})
					}
				})
			}
			return l, out, ""
		}
	}
	return nil, nil, "the list is made by no loop"
}

// carried finds the loop variable with a value.
func carried(l *LoopItem, v *Term) *loopVar {
	for _, lv := range loopVars(l) {
		if lv.Val == v {
			x := lv
			return &x
		}
	}
	return nil
}

func (c *Check) favFolder(fn, item *ssa.Function) {
	e, data, start, outs, _, ok := c.favEval(fn, fn, item)
	if !ok {
		return
	}
	ty := c.p.Type("pttbbs", "FavFolder")
	ity := c.p.Type("pttbbs", "FavItem")
	fty := c.p.Type("pttbbs", "FavFolderItem")
	if !c.ob(ty != nil && ity != nil && fty != nil, "anchor", "favorites types", fnPos(fn), "a type is missing") {
		return
	}
	key, pos := fnKey(fn), fnPos(fn)
	hdr := SubSeq(data, start, Int(4))
	_ = hdr
	n := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "decoder returns", key, pos, "the decoder panics") {
			continue
		}
		its := items(o.st.trace, nil)
		c.byError(fn, o, func(f *Facts, failed bool) {
			if failed {
				// a complete folder is accepted: an error comes from a short
				// header or from a part
				if proveC(f, Ge0(Sub(Add(start, Int(3)), SeqLen(data)))) {
					return
				}
				c.cases(f, o.ret[2], func(f *Facts, r *Term) {
					from := r == Nil
					for x := range subTerms(r) {
						if x.Op == "res" && (x.S == key || x.S == fnKey(item)) && x.N%8 == 2 {
							from = true
						}
					}
					c.ob(from, "a complete folder is accepted", key, pos, "the error %v although the header is complete and no part failed", clip(r.String(), 120))
				})
				return
			}
			n++
			v := e.load(o.st, simp(o.ret[0], f), ty)
			ls := e.leaves(o.st, v, ty, "", nil, false)
			at := func(i int64) *Term { return At(data, Add(start, Int(i))) }
			nb := Add(at(0), Scale(at(1), 256))
			for _, a := range []struct {
				fld string
				w   *Term
			}{{"NBoards", nb}, {"NLines", at(2)}, {"NFolders", at(3)}} {
				x := leafByName(ls, a.fld)
				c.ob(x != nil && eqT(f, x.val, a.w), "the counts are read from their place", key+" "+a.fld, pos, "%s is not the count stored in the header", a.fld)
			}
			total := Add(Add(nb, at(2)), at(3))
			x := leafByName(ls, "FavItems")
			if !c.ob(x != nil, "anchor", key+" FavItems", pos, "the list of items is missing") {
				return
			}
			el := x.ty.Underlying().(*types.Slice).Elem()
			c.cases(f, listSeq(e, o.st, x.val, el), func(f *Facts, seq *Term) {
				c.favParts(e, fn, item, key, its, o, f, seq, el, data, start, total, ity, fty)
			})
		})
	}
	c.ob(n > 0, "decoder yields a tree", key, pos, "no path returns a folder")
}

func subTerms(t *Term) map[*Term]bool {
	seen := map[*Term]bool{}
	var walk func(*Term)
	walk = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(t)
	return seen
}

func (c *Check) favParts(e *Engine, fn, item *ssa.Function, key string, its []any, o Out, f *Facts, seq *Term, el types.Type, data, start, total *Term, ity, fty types.Type) {
	pos := fnPos(fn)
	if proveC(f, Eq0(total)) && proveC(f, Eq0(SeqLen(seq))) {
		c.ob(eqT(f, o.ret[1], Add(start, Int(4))), "a folder ends where its last part ended", key, pos, "an empty folder ends at %v", o.ret[1])
		return
	}
	if !c.ob(eqT(f, SeqLen(seq), total) || c.appendedAll(e, o.st, f, seq, el, total), "as many items as the counts add up to", key, pos, "the folder has %v items", clip(SeqLen(seq).String(), 160)) {
		return
	}
	l, leaves, why := c.collected(e, o.st, f, seq, el)
	if !c.ob(why == "", "items are read one after the other", key, pos, "undecided: %s", why) {
		return
	}
	why = c.leavesOnlyAtEnd(l, total, f)
	c.ob(why == "", "as many items as the counts add up to", key, pos, "%s", why)
	var chain *loopVar
	for _, m := range leaves {
		evs := callsOf(m.it.Items, fnKey(item))
		if !c.ob(len(evs) == 1 && len(callsOf(m.it.Items, key)) == 0, "items are read one after the other", key, pos, "an iteration reads %d items", len(evs)) {
			return
		}
		ev := evs[0]
		c.ob(proveC(m.f, isNilT(ev.Res[2])) && eqT(m.f, m.x, ev.Res[0]), "items are read one after the other", key, pos, "the item stored is not the one read, or reading it may have failed")
		c.ob(eqT(m.f, ev.Content[0], data), "items are read one after the other", key, pos, "the item is read from other data")
		lv := carried(l, ev.Args[1])
		if !c.ob(lv != nil, "items are read one after the other", key, pos, "an item is read from %v, which is not carried from item to item", clip(ev.Args[1].String(), 120)) {
			return
		}
		c.ob(eqT(m.f, lv.next(m.it), ev.Res[1]), "items are read one after the other", key, pos, "the next item is read from %v", clip(lv.next(m.it).String(), 120))
		c.ob(eqT(nf(l.Facts), lv.Init, Add(start, Int(4))), "items are read one after the other", key, pos, "the first item is read from %v", clip(lv.Init.String(), 120))
		chain = lv
	}
	if !c.ob(chain != nil, "items are read one after the other", key, pos, "no iteration reads an item") {
		return
	}
	// the sub-folders follow, in item order
	var l2 *LoopItem
	for _, it := range its {
		if lp, ok := it.(*LoopItem); ok && lp != l {
			var all []any
			for _, i := range lp.Iters {
				all = append(all, i.Items...)
			}
			if len(callsOf(all, key)) > 0 {
				if !c.ob(l2 == nil, "sub-folders follow in item order", key, pos, "undecided: sub-folders are read by several loops") {
					return
				}
				l2 = lp
			}
		}
	}
	if !c.ob(l2 != nil, "sub-folders follow in item order", key, pos, "no loop reads the sub-folders") {
		return
	}
	why = c.leavesOnlyAtEnd(l2, SeqLen(seq), f)
	c.ob(why == "", "sub-folders follow in item order", key, pos, "%s", why)
	var ch2 *loopVar
	for i := range l2.Iters {
		it := &l2.Iters[i]
		g := nf(it.Facts)
		if it.Guard != nil {
			g = addCond(g, it.Guard)
		}
		if g = saturate(nf(g)); contradictory(nf(g)) {
			continue
		}
		itp := simp(ElemAt(seq, l2.Iter, el), g)
		rec := e.load(it.St, itp, ity)
		x := leafByName(e.leaves(it.St, rec, ity, "", nil, false), "Item")
		if !c.ob(x != nil, "anchor", key+" Item", pos, "the body of an item is missing") {
			return
		}
		isF := mk("typeis", types.Typ[types.Bool], tyName(types.NewPointer(fty)), 0, x.val)
		if g1 := feasibleWith(g, isF); g1 != nil {
			evs := callsOf(it.Items, key)
			if !c.ob(len(evs) == 1, "sub-folders follow in item order", key, pos, "%d folders are read for a folder item", len(evs)) {
				return
			}
			ev := evs[0]
			lv := carried(l2, ev.Args[1])
			if !c.ob(lv != nil && eqT(g1, ev.Content[0], data), "sub-folders follow in item order", key, pos, "a sub-folder is read from %v, which is not carried from folder to folder", clip(ev.Args[1].String(), 120)) {
				return
			}
			ch2 = lv
			c.ob(proveC(g1, isNilT(ev.Res[2])) && eqT(g1, lv.next(it), ev.Res[1]), "sub-folders follow in item order", key, pos, "the next sub-folder is read from %v", clip(lv.next(it).String(), 120))
			p := mk("unbox", types.NewPointer(fty), "", 0, x.val)
			y := leafByName(e.leaves(it.St, e.load(it.St, p, fty), fty, "", nil, false), "ThisFolder")
			c.ob(y != nil && eqT(g1, y.val, ev.Res[0]), "a sub-folder belongs to its item", key, pos, "the folder read is not the one attached to the item: %v", y.val)
			z := leafByName(e.leaves(it.St, e.load(it.St, p, fty), fty, "", nil, false), "Title")
			c.ob(z != nil && z.val == Fld(mk("deref", fty, "", 0, p), fieldPath(fty, "Title")[0], z.ty, "Title"), "a sub-folder belongs to its item", key, pos, "the title of the item is changed: %v", z.val)
		}
	}
	if !c.ob(ch2 != nil, "sub-folders follow in item order", key, pos, "no sub-folder is read for a folder item") {
		return
	}
	for i := range l2.Iters {
		it := &l2.Iters[i]
		g := nf(it.Facts)
		if it.Guard != nil {
			g = addCond(g, it.Guard)
		}
		if g = saturate(nf(g)); contradictory(nf(g)) {
			continue
		}
		if len(callsOf(it.Items, key)) == 0 {
			c.ob(eqT(g, ch2.next(it), ch2.Val), "sub-folders follow in item order", key, pos, "another item moves the place of the next sub-folder")
		}
	}
	c.favNumbers(e, l2, key, pos, seq, ity, el)
	c.ob(eqT(f, ch2.Init, chain.Val), "sub-folders follow in item order", key, pos, "the first sub-folder is read from %v", clip(ch2.Init.String(), 120))
	c.ob(eqT(f, o.ret[1], ch2.Val), "a folder ends where its last part ended", key, pos, "the folder ends at %v", clip(o.ret[1].String(), 120))
}

// appendedAll: the list is appended to and its loop runs for every count.
// favNumbers checks that an iteration gives a folder (a line) the number it has
// among the folders (the lines): one more than what the loop has counted, which
// starts at 0 and grows by one at each folder (line) and at nothing else.
func (c *Check) favNumbers(e *Engine, l *LoopItem, key string, pos token.Pos, seq *Term, ity types.Type, el types.Type) {
	const rule = "folders and lines are numbered by position"
	for _, k := range []struct{ typ, fld string }{{"FavFolderItem", "FolderID"}, {"FavLineItem", "LineID"}} {
		kty := c.p.Type("pttbbs", k.typ)
		if !c.ob(kty != nil, "anchor", k.typ, pos, "the type is missing") {
			continue
		}
		what := key + " " + k.typ
		type step struct {
			it  *LoopIter
			f   *Facts
			val *Term // nil: another item
			ty  types.Type
		}
		var steps []step
		for i := range l.Iters {
			it := &l.Iters[i]
			g := nf(it.Facts)
			if it.Guard != nil {
				g = addCond(g, it.Guard)
			}
			if g = saturate(nf(g)); contradictory(nf(g)) {
				continue
			}
			itp := simp(ElemAt(seq, l.Iter, el), g)
			x := leafByName(e.leaves(it.St, e.load(it.St, itp, ity), ity, "", nil, false), "Item")
			if !c.ob(x != nil, "anchor", what, pos, "the body of an item is missing") {
				return
			}
			is := mk("typeis", types.Typ[types.Bool], tyName(types.NewPointer(kty)), 0, x.val)
			if g1 := feasibleWith(g, is); g1 != nil {
				p := mk("unbox", types.NewPointer(kty), "", 0, x.val)
				y := leafByName(e.leaves(it.St, e.load(it.St, p, kty), kty, "", nil, false), k.fld)
				if !c.ob(y != nil, "anchor", what+" "+k.fld, pos, "the number is missing") {
					return
				}
				steps = append(steps, step{it, g1, y.val, y.ty})
			}
			if g2 := feasibleWith(g, Not(is)); g2 != nil {
				steps = append(steps, step{it, g2, nil, nil})
			}
		}
		good, n := false, 0
		for _, lv := range loopVars(l) {
			first, ok := constInt(simp(lv.Init, l.Facts))
			if !ok || !isIntType(lv.Val.Ty) {
				continue
			}
			all := true
			n = 0
			for _, s := range steps {
				next := lv.Val
				if s.val != nil {
					n++
					next = Wrap(lv.Val.Ty, Add(lv.Val, Int(1)))
					if !eqT(s.f, s.val, Wrap(s.ty, Add(lv.Val, Int(1-first)))) {
						all = false
						break
					}
				}
				if !eqT(s.f, lv.next(s.it), next) {
					all = false
					break
				}
			}
			if all && n > 0 {
				good = true
				break
			}
		}
		c.ob(good, rule, what, pos, "the %s of an item is not its position among the items of its type on every path", k.fld)
	}
}

func (c *Check) appendedAll(e *Engine, st *State, f *Facts, seq *Term, el types.Type, total *Term) bool {
	ps, ok := c.parts(e, st, f, seq, nil, el)
	return ok && len(ps) == 1 && ps[0].kind == "fold"
}

func (c *Check) favItem(fn *ssa.Function) {
	e, data, start, outs, _, ok := c.favEval(fn)
	if !ok {
		return
	}
	ty := c.p.Type("pttbbs", "FavItem")
	key, pos := fnKey(fn), fnPos(fn)
	code := At(data, start)
	n := map[int64]bool{}
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "decoder returns", key, pos, "the decoder panics") {
			continue
		}
		c.byError(fn, o, func(f *Facts, failed bool) {
			none := f
			for _, b := range favBodies() {
				if none != nil {
					none = feasibleWith(none, Not(Eq0(Sub(code, Int(b.code)))))
				}
				g := feasibleWith(f, Eq0(Sub(code, Int(b.code))))
				if g == nil {
					continue
				}
				what := key + " " + b.typ
				if failed {
					g = feasibleWith(g, Ge0(Sub(SeqLen(data), Add(start, Int(2+b.size)))))
					c.ob(g == nil, "a complete item is accepted", what, pos, "an error although the item is complete")
					continue
				}
				n[b.code] = true
				rec := e.load(o.st, simp(o.ret[0], g), ty)
				ls := e.leaves(o.st, rec, ty, "", nil, false)
				for _, a := range []struct {
					fld string
					w   *Term
				}{{"FavType", code}, {"FavAttr", At(data, Add(start, Int(1)))}} {
					x := leafByName(ls, a.fld)
					c.ob(x != nil && eqT(g, x.val, a.w), "an item starts with its type and attribute", what+" "+a.fld, pos, "%s is not the byte stored", a.fld)
				}
				c.ob(eqT(g, o.ret[1], Add(start, Int(2+b.size))), "an item ends after its body", what, pos, "the item ends at %v", clip(simp(o.ret[1], g).String(), 120))
				x := leafByName(ls, "Item")
				bty := c.p.Type("pttbbs", b.typ)
				if !c.ob(x != nil && bty != nil, "anchor", what, pos, "the type or the body is missing") {
					continue
				}
				c.cases(g, x.val, func(g *Facts, v *Term) {
					if !c.ob(v.Op == "iface" && v.Ty != nil && types.Identical(v.Ty, types.NewPointer(bty)), "the body has the type stored", what, pos, "the body is %v", clip(v.String(), 120)) {
						return
					}
					bl := e.leaves(o.st, e.load(o.st, v.Args[0], bty), bty, "", nil, false)
					d := SubSeq(data, Add(start, Int(2)), Int(b.size))
					for _, a := range b.attrs {
						y := leafByName(bl, a.fld)
						c.ob(y != nil && c.matchDecode(e, o.st, g, a, d, *y, map[string]int{}), "decoded from its place", what+" "+a.name, pos, "%s is %v", a.fld, leafVal(y))
					}
				})
			}
			if !failed {
				c.ob(none == nil, "an unknown item type is refused", key, pos, "an item of a type other than 1, 2 and 3 is accepted")
			}
		})
	}
	for _, b := range favBodies() {
		c.ob(n[b.code], "every item type is decoded", fmt.Sprintf("%s %s", key, b.typ), pos, "no path decodes it")
	}
}

// ---- writing

func (c *Check) favFileOut() {
	fn, folder := c.needM("pttbbs", "FavFile", "MarshalBinary"), c.needM("pttbbs", "FavFolder", "MarshalBinary")
	ty := c.p.Type("pttbbs", "FavFile")
	if fn == nil || folder == nil || ty == nil {
		return
	}
	e := c.engine()
	e.opaque[fnKey(folder)] = true
	args, st := params(fn), newState()
	ls := e.leaves(st, e.load(st, args[0], ty), ty, "", nil, true)
	ver, fl := leafByName(ls, "Version"), leafByName(ls, "Folder")
	if !c.ob(ver != nil && fl != nil, "anchor", "FavFile", fnPos(fn), "an attribute is missing") {
		return
	}
	outs, ok := c.eval(e, fn, args, st)
	if !ok {
		return
	}
	key, pos, n := fnKey(fn), fnPos(fn), 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "encoder returns", key, pos, "the encoder panics") {
			continue
		}
		its := items(o.st.trace, nil)
		c.byError(fn, o, func(f *Facts, failed bool) {
			evs := callsOf(its, folder.String())
			if failed {
				c.ob(len(evs) == 1 && proveC(f, Not(isNilT(evs[0].Res[1]))), "every tree is written", key, pos, "an error although writing the folder did not fail")
				return
			}
			n++
			if !c.ob(len(evs) == 1 && eqT(f, evs[0].Args[0], fl.val) && proveC(f, isNilT(evs[0].Res[1])), "the folder follows the version", key, pos, "the folder is not written once") {
				return
			}
			bs := e.readSlice(o.st, simp(o.ret[0], f), types.Typ[types.Uint8])
			want := Cat(Cells([]*Term{ByteOf(ver.val, 0), ByteOf(ver.val, 1)}), Content(evs[0].Res[0]))
			c.ob(eqT(f, bs, want), "the folder follows the version", key, pos, "the file is %v", clip(simp(bs, f).String(), 200))
		})
	}
	c.ob(n > 0, "encoder yields the file", key, pos, "no path returns bytes")
}

func (c *Check) favFolderOut() {
	fn, item := c.needM("pttbbs", "FavFolder", "MarshalBinary"), c.needM("pttbbs", "FavItem", "MarshalBinary")
	ty, ity, fty := c.p.Type("pttbbs", "FavFolder"), c.p.Type("pttbbs", "FavItem"), c.p.Type("pttbbs", "FavFolderItem")
	if fn == nil || item == nil || ty == nil || ity == nil || fty == nil {
		return
	}
	e := c.engine()
	e.opaque[fnKey(fn)], e.opaque[fnKey(item)] = true, true
	args, st := params(fn), newState()
	ls := e.leaves(st, e.load(st, args[0], ty), ty, "", nil, false)
	nb, nl, nfo, list := leafByName(ls, "NBoards"), leafByName(ls, "NLines"), leafByName(ls, "NFolders"), leafByName(ls, "FavItems")
	if !c.ob(nb != nil && nl != nil && nfo != nil && list != nil, "anchor", "FavFolder", fnPos(fn), "an attribute is missing") {
		return
	}
	el := list.ty.Underlying().(*types.Slice).Elem()
	seq := listSeq(e, st, list.val, el)
	outs, ok := c.eval(e, fn, args, st)
	if !ok {
		return
	}
	key, pos, n := fnKey(fn), fnPos(fn), 0
	u8 := types.Typ[types.Uint8]
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "encoder returns", key, pos, "the encoder panics") {
			continue
		}
		c.byError(fn, o, func(f *Facts, failed bool) {
			if failed {
				c.cases(f, o.ret[1], func(f *Facts, r *Term) {
					from := r == Nil
					for x := range subTerms(r) {
						if x.Op == "res" && (strings.HasSuffix(x.S, "MarshalBinary")) {
							from = true
						}
					}
					c.ob(from, "every tree is written", key, pos, "the error %v although no part failed", clip(r.String(), 120))
				})
				return
			}
			c.cases(f, listSeq(e, o.st, o.ret[0], u8), func(f *Facts, bs *Term) {
				n++
				ps, ok := c.parts(e, o.st, f, bs, nil, u8)
				if !c.ob(ok && len(ps) == 6 && ps[3].kind == "elem" && ps[4].kind == "fold" && ps[5].kind == "fold", "counts, items, sub-folders", key, pos, "undecided: the folder is %v", clip(bs.String(), 200)) {
					return
				}
				for i, w := range []*Term{ByteOf(nb.val, 0), ByteOf(nb.val, 1), nl.val, nfo.val} {
					c.ob(eqT(f, ps[i].t, w), "the counts are written at their place", fmt.Sprintf("%s byte %d", key, i), pos, "byte %d is %v", i, clip(ps[i].t.String(), 120))
				}
				for k, what := range []string{"items", "sub-folders"} {
					p := ps[4+k]
					why := c.leavesOnlyAtEnd(p.l, SeqLen(seq), f)
					c.ob(why == "", "all "+what+" are written in order", key, pos, "%s", why)
					for _, lf := range c.foldLeaves(e, p, u8) {
						if !c.ob(lf.ok && len(lf.parts) <= 1, "all "+what+" are written in order", key, pos, "undecided: an iteration writes %v", clip(lf.val.String(), 160)) {
							continue
						}
						it := simp(ElemAt(seq, p.l.Iter, el), lf.f)
						x := leafByName(e.leaves(lf.it.St, e.load(lf.it.St, it, ity), ity, "", nil, false), "Item")
						want, f2 := it, lf.f
						if k == 1 {
							isF := mk("typeis", types.Typ[types.Bool], tyName(types.NewPointer(fty)), 0, x.val)
							set := Not(Eq(mk("unbox", types.NewPointer(fty), "", 0, x.val), Nil))
							if len(lf.parts) == 0 {
								c.ob(feasibleWith(lf.f, And2(isF, set)) == nil, "all "+what+" are written in order", key, pos, "a sub-folder is left out")
								continue
							}
							if f2 = feasibleWith(lf.f, And2(set, Not(isF))); !c.ob(f2 == nil, "all "+what+" are written in order", key, pos, "something is written for an item that is no folder") {
								continue
							}
							b := mk("unbox", types.NewPointer(fty), "", 0, x.val)
							want = leafByName(e.leaves(lf.it.St, e.load(lf.it.St, b, fty), fty, "", nil, false), "ThisFolder").val
							f2 = lf.f
						}
						good := false
						if len(lf.parts) == 1 && lf.parts[0].kind == "spread" {
							for _, ev := range append(callsOf(lf.it.Items, item.String()), callsOf(lf.it.Items, fn.String())...) {
								right := ev.Name == item.String()
								if k == 1 {
									right = ev.Name == fn.String()
								}
								good = good || right && lf.parts[0].t == Content(ev.Res[0]) && eqT(f2, ev.Args[0], want) && proveC(nf(saturate(nf(f2))), isNilT(ev.Res[1]))
							}
						}
						c.ob(good, "all "+what+" are written in order", key, pos, "an iteration does not write its own part exactly once")
					}
				}
			})
		})
	}
	c.ob(n > 0, "encoder yields the folder", key, pos, "no path returns bytes")
}

// favState is a state in which an item has a body of the given type.
func (c *Check) favState(e *Engine, recv *Term, ty types.Type, b favBody) (st *State, body *Term, bty types.Type) {
	st = newState()
	bty = c.p.Type("pttbbs", b.typ)
	if bty == nil {
		return nil, nil, nil
	}
	body = param("body", types.NewPointer(bty))
	st.facts = st.facts.add(Not(Eq(body, Nil)))
	v := e.load(st, recv, ty)
	s := structOf(ty)
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		x := Fld(v, i, s.Field(i).Type(), s.Field(i).Name())
		switch s.Field(i).Name() {
		case "Item":
			x = mk("iface", types.NewPointer(bty), tyName(types.NewPointer(bty)), 0, body)
		case "FavType":
			x = Int(b.code)
		}
		fs = append(fs, x)
	}
	e.store(st, recv, mk("struct", ty, "", 0, fs...), ty)
	return st, body, bty
}

func (c *Check) favItemOut() {
	fn := c.needM("pttbbs", "FavItem", "MarshalBinary")
	ty := c.p.Type("pttbbs", "FavItem")
	if fn == nil || ty == nil {
		return
	}
	pos := fnPos(fn)
	for _, b := range favBodies() {
		what := fnKey(fn) + " " + b.typ
		e := c.engine()
		args := params(fn)
		st, body, bty := c.favState(e, args[0], ty, b)
		if !c.ob(st != nil, "anchor", what, pos, "the type of the body is missing") {
			continue
		}
		fav := leafByName(e.leaves(st, e.load(st, args[0], ty), ty, "", nil, false), "FavAttr")
		bl := e.leaves(st, e.load(st, body, bty), bty, "", nil, false)
		outs, ok := c.eval(e, fn, args, st.clone())
		if !ok {
			continue
		}
		n := 0
		for _, o := range outs {
			if !feasible(o) || !c.ob(okRet(o), "encoder returns", what, pos, "the encoder panics") {
				continue
			}
			c.byError(fn, o, func(f *Facts, failed bool) {
				if !c.ob(!failed, "every item is written", what, pos, "an item of a known type yields an error") {
					return
				}
				n++
				bs := simp(e.readSlice(o.st, simp(o.ret[0], f), types.Typ[types.Uint8]), f)
				if !c.ob(eqT(f, SeqLen(bs), Int(2+b.size)), "encoded size", what, pos, "the item has %v bytes", SeqLen(bs)) {
					return
				}
				c.ob(eqT(f, At(bs, Int(0)), Int(b.code)) && fav != nil && eqT(f, At(bs, Int(1)), fav.val), "an item starts with its type and attribute", what, pos, "the first bytes are %v %v", At(bs, Int(0)), At(bs, Int(1)))
				for _, a := range b.attrs {
					x := leafByName(bl, a.fld)
					good, why := false, ""
					if x != nil {
						for i := range encodeSpec(a, x.val, 0) {
							all := true
							for j := 0; j < a.w && all; j++ {
								got, want := At(bs, Int(int64(2+a.off+j))), encodeSpec(a, x.val, j)[i]
								if !eqT(f, got, want) {
									all, why = false, fmt.Sprintf("byte %d is %v, the format has %v", a.off+j, clip(simp(got, f).String(), 120), clip(want.String(), 120))
								}
							}
							good = good || all
						}
					}
					c.ob(good, "encoded at its place", what+" "+a.name, pos, "%s", why)
				}
			})
		}
		c.ob(n > 0, "encoder yields the item", what, pos, "no path returns bytes")

		// what callers see of it
		for _, acc := range []string{"Type", "Title", "Records", "BoardID", "GetBoard", "GetFolder", "GetLine"} {
			m := c.needM("pttbbs", "FavItem", acc)
			if m == nil {
				continue
			}
			var folderRef *Term
			var sub types.Type
			for _, x := range bl {
				if x.path == ".ThisFolder" {
					folderRef, sub = x.val, c.p.Type("pttbbs", "FavFolder")
				}
			}
			if acc == "BoardID" && b.code == 1 {
				continue // see favList
			}
			s0 := st.clone()
			if acc == "Records" && folderRef != nil {
				s0.facts = s0.facts.add(Not(Eq(folderRef, Nil)))
			}
			mo, ok := c.eval(e, m, []*Term{args[0]}, s0)
			if !ok {
				continue
			}
			seen := 0
			for _, o := range mo {
				if !feasible(o) || !c.ob(okRet(o), "accessor returns", what+" "+acc, fnPos(m), "panics") {
					continue
				}
				f := nf(saturate(nf(guarded(nf(o.st.facts), o))))
				if contradictory(f) {
					continue
				}
				seen++
				good, got := false, o.ret[0]
				switch acc {
				case "Type":
					k, ok := c.p.ByPkg[""].Pkg.Scope().Lookup(b.kind).(*types.Const)
					good = ok && eqT(f, got, constTerm(ssa.NewConst(k.Val(), k.Type())))
				case "Title":
					x := leafByName(bl, "Title")
					switch b.code {
					case 1:
						good = proveC(f, Eq(got, Str("")))
					case 2:
						good = x != nil && eqT(f, got, x.val)
					case 3:
						good = proveC(f, Eq(got, Str(strings.Repeat("-", 42))))
					}
				case "BoardID":
					good = proveC(f, Eq(got, Str("")))
				case "GetBoard", "GetFolder", "GetLine":
					if types.Identical(m.Signature.Results().At(0).Type(), types.NewPointer(bty)) {
						good = eqT(f, got, body)
					} else {
						good = proveC(f, isNilT(got))
					}
				case "Records":
					if folderRef == nil {
						good = proveC(f, Eq0(SeqLen(got))) || proveC(f, isNilT(got))
						break
					}
					list := leafByName(e.leaves(o.st, e.load(o.st, folderRef, sub), sub, "", nil, false), "FavItems")
					ps, ok := c.parts(e, o.st, f, listSeq(e, o.st, got, elemOf(m.Signature.Results().At(0).Type())), nil, elemOf(m.Signature.Results().At(0).Type()))
					good = list != nil && ok && len(ps) == 1 && ps[0].kind == "spread" && ps[0].t == Content(list.val)
				}
				c.ob(good, "callers see what was stored", what+" "+acc, fnPos(m), "%s reports %v", acc, clip(simp(got, f).String(), 160))
			}
			c.ob(seen > 0, "callers see what was stored", what+" "+acc, fnPos(m), "no outcome")
		}
	}
}

// opened is the contract of a function (...) -> (value, error) that yields a
// value exactly when there is no error.
func opened(k *cc) []Out {
	ev := k.e.newEvent(k.fr, k.in, "call", k.name, k.args, nil, k.st, k.deferred)
	res := k.sig.Results()
	v := mk("res", res.At(0).Type(), k.name, int64(ev.ID)*8)
	err := mk("res", errT, k.name, int64(ev.ID)*8+1)
	ev.Res = []*Term{v, err}
	k.st.push(ev)
	_, ptr := under(res.At(0).Type()).(*types.Pointer)
	return k.e.fork(k.st, Eq(err, Nil), func(st *State) []Out {
		if ptr || types.IsInterface(res.At(0).Type()) {
			st.facts = st.facts.add(Not(Eq(v, Nil)))
		}
		return one(st, v, Nil)
	}, func(st *State) []Out { return one(st, Nil, err) })
}

// favList: the driver returns the items of the file with the names of their boards.
func (c *Check) favList() {
	fn := c.needM("pttbbs", "Connector", "ReadUserFavoriteRecordsFile")
	open, boards := c.need("pttbbs", "OpenFavFile"), c.need("pttbbs", "OpenBoardHeaderFile")
	acc, name := c.needM("pttbbs", "FavItem", "BoardID"), c.needM("pttbbs", "BoardHeader", "BoardID")
	fil, ty, ity := c.p.Type("pttbbs", "FavFile"), c.p.Type("pttbbs", "FavFolder"), c.p.Type("pttbbs", "FavItem")
	bty, fty := c.p.Type("pttbbs", "FavBoardItem"), c.p.Type("pttbbs", "FavFolderItem")
	if fn == nil || open == nil || boards == nil || acc == nil || name == nil || ty == nil || ity == nil || bty == nil || fty == nil {
		return
	}
	e := c.engine()
	e.contract[fnKey(open)], e.contract[fnKey(boards)] = opened, opened
	args, st := params(fn), newState()
	outs, ok := c.eval(e, fn, args, st)
	if !ok {
		return
	}
	key, pos, n := fnKey(fn), fnPos(fn), 0
	el := elemOf(fn.Signature.Results().At(0).Type())
	names := map[*LoopItem]bool{}
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "the items of the file are returned", key, pos, "panics") {
			continue
		}
		its := items(o.st.trace, nil)
		c.successes(fn, o, func(f *Facts, v *Term) {
			ev := callsOf(its, fnKey(open))
			if !c.ob(len(ev) == 1 && eqT(f, ev[0].Args[0], args[1]), "the items of the file are returned", key, pos, "the file named is not read once") {
				return
			}
			if !proveC(f, isNilT(ev[0].Res[1])) {
				g := feasibleWith(f, isNilT(ev[0].Res[1]))
				c.ob(g == nil && proveC(f, mk("isnotexist", types.Typ[types.Bool], "", 0, ev[0].Res[1])) && proveC(f, Eq0(e.sliceLen(v))), "the items of the file are returned", key, pos, "success although the file was not read")
				return
			}
			n++
			br := callsOf(its, fnKey(boards))
			if !c.ob(len(br) == 1 && proveC(f, isNilT(br[0].Res[1])), "items carry the names of their boards", key, pos, "success without having read the boards") {
				return
			}
			root := leafByName(e.leaves(o.st, e.load(o.st, ev[0].Res[0], fil), fil, "", nil, false), "Folder").val
			list := leafByName(e.leaves(o.st, e.load(o.st, root, ty), ty, "", nil, false), "FavItems").val
			ps, ok := c.parts(e, o.st, f, listSeq(e, o.st, v, el), nil, el)
			c.ob(ok && (len(ps) == 1 && ps[0].kind == "spread" && ps[0].t == Content(list) || len(ps) == 0 && proveC(f, Eq0(e.sliceLen(list)))), "the items of the file are returned", key, pos, "the list is %v", clip(v.String(), 160))
			// the loop that fills in the names
			var fill *LoopItem
			for _, it := range its {
				lp, ok := it.(*LoopItem)
				if !ok || fill != nil {
					continue
				}
				for _, i := range lp.Iters {
					itp := ElemAt(Content(list), lp.Iter, types.NewPointer(ity))
					body := leafByName(e.leaves(i.St, e.load(i.St, itp, ity), ity, "", nil, false), "Item").val
					p := mk("unbox", types.NewPointer(bty), "", 0, body)
					for k, x := range structFields(bty) {
						if w := Fld(e.load(i.St, p, bty), k, x.Type(), x.Name()); w != Fld(mk("deref", bty, "", 0, p), k, x.Type(), x.Name()) {
							fill = lp
						}
					}
				}
			}
			if !c.ob(fill != nil, "items carry the names of their boards", key, pos, "no loop over the items fills in a name") || names[fill] {
				return
			}
			names[fill] = true
			why := c.leavesOnlyAtEnd(fill, SeqLen(Content(list)), f)
			c.ob(why == "", "items carry the names of their boards", key, pos, "%s", why)
			for i := range fill.Iters {
				it := &fill.Iters[i]
				g := nf(it.Facts)
				if it.Guard != nil {
					g = addCond(g, it.Guard)
				}
				if g = saturate(nf(g)); contradictory(nf(g)) {
					continue
				}
				itp := ElemAt(Content(list), fill.Iter, types.NewPointer(ity))
				body := leafByName(e.leaves(it.St, e.load(it.St, itp, ity), ity, "", nil, false), "Item").val
				pb := mk("unbox", types.NewPointer(bty), "", 0, body)
				id := leafByName(e.leaves(it.St, e.load(it.St, pb, bty), bty, "", nil, false), "BoardID").val
				c.ob(id == Fld(mk("deref", bty, "", 0, pb), fieldPath(bty, "BoardID")[0], types.Typ[types.Uint32], "BoardID"), "items carry the names of their boards", key, pos, "the number of the board is changed")
				isB := mk("typeis", types.Typ[types.Bool], tyName(types.NewPointer(bty)), 0, body)
				isF := mk("typeis", types.Typ[types.Bool], tyName(types.NewPointer(fty)), 0, body)
				kind := leafByName(e.leaves(it.St, e.load(it.St, itp, ity), ity, "", nil, false), "FavType").val
				cnt := SeqLen(Content(br[0].Res[0]))
				h := g
				for _, k := range []*Term{isB, Not(Eq(pb, Nil)), Eq0(Sub(kind, Int(1))), Ge0(Sub(id, Int(1))), Ge0(Sub(cnt, id))} {
					if h != nil {
						h = feasibleWith(h, k)
					}
				}
				if h != nil {
					s1 := it.St.clone()
					s1.facts = h
					got, ok1 := c.eval(e, acc, []*Term{itp}, s1.clone())
					want, ok2 := c.eval(e, name, []*Term{ElemAt(Content(br[0].Res[0]), Sub(id, Int(1)), elemOf(boards.Signature.Results().At(0).Type()))}, s1.clone())
					good := ok1 && ok2
					for _, a := range got {
						for _, b := range want {
							fa := nf(guarded(nf(a.st.facts), a))
							good = good && okRet(a) && okRet(b) && (contradictory(nf(saturate(fa))) || eqT(saturate(fa), unwrapIn(saturate(fa), a.ret[0]), b.ret[0]))
						}
					}
					c.ob(good, "items carry the names of their boards", key, pos, "the board of an item is not the one with its number in the list of boards")
				}
				if h := feasibleWith(g, isF); h != nil {
					pf := mk("unbox", types.NewPointer(fty), "", 0, body)
					sub := leafByName(e.leaves(it.St, e.load(it.St, pf, fty), fty, "", nil, false), "ThisFolder").val
					good := false
					eachEvent(it.Items, nil, 0, func(ev *Event, _ *Facts, d int) {
						in := false
						for fn := fill.Fn; fn != nil; fn = fn.Parent() {
							in = in || ev.Name == fnKey(fn)
						}
						if ev.Kind == "rec" && in && len(ev.Args) > 1 && hasTerm(ev.Args, sub) {
							good = true
							// the same list of boards
							for i, a := range ev.Args {
								if a == Content(sub) || a == sub {
									continue
								}
								good = good && (a == br[0].Res[0] || a == Content(br[0].Res[0])) && i < len(ev.Args)
							}
						}
					})
					c.ob(good, "items carry the names of their boards", key, pos, "the boards of a sub-folder get no names")
				}
			}
		})
	}
	c.ob(n > 0, "the items of the file are returned", key, pos, "no outcome returns the items")
}

// unwrapIn drops the wrap-arounds of a value that cannot happen.
func unwrapIn(f *Facts, t *Term) *Term {
	m := map[*Term]*Term{}
	for x := range subTerms(t) {
		if x.Op == "wrap" {
			if w := noWrap(x, f); w != x {
				m[x] = w
			}
		}
	}
	return simp(subst(t, m), f)
}

func leafVal(l *leaf) string {
	if l == nil {
		return "missing"
	}
	return clip(l.val.String(), 160)
}

func elemOf(t types.Type) types.Type {
	if s, ok := under(t).(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func structFields(t types.Type) []*types.Var {
	s := structOf(t)
	var out []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, s.Field(i))
	}
	return out
}

func hasTerm(ts []*Term, x *Term) bool {
	for _, t := range ts {
		if t == x || t == Content(x) {
			return true
		}
	}
	return false
}

func init() {
	checks["C05"] = checkDef{run: checkFav, min: 30, rule: "abstract interpretation of every favorites decoder and encoder against the layout, with the parts it calls replaced by their contract (value, place where it ended): the counts, the items and the sub-folders are read and written each exactly where the previous part ended, in order, and every field from its place"}
}
