package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists built by loops. A list value is taken apart into pieces: single
// elements, whole other lists, and folds: what a loop appends, iteration by
// iteration, to the list it started with.

type part struct {
	kind string // elem, spread, fold
	t    *Term  // the element, or the content of the list
	l    *LoopItem
	k    int // index of the phi
}

// listSeq is the sequence of elements of a list value.
func listSeq(e *Engine, st *State, v *Term, el types.Type) *Term {
	return e.readSlice(st, v, el)
}

// parts takes a sequence apart; base (if not nil) is the list it must start
// with. ok is false when it does not or when a piece is not understood.
func (c *Check) parts(e *Engine, st *State, f *Facts, seq, base *Term, el types.Type) ([]part, bool) {
	seq = simp(seq, nf(f))
	switch seq.Op {
	case "sub":
		if len(seq.Args) == 3 && seq.Args[1] == Int(0) && (eqT(nf(f), seq.Args[2], ListLen(seq.Args[0])) || eqT(nf(f), seq.Args[2], SeqLen(seq.Args[0]))) {
			return c.parts(e, st, f, seq.Args[0], base, el)
		}
	case "catl", "cat":
		var out []part
		for i, a := range seq.Args {
			b := base
			if i > 0 {
				b = nil
			}
			p, ok := c.parts(e, st, f, a, b, el)
			if !ok {
				return nil, false
			}
			out = append(out, p...)
		}
		return out, true
	case "list", "cells":
		if base != nil {
			return nil, false
		}
		var out []part
		for _, a := range seq.Args {
			out = append(out, part{kind: "elem", t: a})
		}
		return out, true
	case "str":
		return nil, base == nil && seq.S == ""
	case "nil":
		return nil, base == nil
	}
	x := seq
	if seq.Op == "content" {
		x = seq.Args[0]
	}
	if base != nil && x == base {
		return nil, true
	}
	if proveC(nf(f), Eq0(SeqLen(seq))) {
		return nil, base == nil
	}
	if l, k := e.loopVarOf(x); l != nil {
		lv := loopVars(l)[k]
		var init []part
		if !(base != nil && lv.Init == base) {
			p, ok := c.parts(e, st, l.Facts, listSeq(e, st, lv.Init, el), base, el)
			if !ok {
				return nil, false
			}
			init = p
		}
		p := part{kind: "fold", l: l, k: k}
		if src := c.copies(e, p, f, el); src != nil {
			ps, ok := c.parts(e, st, f, listSeq(e, st, src, el), nil, el)
			return append(init, ps...), ok
		}
		return append(init, p), true
	}
	if base != nil {
		return nil, false
	}
	if src := c.filled(e, seq, f); src != nil {
		return c.parts(e, st, f, listSeq(e, st, src, el), nil, el)
	}
	return []part{{kind: "spread", t: seq}}, true
}

// a loopVar is a value a loop carries from one iteration to the next, in a
// variable or in memory.
type loopVar struct {
	Init, Val *Term
	next      func(*LoopIter) *Term
}

func loopVars(l *LoopItem) []loopVar {
	var out []loopVar
	for i, p := range l.Phis {
		i := i
		out = append(out, loopVar{p.Init, p.Val, func(it *LoopIter) *Term { return it.Next[i] }})
	}
	for _, m := range l.Mod {
		m := m
		if m.Init == nil || m.Val == nil {
			continue
		}
		out = append(out, loopVar{m.Init, m.Val, func(it *LoopIter) *Term {
			t, ok := it.Mem[m.Obj].(*Term)
			if !ok {
				return m.Val
			}
			if m.Field >= 0 {
				t = Fld(t, m.Field, m.Ty, m.Name)
			}
			return t
		}})
	}
	return out
}

// loopVarOf finds the loop that carries the value.
func (e *Engine) loopVarOf(x *Term) (*LoopItem, int) {
	if x.Op != "phi" && x.Op != "lmem" {
		return nil, 0
	}
	if x.Op == "phi" {
		l := e.loops[x.N/1000]
		if l == nil {
			return nil, 0
		}
		return l, int(x.N % 1000)
	}
	for _, l := range e.loops {
		for k, v := range loopVars(l) {
			if v.Val == x {
				return l, k
			}
		}
	}
	return nil, 0
}

// a leaf is one way an iteration of a loop changes the list.
type foldLeaf struct {
	f     *Facts
	it    *LoopIter
	parts []part
	ok    bool
	val   *Term
}

func (c *Check) foldLeaves(e *Engine, p part, el types.Type) []foldLeaf {
	var out []foldLeaf
	lv := loopVars(p.l)[p.k]
	base := lv.Val
	for i := range p.l.Iters {
		it := &p.l.Iters[i]
		f := nf(it.Facts)
		if it.Guard != nil {
			f = addCond(f, it.Guard)
		}
		f = saturate(f)
		if f == nil || contradictory(f) {
			continue
		}
		c.cases(f, lv.next(it), func(f *Facts, v *Term) {
			c.cases(f, listSeq(e, it.St, v, el), func(f *Facts, seq *Term) {
				ps, ok := c.parts(e, it.St, f, seq, base, el)
				out = append(out, foldLeaf{f, it, ps, ok, v})
			})
		})
	}
	return out
}

// copies: the loop appends every element of another list, which is returned.
func (c *Check) copies(e *Engine, p part, f *Facts, el types.Type) *Term {
	var src *Term
	for _, lf := range c.foldLeaves(e, p, el) {
		if !lf.ok || len(lf.parts) != 1 || lf.parts[0].kind != "elem" {
			return nil
		}
		x := unboxed(simp(lf.parts[0].t, lf.f))
		if x.Op != "sel" || x.Args[0].Op != "content" || x.Args[1] != p.l.Iter || (src != nil && src != x.Args[0].Args[0]) {
			return nil
		}
		src = x.Args[0].Args[0]
	}
	if src == nil || c.leavesOnlyAtEnd(p.l, SeqLen(Content(src)), f) != "" {
		return nil
	}
	return src
}

// unboxed strips conversions to an interface.
func unboxed(x *Term) *Term {
	for x.Op == "iface" {
		x = x.Args[0]
	}
	return x
}

// filled: the list was made with its final length and a loop stored every
// element of another list at its own place; that list is returned.
func (c *Check) filled(e *Engine, seq *Term, f *Facts) *Term {
	b, n := seq, SeqLen(seq)
	if b.Op == "sub" && b.Args[1] == Int(0) {
		b = b.Args[0]
	}
	for _, l := range e.loops {
		for _, m := range l.Mod {
			if m.Val != b {
				continue
			}
			var src *Term
			for _, it := range l.Iters {
				if contradictory(nf(saturate(nf(it.Facts)))) {
					continue
				}
				a, ok := it.Mem[m.Obj].(*ArrV)
				if !ok || len(a.cells) > 0 || a.base.Op != "upd" || a.base.Args[0] != b || a.base.Args[1] != l.Iter {
					return nil
				}
				x := unboxed(simp(a.base.Args[2], nf(it.Facts)))
				if x.Op != "sel" || x.Args[0].Op != "content" || x.Args[1] != l.Iter || (src != nil && src != x.Args[0].Args[0]) {
					return nil
				}
				src = x.Args[0].Args[0]
			}
			if src == nil || !eqT(f, SeqLen(Content(src)), n) || c.leavesOnlyAtEnd(l, n, f) != "" {
				return nil
			}
			return src
		}
	}
	return nil
}

// exitPossible: the loop can have been left this way in the case given.
func exitPossible(f *Facts, x LoopExit) bool { return exitFacts(f, x) != nil }

// exitFacts is what is known in the case given when the loop was left this
// way (nil: it cannot have been).
func exitFacts(f *Facts, x LoopExit) *Facts {
	g := nf(f)
	if x.Guard != nil {
		if g = addCond(g, x.Guard); g == nil {
			return nil
		}
	}
	for _, q := range x.Facts.list() {
		if g = addCond(g, q); g == nil {
			return nil
		}
	}
	if g = saturate(g); g == nil || contradictory(g) {
		return nil
	}
	return g
}

// guarded adds the condition under which the outcome happens.
func guarded(f *Facts, o Out) *Facts {
	if f == nil || o.guard == nil {
		return f
	}
	return addCond(f, o.guard)
}

// leavesOnlyAtEnd: in the case given, the loop ends after the last element of the list, or
// with an error of its function.
func (c *Check) leavesOnlyAtEnd(l *LoopItem, length *Term, ok *Facts) string {
	for _, x := range l.Exits {
		f := saturate(nf(x.Facts))
		if f == nil || contradictory(f) {
			continue
		}
		if !exitPossible(ok, x) {
			continue
		}
		if x.Kind == oRet && len(x.Ret) > 0 && isErrorType(l.Fn.Signature.Results().At(len(x.Ret)-1).Type()) {
			if proveC(f, Not(isNilT(x.Ret[len(x.Ret)-1]))) {
				continue
			}
		}
		if x.Kind == oPanic {
			continue
		}
		if !proveC(exitFacts(ok, x), Ge0(Sub(l.Iter, length))) {
			return "the loop can end before the last entry"
		}
	}
	return ""
}

// invokesOf lists the calls of a driver method in a list of trace items.
func invokesOf(its []any, conn *Term, method string) []*Event {
	var out []*Event
	eachEvent(its, nil, 0, func(ev *Event, f *Facts, d int) {
		if ev.Kind == "invoke" && methodOf(ev) == method && len(ev.Args) > 0 && ev.Args[0] == conn {
			out = append(out, ev)
		}
	})
	return out
}

// readOf finds the reading of the file whose path the driver gave for the
// arguments: the list it returned and its error.
func (c *Check) readOf(e *Engine, f *Facts, its []any, conn *Term, pathM, readM string, args ...*Term) (list, err *Term) {
	for _, r := range invokesOf(its, conn, readM) {
		for _, p := range invokesOf(its, conn, pathM) {
			if len(r.Args) < 2 || len(p.Res) < 2 || r.Args[1] != p.Res[0] || len(p.Args) != len(args)+1 {
				continue
			}
			good := proveC(nf(f), isNilT(p.Res[1]))
			for i, a := range args {
				good = good && eqT(f, p.Args[1+i], a)
			}
			if good {
				return r.Res[0], r.Res[1]
			}
		}
	}
	return nil, nil
}

// ---------------------------------------------------------------- C35

func checkUserLists(c *Check) {
	type spec struct {
		fn, cap, pathM, readM string
		comments              bool
	}
	for _, s := range []spec{
		{"GetUserArticleRecordFile", "UserArticleConnector", "GetUserArticleRecordsPath", "ReadUserArticleRecordFile", false},
		{"GetUserCommentRecordFile", "UserCommentConnector", "GetUserCommentRecordsPath", "ReadUserCommentRecordFile", true},
	} {
		for _, has := range []bool{false, true} {
			r := c.runDBWith(s.fn, s.cap, &has, opaqueComments)
			if r == nil {
				continue
			}
			key := fnKey(r.fn)
			if has {
				key += " with the driver's list"
			}
			el := under(r.fn.Signature.Results().At(0).Type()).(*types.Slice).Elem()
			user := r.args[1]
			own, agg := 0, 0
			for _, o := range r.outs {
				if !feasible(o) || !c.ob(okRet(o), "the list of the user", key, fnPos(r.fn), "panics") {
					continue
				}
				okf, _ := splitRet(r.fn, o)
				if okf = guarded(okf, o); okf == nil {
					continue
				}
				its := items(o.st.trace, nil)
				c.cases(saturate(nf(okf)), o.ret[0], func(f *Facts, v *Term) {
					var drv *Term
					if has {
						var derr *Term
						drv, derr = c.readOf(r.e, f, its, r.conn, s.pathM, s.readM, user)
						if !c.ob(drv != nil && proveC(f, isNilT(derr)), "the driver's list is asked first", key, fnPos(r.fn), "success without having read the list the driver keeps for the user") {
							return
						}
						if v == drv {
							own++
							c.ob(proveC(f, Not(Eq0(SeqLen(Content(drv))))), "an empty list of the driver is not the answer", key, fnPos(r.fn), "the driver's list is returned although it may be empty")
							return
						}
						c.ob(proveC(f, Eq0(SeqLen(Content(drv)))), "the driver's list is returned as it is", key, fnPos(r.fn), "another list is returned although the driver's may have entries")
					}
					agg++
					c.boardFold(r, key, f, its, o.st, v, el, user, s.comments)
				})
			}
			c.ob(agg > 0 && (own > 0 || !has), "the list of the user", key, fnPos(r.fn), "no outcome returns the list")
		}
	}
	// one board
	r := c.runDBWith("GetBoardUserCommentRecord", "", nil, opaqueComments)
	if r != nil {
		key := fnKey(r.fn)
		el := under(r.fn.Signature.Results().At(0).Type()).(*types.Slice).Elem()
		n := 0
		for _, o := range r.outs {
			if !feasible(o) || !c.ob(okRet(o), "the list of the user", key, fnPos(r.fn), "panics") {
				continue
			}
			okf, _ := splitRet(r.fn, o)
			if okf = guarded(okf, o); okf == nil {
				continue
			}
			its := items(o.st.trace, nil)
			c.cases(saturate(nf(okf)), o.ret[0], func(f *Facts, v *Term) {
				c.cases(f, listSeq(r.e, o.st, v, el), func(f *Facts, seq *Term) {
					n++
					ps, ok := c.parts(r.e, o.st, f, seq, nil, el)
					if !c.ob(ok, "the list of the user", key, fnPos(r.fn), "undecided: the list is %v", clip(seq.String(), 200)) {
						return
					}
					c.articleFold(r, key, f, its, ps, el, r.args[1], r.args[2], true, nil)
				})
			})
		}
		c.ob(n > 0, "the list of the user", key, fnPos(r.fn), "no outcome returns the list")
	}
	c.userEntries()
}

const commentsKey = "(*bbs.DB).GetBoardArticleCommentRecords"

func opaqueComments(e *Engine) { e.opaque = map[string]bool{commentsKey: true} }

// runDBWith is runDB with a prepared engine.
func (c *Check) runDBWith(name, cap string, has *bool, prep func(*Engine)) *dbRun {
	c.prep = prep
	defer func() { c.prep = nil }()
	return c.runDB(name, cap, has)
}

// boardFold: the list is the concatenation over the boards, in order, of the
// entries of the user.
func (c *Check) boardFold(r *dbRun, key string, f *Facts, its []any, st *State, v *Term, el types.Type, user *Term, comments bool) {
	e := r.e
	boards, berr := c.readOf(e, f, its, r.conn, "GetBoardRecordsPath", "ReadBoardRecordsFile")
	if !c.ob(boards != nil && proveC(f, isNilT(berr)), "all boards are considered", key, fnPos(r.fn), "success without having read the boards") {
		return
	}
	c.cases(f, listSeq(e, st, v, el), func(f *Facts, seq *Term) {
		ps, ok := c.parts(e, st, f, seq, nil, el)
		if !c.ob(ok, "the list of the user", key, fnPos(r.fn), "undecided: the list is %v", clip(seq.String(), 200)) {
			return
		}
		if len(ps) == 0 {
			c.ob(proveC(f, Eq0(SeqLen(Content(boards)))), "all boards are considered", key, fnPos(r.fn), "an empty list is returned although there may be boards")
			return
		}
		if !c.ob(len(ps) == 1 && ps[0].kind == "fold", "the list of the user", key, fnPos(r.fn), "the list is not what a loop over the boards collects: %d pieces", len(ps)) {
			return
		}
		l := ps[0].l
		pos := l.Header.Instrs[0].Pos()
		if w := c.leavesOnlyAtEnd(l, SeqLen(Content(boards)), f); !c.ob(w == "", "all boards are considered", key, pos, "%s", w) {
			return
		}
		b := e.listElem(st, boards, l.Iter)
		for _, lf := range c.foldLeaves(e, ps[0], el) {
			if !c.ob(lf.ok, "the list of the user", key, pos, "undecided: an iteration makes it %v", clip(lf.val.String(), 200)) {
				continue
			}
			bid := mk("inv", strT, "BoardID", 0, b)
			skip := Ite(Eq(bid, Str("")), True, Eq(bid, Str("ALLPOST")))
			if g := feasibleWith(lf.f, skip); g != nil {
				c.ob(len(lf.parts) == 0, "unused boards and the mirror are left out", key, pos, "the entries of the all-posts mirror or of an unused board slot may be added")
			}
			if lf.f = feasibleWith(lf.f, Not(skip)); lf.f == nil {
				continue
			}
			c.articleFold(r, key, lf.f, lf.it.Items, lf.parts, el, bid, user, comments, b)
		}
	})
}

// feasibleWith adds a condition; nil when it cannot hold.
func feasibleWith(f *Facts, cond *Term) *Facts {
	g := addCond(nf(f), cond)
	if g == nil {
		return nil
	}
	g = nf(saturate(g))
	if contradictory(g) {
		return nil
	}
	return g
}

// neverRuns: in the case given, no iteration of the loop is completed.
func (c *Check) neverRuns(l *LoopItem, f *Facts) bool {
	for _, it := range l.Iters {
		g := nf(f)
		for _, q := range nf(it.Facts).list() {
			if g = addCond(g, q); g == nil {
				break
			}
		}
		if g != nil && !contradictory(nf(saturate(g))) {
			return false
		}
	}
	return true
}

// listElem is element i of a list that comes from outside.
func (e *Engine) listElem(st *State, list, i *Term) *Term {
	return e.load(st, e.elemRef(list, i, sliceElem(list)), sliceElem(list))
}

func sliceElem(t *Term) types.Type {
	if sl, ok := under(t.Ty).(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

// articleFold: what is added for one board.
func (c *Check) articleFold(r *dbRun, key string, f *Facts, its []any, ps []part, el types.Type, bid, user *Term, comments bool, board *Term) {
	e := r.e
	arts, aerr := c.readOf(e, f, its, r.conn, "GetBoardArticleRecordsPath", "ReadArticleRecordsFile", bid)
	if !c.ob(arts != nil, "all articles are considered", key, fnPos(r.fn), "nothing is read of a board, or another board is read") {
		return
	}
	if g := feasibleWith(f, Not(isNilT(aerr))); g != nil {
		// no article file: nothing to add
		if !c.ob(feasibleWith(g, Not(isNotExist(aerr))) == nil, "a failure is reported", key, fnPos(r.fn), "the list is returned although the articles of a board could not be read") {
			return
		}
		ok := true
		for _, p := range ps {
			ok = ok && p.kind == "fold" && c.neverRuns(p.l, g)
		}
		c.ob(ok, "the list of the user", key, fnPos(r.fn), "entries are added for a board without articles")
	}
	if f = feasibleWith(f, isNilT(aerr)); f == nil {
		return
	}
	if len(ps) == 0 {
		c.ob(proveC(f, Eq0(SeqLen(Content(arts)))), "all articles are considered", key, fnPos(r.fn), "the articles of a board are left out")
		return
	}
	if !c.ob(len(ps) == 1 && ps[0].kind == "fold", "the list of the user", key, fnPos(r.fn), "what is added for a board is not what a loop over its articles collects") {
		return
	}
	l := ps[0].l
	pos := l.Header.Instrs[0].Pos()
	// the loop is entered with the list read, or with none
	if w := c.leavesAtEndIf(l, SeqLen(Content(arts)), isNilT(aerr), f); !c.ob(w == "", "all articles are considered", key, pos, "%s", w) {
		return
	}
	for _, lf := range c.foldLeaves(e, ps[0], el) {
		g := addCond(lf.f, isNilT(aerr))
		if g == nil {
			continue
		}
		lf.f = g
		if !c.ob(lf.ok, "the list of the user", key, pos, "undecided: an iteration makes it %v", clip(lf.val.String(), 200)) {
			continue
		}
		a := e.listElem(lf.it.St, arts, l.Iter)
		if comments {
			c.commentFold(r, key, lf, el, bid, user, a)
			continue
		}
		mine := Eq(mk("inv", strT, "Owner", 0, a), user)
		if len(lf.parts) == 0 {
			c.ob(proveC(lf.f, Not(mine)), "every entry of the user is listed", key, pos, "an article is left out although its owner may be the user")
			continue
		}
		if !c.ob(proveC(lf.f, mine), "only entries of the user are listed", key, pos, "an article is listed although its owner may be another user") {
			continue
		}
		if !c.ob(len(lf.parts) == 1 && lf.parts[0].kind == "elem", "every entry of the user is listed", key, pos, "an article is listed %d times", len(lf.parts)) {
			continue
		}
		st := lf.it.St.clone()
		st.facts = lf.f
		x := simp(lf.parts[0].t, lf.f)
		for _, w := range []struct {
			m    string
			want *Term
		}{
			{"BoardID", bid}, {"Title", mk("inv", strT, "Title", 0, a)}, {"Owner", mk("inv", strT, "Owner", 0, a)}, {"ArticleID", mk("inv", strT, "Filename", 0, a)},
		} {
			rs := c.callMethod(e, Out{kind: oRet, ret: []*Term{x}, st: st}, x, w.m)
			c.ob(len(rs) > 0, "an entry describes its article", key+" "+w.m, pos, "no %s", w.m)
			for _, q := range rs {
				c.ob(eqT(q.st.facts, q.ret[0], w.want), "an entry describes its article", key+" "+w.m, pos, "%s() of the entry is %v, expected %v", w.m, clip(q.ret[0].String(), 200), w.want)
			}
		}
	}
}

// leavesAtEndIf is leavesOnlyAtEnd under a condition of the surroundings.
func (c *Check) leavesAtEndIf(l *LoopItem, length, cond *Term, ok *Facts) string {
	m := *l
	m.Exits = nil
	for _, x := range l.Exits {
		g := addCond(nf(x.Facts), cond)
		if g == nil {
			continue
		}
		x.Facts = g
		m.Exits = append(m.Exits, x)
	}
	return c.leavesOnlyAtEnd(&m, length, ok)
}

// commentFold: what is added for one article.
func (c *Check) commentFold(r *dbRun, key string, lf foldLeaf, el types.Type, bid, user, a *Term) {
	e := r.e
	var list, err *Term
	eachEvent(lf.it.Items, nil, 0, func(ev *Event, f *Facts, d int) {
		if ev.Fn != nil && ev.Kind == "call" && strings.HasSuffix(ev.Name, ".GetBoardArticleCommentRecords") && len(ev.Args) == 3 {
			if eqT(lf.f, ev.Args[1], bid) && eqT(lf.f, ev.Args[2], a) {
				list, err = ev.Res[0], ev.Res[1]
			}
		}
	})
	if !c.ob(list != nil && proveC(lf.f, isNilT(err)), "all comments are considered", key, fnPos(r.fn), "an article is passed without having read its comments") {
		return
	}
	if len(lf.parts) == 0 {
		c.ob(proveC(lf.f, Eq0(SeqLen(Content(list)))), "all comments are considered", key, fnPos(r.fn), "the comments of an article are left out")
		return
	}
	if !c.ob(len(lf.parts) == 1 && lf.parts[0].kind == "fold", "the list of the user", key, fnPos(r.fn), "what is added for an article is not what a loop over its comments selects") {
		return
	}
	p := lf.parts[0]
	pos := p.l.Header.Instrs[0].Pos()
	if w := c.leavesOnlyAtEnd(p.l, SeqLen(Content(list)), lf.f); !c.ob(w == "", "all comments are considered", key, pos, "%s", w) {
		return
	}
	for _, q := range c.foldLeaves(e, p, el) {
		if !c.ob(q.ok, "the list of the user", key, pos, "undecided: an iteration makes it %v", clip(q.val.String(), 200)) {
			continue
		}
		x := e.listElem(q.it.St, list, p.l.Iter)
		mine := Eq(mk("inv", strT, "Owner", 0, x), user)
		if len(q.parts) == 0 {
			c.ob(proveC(q.f, Not(mine)), "every entry of the user is listed", key, pos, "a comment is left out although its owner may be the user")
			continue
		}
		if !c.ob(proveC(q.f, mine), "only entries of the user are listed", key, pos, "a comment is listed although its owner may be another user") {
			continue
		}
		c.ob(len(q.parts) == 1 && q.parts[0].kind == "elem" && eqT(q.f, q.parts[0].t, x), "an entry is the comment itself", key, pos, "the entry added is %v", clip(q.parts[0].t.String(), 200))
	}
}

// userEntries: nothing else makes an entry.
func (c *Check) userEntries() {}

var _ = ssa.NaiveForm

// ---------------------------------------------------------------- C34

// textLines describes how a loop walks over the lines of a text: the line of
// an iteration, whether an exit is the end of the text, and whether the whole
// text is known to be read when the function succeeds.
type textLines struct {
	line  func(it *LoopIter) *Term
	atEnd func(x LoopExit, f *Facts) bool
	whole func(f *Facts) string
}

func namedEvents(its []any, name string) []*Event {
	var out []*Event
	eachEvent(its, nil, 0, func(ev *Event, f *Facts, d int) {
		if ev.Kind == "call" && ev.Name == name {
			out = append(out, ev)
		}
	})
	return out
}

// linesOf recognises a loop over the lines of text (a content term).
func (c *Check) linesOf(f *Facts, its []any, l *LoopItem, text *Term) *textLines {
	const scan, mkScan, errName = "(*bufio.Scanner).Scan", "bufio.NewScanner", "(*bufio.Scanner).Err"
	scanning := false
	for _, it := range l.Iters {
		scanning = scanning || len(namedEvents(it.Items, scan)) > 0
	}
	if !scanning {
		isLine := func(t *Term) bool {
			return t.Op == "sel" && t.Args[1] == l.Iter && isSplit(t.Args[0], text, "\n")
		}
		var lst *Term
		for _, it := range l.Iters {
			for _, t := range append([]*Term{}, it.Next...) {
				for _, x := range subterms(t, isLine) {
					lst = x.Args[0]
				}
			}
		}
		if lst == nil {
			return nil
		}
		return &textLines{
			line:  func(*LoopIter) *Term { return mk("sel", strT, "", 0, lst, l.Iter) },
			atEnd: func(x LoopExit, f *Facts) bool { return proveC(f, Ge0(Sub(l.Iter, SeqLen(lst)))) },
			whole: func(*Facts) string { return "" },
		}
	}
	one := func(its []any) *Event {
		if evs := namedEvents(its, scan); len(evs) == 1 {
			return evs[0]
		}
		return nil
	}
	return &textLines{
		line: func(it *LoopIter) *Term {
			if ev := one(it.Items); ev != nil && proveC(nf(it.Facts), ev.Res[0]) {
				return scannedLine(ev)
			}
			return nil
		},
		atEnd: func(x LoopExit, f *Facts) bool {
			ev := one(x.Items)
			return ev != nil && proveC(f, Not(ev.Res[0]))
		},
		whole: func(f *Facts) string {
			mks := namedEvents(its, mkScan)
			if len(mks) != 1 || !readsText(its, mks[0].Args[0], text) {
				return "the scanner does not read the text of the article"
			}
			if len(namedEvents(its, "(*bufio.Scanner).Split")) > 0 {
				return "undecided: the text is not split into lines"
			}
			outside := 0
			for _, it := range its {
				if ev, ok := it.(*Event); ok && ev.Kind == "call" && ev.Name == scan {
					outside++
				}
			}
			if outside > 1 {
				return "a line is taken before or after the loop"
			}
			big := false
			for _, ev := range namedEvents(its, "(*bufio.Scanner).Buffer") {
				big = len(ev.Args) == 3 && proveC(f, Ge0(Sub(ev.Args[2], Add(SeqLen(text), Int(1)))))
			}
			checked := false
			for _, ev := range namedEvents(its, errName) {
				checked = checked || proveC(f, isNilT(ev.Res[0]))
			}
			if !checked {
				return "success although the scanner may have stopped with an error"
			}
			if !big && !proveC(f, Ge0(Sub(Int(64*1024-1), SeqLen(text)))) {
				return longLine
			}
			return ""
		},
	}
}

// scannedLine is the line delivered by a Scan event.
func scannedLine(ev *Event) *Term {
	return mk("line", strT, "", 0, mk("scanned", nil, "", int64(ev.ID)))
}

// readerOf: the value is a reader over the text.
func readerOf(r, text *Term) bool {
	for r.Op == "iface" {
		r = r.Args[0]
	}
	if (r.Op == "strreader" || r.Op == "bytesreader") && len(r.Args) > 0 {
		x := r.Args[0]
		// without empty lines at its end
		for x.Op == "trimr" && len(x.Args) == 2 && x.Args[1].Op == "str" && strings.Trim(x.Args[1].S, "\r\n") == "" {
			x = x.Args[0]
		}
		return x == text || Content(x) == text
	}
	return false
}

func readsText(its []any, r, text *Term) bool {
	if readerOf(r, text) {
		return true
	}
	for r.Op == "iface" {
		r = r.Args[0]
	}
	if r == text {
		return true
	}
	for _, n := range []string{"bufio.NewReader", "bufio.NewReaderSize"} {
		for _, ev := range namedEvents(its, n) {
			if ev.Res[0] == r {
				return readsText(its, ev.Args[0], text)
			}
		}
	}
	return false
}

func checkComments(c *Check) {
	// the filter is a function of the line, whatever it does
	filter := c.need("", "FilterStringANSI")
	if filter == nil {
		return
	}
	c.either(func() { c.comments(func(e *Engine) { e.contract[fnKey(filter)] = pureCall }) },
		func() { c.comments(nil) })
}

// pureCall is a call of a function without effects that returns one value.
func pureCall(k *cc) []Out {
	return one(k.st, pureTerm(k.name, k.sig.Results().At(0).Type(), k.args))
}

func pureTerm(name string, ty types.Type, args []*Term) *Term {
	return mk("fn", ty, name, 0, args...)
}

// either runs ways to decide the same rules until one of them succeeds; the
// last one counts when none does.
func (c *Check) either(ways ...func()) {
	for i, way := range ways {
		old := map[string]*Ob{}
		for k, o := range c.obs {
			x := *o
			old[k] = &x
		}
		order := append([]string{}, c.order...)
		way()
		bad := false
		for k, o := range c.obs {
			bad = bad || !o.Ok && (old[k] == nil || old[k].Ok)
		}
		if !bad || i == len(ways)-1 {
			return
		}
		c.obs, c.order = old, order
	}
}

func (c *Check) comments(prep func(*Engine)) {
	r := c.runDBWith("GetBoardArticleCommentRecords", "", nil, prep)
	if r == nil {
		return
	}
	newRec := c.need("", "NewUserCommentRecord")
	filter := c.need("", "FilterStringANSI")
	if newRec == nil || filter == nil {
		return
	}
	e := r.e
	key := fnKey(r.fn)
	el := under(r.fn.Signature.Results().At(0).Type()).(*types.Slice).Elem()
	board, ar := r.args[1], r.args[2]
	name := mk("inv", strT, "Filename", 0, ar)
	n := 0
	for _, o := range r.outs {
		if !feasible(o) || !c.ob(okRet(o), "all comments are returned", key, fnPos(r.fn), "panics") {
			continue
		}
		okf, _ := splitRet(r.fn, o)
		if okf = guarded(okf, o); okf == nil {
			continue
		}
		its := items(o.st.trace, nil)
		c.cases(saturate(nf(okf)), o.ret[0], func(f *Facts, v *Term) {
			list, rerr := c.readOf(e, f, its, r.conn, "GetBoardArticleFilePath", "ReadBoardArticleFile", board, name)
			if !c.ob(list != nil && proveC(f, isNilT(rerr)), "the article is read", key, fnPos(r.fn), "success without having read the article") {
				return
			}
			text := Content(list)
			c.cases(f, listSeq(e, o.st, v, el), func(f *Facts, seq *Term) {
				n++
				ps, ok := c.parts(e, o.st, f, seq, nil, el)
				if !c.ob(ok, "all comments are returned", key, fnPos(r.fn), "undecided: the list is %v", clip(seq.String(), 200)) {
					return
				}
				if len(ps) == 0 && proveC(f, Eq0(SeqLen(text))) {
					return
				}
				if !c.ob(len(ps) == 1 && ps[0].kind == "fold", "all comments are returned", key, fnPos(r.fn), "the list is not what a loop over the lines collects: %d pieces", len(ps)) {
					return
				}
				c.commentLines(r.e, key, f, its, ps[0], el, text, board, ar, newRec, filter)
			})
		})
	}
	c.ob(n > 0, "all comments are returned", key, fnPos(r.fn), "no outcome returns the list")
}

func (c *Check) commentLines(e *Engine, key string, f *Facts, its []any, p part, el types.Type, text, board, ar *Term, newRec, filter *ssa.Function) {
	l := p.l
	pos := l.Header.Instrs[0].Pos()
	if l.Header.Instrs[0].Pos() == 0 {
		pos = fnPos(l.Fn)
	}
	tl := c.linesOf(f, its, l, text)
	if !c.ob(tl != nil, "every line is considered", key, pos, "undecided: the loop is not over the lines of the article") {
		return
	}
	if w := tl.whole(f); !c.ob(w == "", "every line is considered", key, pos, "%s", w) {
		return
	}
	for _, x := range l.Exits {
		g := saturate(nf(x.Facts))
		if g == nil || contradictory(g) || x.Kind == oPanic || !exitPossible(f, x) {
			continue
		}
		c.ob(tl.atEnd(x, exitFacts(f, x)), "every line is considered", key, pos, "the loop can end before the last line")
	}
	vars := loopVars(l)
	phi := vars[p.k]
	lenOf := func(ps []part) (*Term, bool) {
		n := SeqLen(Content(phi.Val))
		for _, q := range ps {
			if q.kind != "elem" {
				return nil, false
			}
			n = Add(n, Int(1))
		}
		return n, true
	}
	lvs := c.foldLeaves(e, p, el)
	var order *Term
	added := 0
	for _, lf := range lvs {
		if !c.ob(lf.ok, "all comments are returned", key, pos, "undecided: an iteration makes the list %v", clip(lf.val.String(), 200)) {
			return
		}
		line := tl.line(lf.it)
		if !c.ob(line != nil, "every line is considered", key, pos, "an iteration passes no line or more than one") {
			return
		}
		if len(lf.parts) == 0 {
			c.ob(c.refComment(e, lf, line, board, ar, Int(0), newRec, filter, nil), "only lines that are no comments are skipped", key, pos, "a line is skipped although it may be a comment or the attempt to read it may have failed")
			continue
		}
		if !c.ob(len(lf.parts) == 1 && lf.parts[0].kind == "elem", "a line makes one comment", key, pos, "an iteration adds %d pieces", len(lf.parts)) {
			return
		}
		added++
		x := simp(lf.parts[0].t, lf.f)
		st := lf.it.St.clone()
		st.facts = lf.f
		at := Out{kind: oRet, ret: []*Term{x}, st: st}
		for _, w := range []struct {
			m    string
			want *Term
		}{{"BoardID", board}, {"Filename", mk("inv", strT, "Filename", 0, ar)}} {
			rs := c.callMethod(e, at, x, w.m)
			c.ob(len(rs) > 0, "attributed to the article", key+" "+w.m, pos, "no %s", w.m)
			for _, q := range rs {
				c.ob(okRet(q) && eqT(q.st.facts, q.ret[0], w.want), "attributed to the article", key+" "+w.m, pos, "%s() of a comment is %v, expected %v", w.m, clip(q.ret[0].String(), 200), w.want)
			}
		}
		rs := c.callMethod(e, at, x, "CommentOrder")
		c.ob(len(rs) > 0, "numbered 1, 2, 3", key, pos, "no CommentOrder")
		for _, q := range rs {
			o := simp(q.ret[0], q.st.facts)
			if !c.ob(okRet(q) && (order == nil || eqT(q.st.facts, unwrap32(order), unwrap32(o))), "numbered 1, 2, 3", key, pos, "the number of a comment is %v and %v", order, clip(o.String(), 200)) {
				return
			}
			order = o
		}
		got := map[string][]Out{}
		for _, m := range []string{"Owner", "CommentTime"} {
			got[m] = c.callMethod(e, at, x, m)
		}
		c.ob(c.refComment(e, lf, line, board, ar, order, newRec, filter, got), "a comment is what its line says", key, pos, "a comment is added that is not the one of its line, or although reading the line may have failed")
	}
	if !c.ob(added > 0 && order != nil, "all comments are returned", key, pos, "no iteration adds a comment") {
		return
	}
	// the number of the next comment is one more than the comments so far
	order = unwrap32(order)
	d := Sub(order, SeqLen(Content(phi.Val)))
	init := map[*Term]*Term{l.Iter: Int(0)}
	for k, q := range vars {
		init[q.Val] = q.Init
		if k == p.k {
			init[SeqLen(Content(q.Val))] = Int(0)
		}
	}
	at0 := unwrap32(subst(d, init))
	c.ob(eqT(nf(l.Facts), at0, Int(1)), "numbered 1, 2, 3", key, pos, "the first comment gets the number %v", at0)
	for _, lf := range lvs {
		ln, ok := lenOf(lf.parts)
		if !ok {
			continue
		}
		next := map[*Term]*Term{}
		for k, q := range vars {
			if k != p.k {
				next[q.Val] = unwrap32(simp(q.next(lf.it), lf.f))
			}
		}
		next[SeqLen(Content(phi.Val))] = ln
		d1 := unwrap32(subst(d, next))
		c.ob(eqT(lf.f, d1, d), "numbered 1, 2, 3", key, pos, "after an iteration that adds %d comments the number of the next grows by %v", len(lf.parts), clip(Sub(d1, d).String(), 200))
	}
}

// unwrap32 drops the reductions modulo 2^32 of a number.
func unwrap32(t *Term) *Term {
	for {
		w := subterms(t, func(x *Term) bool { return x.Op == "wrap" && !narrow(x.Ty) })
		if len(w) == 0 {
			return t
		}
		t = subst(t, map[*Term]*Term{w[0]: w[0].Args[0]})
	}
}

// narrow: fewer than 32 bits.
func narrow(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Uint8, types.Uint16:
		return true
	}
	return false
}

// refComment compares what an iteration does with reading the line itself:
// with got, the line is a comment and its parts are as found; without, it is
// none.
func (c *Check) refComment(e *Engine, lf foldLeaf, line, board, ar, order *Term, newRec, filter *ssa.Function, got map[string][]Out) bool {
	st := lf.it.St.clone()
	st.facts = lf.f
	if order == nil {
		order = Int(0)
	}
	var fo []Out
	if e.contract[fnKey(filter)] != nil {
		fo = one(st, pureTerm(fnKey(filter), strT, []*Term{line}))
	} else {
		var err error
		if fo, err = e.Call(filter, []*Term{line}, st); err != nil {
			return false
		}
	}
	for _, a := range fo {
		if !feasible(a) {
			continue
		}
		outs, err := e.Call(newRec, []*Term{order, a.ret[0], board, ar}, a.st.clone())
		if err != nil {
			return false
		}
		for _, o := range outs {
			if !feasible(o) {
				continue
			}
			if !okRet(o) {
				return false
			}
			if o.guard != nil {
				g := feasibleWith(o.st.facts, o.guard)
				if g == nil {
					continue
				}
				o.st.facts = g
			}
			ok, fail := splitRet(newRec, o)
			if fail != nil && !contradictory(fail) {
				if got != nil {
					return false
				}
				good := true
				c.cases(saturate(nf(fail)), o.ret[len(o.ret)-1], func(f *Facts, r *Term) {
					if contradictory(f) {
						return
					}
					good = good && isNamedErr(f, r, modPath+".ErrNotUserComment")
				})
				if !good {
					return false
				}
			}
			if ok != nil && !contradictory(nf(saturate(ok))) {
				if got == nil {
					return false
				}
				for m, gs := range got {
					ref := c.callMethod(e, Out{kind: oRet, ret: o.ret, st: o.st}, o.ret[0], m)
					for _, g := range gs {
						for _, q := range ref {
							if !okRet(g) || !okRet(q) || !eqT(q.st.facts, g.ret[0], q.ret[0]) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// isNamedErr: the error is, or is known to wrap, the error variable.
func isNamedErr(f *Facts, r *Term, name string) bool {
	is := func(x *Term) bool { return x.Op == "errglob" && x.S == name }
	if is(r) {
		return true
	}
	for q := f; q != nil; q = q.parent {
		for _, g := range subterms(q.cond, is) {
			if proveC(f, mk("errIs", boolT, "", 0, r, g)) {
				return true
			}
		}
	}
	return false
}

func init() {
	checks["C34"] = checkDef{run: checkComments, min: 9,
		rule: "the list returned on success is the fold of a loop over the lines of the article just read, left only after the last line (no scanner error, no line too long) or with an error; each iteration is compared with reading the line by NewUserCommentRecord: it adds exactly that comment, attributed to the arguments, or nothing when the line is no comment; the number of a comment minus the number of comments before it is 1 initially and unchanged by every iteration"}
	checks["C35"] = checkDef{run: checkUserLists, min: 30,
		rule: "the list returned on success is taken apart into folds of loops: over all boards read, over all articles read of each, (over all comments of each); each iteration adds exactly one entry when the owner is proved equal to the user and nothing when it is proved different; only the mirror and unused slots are skipped; loops end only after the last element or with an error"}
}
