package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C07
//
// A loader returns the fold of a loop over the records (or lines) of the file
// it opened: every iteration takes exactly one record and adds exactly its
// decoding, and the loop of a successful call was left because the file ended.

type loadSpec struct {
	pkg, recv, fn string
	size          int64 // 0: lines
	decPkg        string
	dec           string // decoder of a record or line
	decRecv       bool   // decoder is a method that fills its receiver
}

var loadSpecs = []loadSpec{
	{"pttbbs", "", "OpenBoardHeaderFile", 256, "pttbbs", "UnmarshalBoardHeader", false},
	{"pttbbs", "", "OpenFileHeaderFile", 128, "pttbbs", "NewFileHeaderWithByte", false},
	{"pttbbs", "", "OpenUserecFile", 512, "pttbbs", "UnmarshalUserec", false},
	{"pttbbs", "", "OpenUserInfoCache", 3484, "pttbbs", "UnmarshalUserInfo", false},
	{"formosabbs", "", "OpenFormosaBBSFileHeaderFile", 248, "formosabbs", "NewFomosaBBSFileHeaderWithByte", false},
	{"pttbbs", "", "OpenLoginRecentFile", 0, "pttbbs", "NewLoginRecentRecord", false},
	{"pttbbs", "", "OpenBadLoginFile", 0, "pttbbs", "LoginAttempt.UnmarshalText", true},
	{"pttbbs", "Connector", "ReadBoardRecordsFile", 256, "pttbbs", "UnmarshalBoardHeader", false},
	{"pttbbs", "Connector", "ReadArticleRecordsFile", 128, "pttbbs", "NewFileHeaderWithByte", false},
	{"pttbbs", "Connector", "ReadUserRecordsFile", 512, "pttbbs", "UnmarshalUserec", false},
}

func checkLoaders(c *Check) {
	for _, s := range loadSpecs {
		c.checkLoader(s)
	}
}

func (c *Check) checkLoader(s loadSpec) {
	var fn, dec *ssa.Function
	if s.recv != "" {
		fn = c.needM(s.pkg, s.recv, s.fn)
	} else {
		fn = c.need(s.pkg, s.fn)
	}
	if s.decRecv {
		dec = c.needM(s.decPkg, "LoginAttempt", "UnmarshalText")
	} else {
		dec = c.need(s.decPkg, s.dec)
	}
	if fn == nil || dec == nil {
		return
	}
	key := fnKey(fn)
	e := c.engine()
	args := params(fn)
	st := newState()
	outs, ok := c.eval(e, fn, args, st)
	if !ok {
		return
	}
	path := args[len(args)-1]
	sl, isl := under(fn.Signature.Results().At(0).Type()).(*types.Slice)
	if !c.ob(isl, "every record is returned", key, fnPos(fn), "the result is not a list") {
		return
	}
	el := sl.Elem()
	n := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "every record is returned", key, fnPos(fn), "panics") {
			continue
		}
		its := items(o.st.trace, nil)
		c.successes(fn, o, func(f *Facts, v *Term) {
			f = nf(f)
			if contradictory(f) {
				return
			}
			file := c.openedFile(e, f, its, path)
			if !c.ob(file != nil, "the file named is read", key, fnPos(fn), "success without having opened the file for reading") {
				return
			}
			c.cases(f, listSeq(e, o.st, v, el), func(f *Facts, seq *Term) {
				n++
				ps, ok := c.parts(e, o.st, f, seq, nil, el)
				if !c.ob(ok && len(ps) == 1 && ps[0].kind == "fold", "every record is returned", key, fnPos(fn), "the list is not what a loop over the records collects: %v", clip(seq.String(), 160)) {
					return
				}
				c.recordLoop(e, key, f, its, ps[0], el, file, s, dec)
			})
		})
	}
	c.ob(n > 0, "every record is returned", key, fnPos(fn), "no outcome returns the list")
}

// byError splits an outcome into the cases of its error result.
func (c *Check) byError(fn *ssa.Function, o Out, visit func(f *Facts, failed bool)) {
	f := nf(saturate(nf(o.st.facts)))
	if o.guard != nil {
		if f = addCond(f, o.guard); f == nil {
			return
		}
	}
	r := errResult(fn, o)
	if r == nil {
		r = Nil
	}
	c.cases(f, r, func(f *Facts, r *Term) {
		if f = nf(saturate(nf(f))); contradictory(f) {
			return
		}
		if r != Nil && isNilT(r) != False {
			if f = cross(f); f == nil {
				return
			}
		}
		if g := feasibleWith(f, isNilT(r)); g != nil {
			visit(g, false)
		}
		if g := feasibleWith(f, Not(isNilT(r))); g != nil {
			visit(g, true)
		}
	})
}

// cross simplifies every fact under all the others; nil: they contradict.
func cross(f *Facts) *Facts {
	l := f.list()
	for i := range l {
		var o *Facts
		for j := range l {
			if j != i {
				o = o.add(l[j])
			}
		}
		if l[i] = simp(l[i], nf(o)); l[i] == False {
			return nil
		}
	}
	var r *Facts
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] != True {
			r = r.add(l[i])
		}
	}
	if r = nf(saturate(nf(r))); contradictory(r) {
		return nil
	}
	return r
}

// successes visits the cases in which the outcome is no error, with the
// first result in each.
func (c *Check) successes(fn *ssa.Function, o Out, visit func(f *Facts, v *Term)) {
	c.byError(fn, o, func(f *Facts, failed bool) {
		if !failed {
			c.cases(f, o.ret[0], visit)
		}
	})
}

// an input is the source a loader reads from.
type input struct {
	file *Term // the open file
	all  *Term // or the whole content, read at once
}

// openedFile finds the file a successful call opened by its name.
func (c *Check) openedFile(e *Engine, f *Facts, its []any, path *Term) *input {
	var in *input
	eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
		if ev.Kind != "call" || d != 0 || len(ev.Args) == 0 {
			return
		}
		switch ev.Name {
		case "os.Open", "os.OpenFile":
			if eqT(f, ev.Args[0], path) && proveC(f, isNilT(ev.Res[1])) {
				in = &input{file: ev.Res[0]}
			}
		case "os.ReadFile", "io/ioutil.ReadFile":
			if eqT(f, ev.Args[0], path) && proveC(f, isNilT(ev.Res[1])) {
				in = &input{all: c.sliceContent(e, ev.Res[0])}
			}
		}
	})
	if in == nil || in.file == nil {
		return in
	}
	for _, nm := range []string{"io.ReadAll", "io/ioutil.ReadAll"} {
		for _, ev := range namedEvents(its, nm) {
			if isReader(its, ev.Args[0], in.file) && proveC(f, isNilT(ev.Res[1])) {
				in.all = c.sliceContent(e, ev.Res[0])
			}
		}
	}
	return in
}

// sliceContent is the content of a freshly made byte slice.
func (c *Check) sliceContent(e *Engine, sl *Term) *Term {
	if sl.Op == "slice" && sl.Args[0].Op == "ref" {
		if t := e.objs[sl.Args[0].N].init; t != nil {
			return t
		}
	}
	return Content(sl)
}

// isReader: the value reads the file, from the start, directly or through
// one buffer made before any reading.
func isReader(its []any, r, file *Term) bool {
	for r.Op == "iface" {
		r = r.Args[0]
	}
	if r == file {
		return true
	}
	for _, it := range its {
		ev, ok := it.(*Event)
		if ok && ev.Kind == "call" && (ev.Name == "bufio.NewReader" || ev.Name == "bufio.NewReaderSize") && ev.Res[0] == r {
			return isReader(its, ev.Args[0], file)
		}
	}
	return false
}

var readNames = map[string]int{"io.ReadFull": 0, "io.ReadAtLeast": 0, "(*os.File).Read": 0, "(*bufio.Reader).Read": 0}

// readsOf lists the events that take data from the file.
func readsOf(top, its []any, file *Term) (reads []*Event, other string) {
	eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
		if ev.Kind != "call" {
			return
		}
		if _, ok := readNames[ev.Name]; ok && isReader(top, ev.Args[0], file) {
			reads = append(reads, ev)
			return
		}
		switch ev.Name {
		case "(*os.File).Seek", "(*os.File).ReadAt", "io.ReadAll", "io.Copy", "io.CopyN", "(*bufio.Reader).Discard", "(*os.File).Truncate":
			for _, a := range ev.Args {
				if isReader(top, a, file) {
					other = ev.Name
				}
			}
		}
	})
	return
}

var errEOF = func(n string) func(*Term) bool {
	return func(x *Term) bool { return x.Op == "errglob" && x.S == n }
}

// isFileEnd: the error of a read says that the file ended.
func isFileEnd(f *Facts, err *Term) bool {
	g := nf(f)
	for _, n := range []string{"io.EOF", "io.ErrUnexpectedEOF"} {
		seen := map[*Term]bool{}
		for q := f; q != nil; q = q.parent {
			for _, t := range subterms(q.cond, errEOF(n)) {
				if seen[t] {
					continue
				}
				seen[t] = true
				for _, is := range []*Term{Eq(err, t), mk("errIs", boolT, "", 0, err, t)} {
					if g = feasibleWith(g, Not(is)); g == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Check) recordLoop(e *Engine, key string, f *Facts, its []any, p part, el types.Type, in *input, s loadSpec, dec *ssa.Function) {
	l := p.l
	pos := fnPos(l.Fn)
	var record func(it *LoopIter, f *Facts) *Term
	var atEnd func(x LoopExit, f *Facts) bool
	switch {
	case s.size == 0:
		tl := c.linesOf(f, its, l, in.file)
		if in.all != nil {
			tl = c.linesOf(f, its, l, in.all)
		}
		if !c.ob(tl != nil, "every record is returned", key, pos, "undecided: the loop is not over the lines of the file") {
			return
		}
		if w := tl.whole(f); !c.ob(w == "" || w == longLine, "every record is returned", key, pos, "%s", w) {
			return
		}
		record = func(it *LoopIter, f *Facts) *Term { return tl.line(it) }
		atEnd = tl.atEnd
	case in.all != nil:
		off := Scale(l.Iter, s.size)
		n := SeqLen(in.all)
		record = func(it *LoopIter, f *Facts) *Term {
			if !proveC(f, Ge0(Sub(Sub(n, off), Int(s.size)))) {
				return nil
			}
			return SubSeq(in.all, off, Int(s.size))
		}
		atEnd = func(x LoopExit, f *Facts) bool {
			return proveC(f, Ge0(Sub(Add(off, Int(s.size-1)), n)))
		}
	default:
		_, other := readsOf(its, its, in.file)
		before := 0
		for _, it := range its {
			if ev, ok := it.(*Event); ok && ev.ID < c.firstEvent(l) {
				r, _ := readsOf(its, []any{ev}, in.file)
				before += len(r)
			}
		}
		if !c.ob(other == "" && before == 0, "every record is returned", key, pos, "undecided: the file is not read from its start to its end (%s)", other) {
			return
		}
		record = func(it *LoopIter, f *Facts) *Term {
			evs, _ := readsOf(its, it.Items, in.file)
			if len(evs) != 1 || !proveC(f, Eq0(Sub(evs[0].Res[0], Int(s.size)))) || !eqT(f, e.sliceLen(evs[0].Args[1]), Int(s.size)) {
				return nil
			}
			return mk("rd", nil, "", int64(evs[0].ID), e.sliceLen(evs[0].Args[1]))
		}
		atEnd = func(x LoopExit, f *Facts) bool {
			evs, _ := readsOf(its, x.Items, in.file)
			return len(evs) == 1 && isFileEnd(f, evs[0].Res[1])
		}
	}
	ends := 0
	for _, x := range l.Exits {
		g := saturate(nf(x.Facts))
		if g == nil || contradictory(g) || x.Kind == oPanic {
			continue
		}
		if !exitPossible(f, x) {
			if evs, _ := readsOf(its, x.Items, in.file); s.size > 0 && in.all == nil && len(evs) == 1 {
				for _, n := range []string{"io.EOF", "io.ErrUnexpectedEOF"} {
					eof := mk("errglob", errT, n, 0)
					c.ob(feasibleWith(g, And2(Eq(evs[0].Res[1], eof), mk("errIs", boolT, "", 0, evs[0].Res[1], eof))) == nil, "a trailing partial record is no record", key, pos, "reading fails when a read reports %s", n)
				}
			}
			continue
		}
		ends++
		c.ob(atEnd(x, exitFacts(f, x)), "reading ends where the file ends", key, pos, "success although the reading may have stopped before the end of the file or failed")
	}
	c.ob(ends > 0, "reading ends where the file ends", key, pos, "the end of the file is not a success")
	for _, lf := range c.foldLeaves(e, p, el) {
		if !c.ob(lf.ok, "every record is returned", key, pos, "undecided: an iteration makes the list %v", clip(lf.val.String(), 160)) {
			return
		}
		rec := record(lf.it, lf.f)
		if !c.ob(rec != nil, "an iteration takes one record", key, pos, "an iteration does not take exactly one complete record of %d bytes, or does not take the next", s.size) {
			return
		}
		if !c.ob(len(lf.parts) == 1 && lf.parts[0].kind == "elem", "one entry for each record", key, pos, "a record adds %d entries to the list", len(lf.parts)) {
			return
		}
		why := c.decodes(e, l, lf, lf.parts[0].t, rec, s, dec)
		c.ob(why == "", "an entry is the decoding of its record", key, pos, "%s", why)
	}
}

func (c *Check) firstEvent(l *LoopItem) int {
	first := 1 << 60
	look := func(its []any) {
		eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
			if ev.ID < first {
				first = ev.ID
			}
		})
	}
	for _, it := range l.Iters {
		look(it.Items)
	}
	for _, x := range l.Exits {
		look(x.Items)
	}
	return first
}

// decodes compares an element with the decoding of the record.
func (c *Check) decodes(e *Engine, l *LoopItem, lf foldLeaf, x, rec *Term, s loadSpec, dec *ssa.Function) string {
	st := lf.it.St.clone()
	st.facts = lf.f
	x = simp(x, lf.f)
	var args []*Term
	var fresh *Term
	in := rec
	last := dec.Params[len(dec.Params)-1]
	if _, ok := under(last.Type()).(*types.Slice); ok {
		in = e.newBytes(rec, nil)
	}
	if s.decRecv {
		pt := under(dec.Params[0].Type()).(*types.Pointer)
		o := e.newObj(pt.Elem(), false, -1, zeroOf(pt.Elem()), nil)
		fresh = refOf(o)
		args = append(args, fresh)
	}
	args = append(args, in)
	outs, err := e.Call(dec, args, st)
	if err != nil {
		return "undecided: " + err.Error()
	}
	shared := map[int]bool{}
	for _, m := range l.Mod {
		shared[m.Obj] = true
	}
	good := 0
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		if o.guard != nil {
			g := feasibleWith(o.st.facts, o.guard)
			if g == nil {
				continue
			}
			o.st.facts = g
		}
		why := ""
		c.byError(dec, o, func(f *Facts, failed bool) {
			if failed {
				why = "an entry is added although decoding its record may have failed"
				return
			}
			want := fresh
			if want == nil {
				want = o.ret[0]
			}
			good++
			if w := e.deepEq(f, lf.it.St, x, o.st, want, shared, 0); w != "" && why == "" {
				why = "an entry is not the decoding of its record: " + w
			}
		})
		if why != "" {
			return why
		}
	}
	if good == 0 {
		return "undecided: the record has no decoding"
	}
	return ""
}

// deepEq compares two values with everything they point to.
func (e *Engine) deepEq(f *Facts, s1 *State, a *Term, s2 *State, b *Term, shared map[int]bool, depth int) string {
	a, b = simp(a, f), simp(b, f)
	for a.Op == "iface" {
		a = a.Args[0]
	}
	for b.Op == "iface" {
		b = b.Args[0]
	}
	if a.Op == "ref" && shared[int(a.N)] {
		return "shares memory with the other entries"
	}
	if depth > 6 || a == b && a.Op != "ref" {
		return ""
	}
	switch {
	case a.Op == "ref" && b.Op == "ref":
		oa, ob := e.objs[a.N], e.objs[b.N]
		if oa.ty == nil || ob.ty == nil || !types.Identical(oa.ty, ob.ty) {
			return "another type"
		}
		return e.deepEq(f, s1, e.load(s1, a, oa.ty), s2, e.load(s2, b, ob.ty), shared, depth+1)
	case a.Op == "struct" && b.Op == "struct" && len(a.Args) == len(b.Args):
		for i := range a.Args {
			if w := e.deepEq(f, s1, a.Args[i], s2, b.Args[i], shared, depth+1); w != "" {
				if stt, ok := under(a.Ty).(*types.Struct); ok && a.Ty != nil && i < stt.NumFields() {
					return stt.Field(i).Name() + " " + w
				}
				return w
			}
		}
		return ""
	case a.Op == "slice" && b.Op == "slice":
		var et types.Type
		if a.Args[0].Op == "ref" {
			if shared[int(a.Args[0].N)] {
				return "shares memory with the other entries"
			}
			et = e.objs[a.Args[0].N].ty
		}
		return e.deepEq(f, s1, e.readSlice(s1, a, et), s2, e.readSlice(s2, b, et), shared, depth+1)
	case a.Op == "list" && b.Op == "list" && len(a.Args) == len(b.Args):
		for i := range a.Args {
			if w := e.deepEq(f, s1, a.Args[i], s2, b.Args[i], shared, depth+1); w != "" {
				return w
			}
		}
		return ""
	}
	if eqT(f, a, b) {
		return ""
	}
	return "is " + clip(a.String(), 120) + " instead of " + clip(b.String(), 120)
}

const longLine = "a line may be longer than the buffer of the scanner"

func init() {
	checks["C07"] = checkDef{run: checkLoaders, min: 50,
		rule: "the list returned on success is the fold of one loop over the opened file; each iteration takes exactly one complete fixed-size record (or one line) and adds exactly its decoding; the loop is left only where the read reports the end of the file, or with an error"}
}
