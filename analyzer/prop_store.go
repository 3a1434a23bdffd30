package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storeSim follows what a straight-line trace does to the files it opens:
// positions, sizes and content.
type storeSim struct {
	c     *Check
	e     *Engine
	facts *Facts
	names map[*Term]*Term // handle -> file name
	flags map[*Term]int64
	pos   map[*Term]*Term // handle -> position; missing means unknown
	seeks map[*Term]*Term // result of a Seek -> the position it stands for
	sizes map[*Term]bool  // terms that are the size of the file
	mods  []storeMod
	reads map[int]*storeRead // event id of a read -> where from
	loops int                // modifications inside loops
	after map[*Term]bool
}

type storeMod struct {
	ev      *Event
	kind    string // write, truncate, copy, remove, rename, writefile
	file    *Term
	flags   int64
	pos     *Term // nil: end of file (O_APPEND) or unknown
	content *Term
	n       *Term // truncate: new size
	src     *Term // copy: source file
	srcPos  *Term
	facts   *Facts
}

type storeRead struct {
	ev   *Event
	file *Term
	pos  *Term
}

func newSim(c *Check, e *Engine, o Out) *storeSim {
	s := &storeSim{c: c, e: e, facts: o.st.facts, names: map[*Term]*Term{}, flags: map[*Term]int64{}, pos: map[*Term]*Term{}, seeks: map[*Term]*Term{}, sizes: map[*Term]bool{}, reads: map[int]*storeRead{}}
	s.run(items(o.st.trace, nil), false)
	return s
}

func (s *storeSim) run(its []any, loop bool) {
	for _, it := range its {
		switch x := it.(type) {
		case *LoopItem:
			for _, l := range x.Iters {
				s.run(l.Items, true)
			}
		case *Event:
			s.event(x, loop)
		}
	}
}

func (s *storeSim) add(p *Term, n *Term) *Term {
	if p == nil || n == nil {
		return nil
	}
	return Add(p, n)
}

func (s *storeSim) event(ev *Event, loop bool) {
	if ev.Kind != "call" {
		return
	}
	if loop {
		if _, _, w := modifies(ev); w != "" {
			s.loops++
		}
	}
	h := (*Term)(nil)
	if len(ev.Args) > 0 {
		h = unwrapArg(ev.Args[0])
	}
	mod := func(m storeMod) {
		m.ev, m.facts = ev, ev.Facts
		if m.file == nil {
			m.file = s.names[h]
			m.flags = s.flags[h]
		}
		s.mods = append(s.mods, m)
	}
	if isOpen(ev) {
		s.names[ev.Res[0]] = ev.Args[0]
		s.flags[ev.Res[0]] = openFlags(ev)
		s.pos[ev.Res[0]] = Int(0)
		if openFlags(ev)&oTrunc != 0 {
			s.mods = append(s.mods, storeMod{ev: ev, kind: "truncate", file: ev.Args[0], flags: openFlags(ev), n: Int(0), facts: ev.Facts})
		}
		return
	}
	switch ev.Name {
	case "(*os.File).Stat":
		s.sizes[mk("fsize", types.Typ[types.Int64], "", 0, ev.Res[0])] = true
	case "os.Stat", "os.Lstat":
		s.sizes[mk("fsize", types.Typ[types.Int64], "", 0, ev.Res[0])] = true
	case "(*os.File).Seek":
		wh, ok := constInt(ev.Args[2])
		var np *Term
		switch {
		case ok && wh == 0:
			np = ev.Args[1]
		case ok && wh == 1:
			np = s.add(s.pos[h], ev.Args[1])
		case ok && wh == 2:
			np = ev.Res[0]
			if ev.Args[1] == Int(0) && len(s.mods) == 0 {
				s.sizes[ev.Res[0]] = true
			}
		}
		if np != nil {
			s.pos[h] = np
			s.seeks[ev.Res[0]] = np
		} else {
			delete(s.pos, h)
		}
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString":
		ct := ev.Content[1]
		p := s.pos[h]
		if s.flags[h]&oAppend != 0 {
			p = nil
		}
		mod(storeMod{kind: "write", pos: p, content: ct})
		if np := s.add(s.pos[h], SeqLen(ct)); np != nil {
			s.pos[h] = np
		}
	case "(*os.File).WriteAt":
		mod(storeMod{kind: "write", pos: ev.Args[2], content: ev.Content[1]})
	case "(*os.File).Truncate":
		mod(storeMod{kind: "truncate", n: ev.Args[1]})
	case "io.Copy", "io.CopyBuffer":
		src := unwrapArg(ev.Args[1])
		if s.names[h] != nil && s.names[src] != nil {
			mod(storeMod{kind: "copy", pos: s.pos[h], src: s.names[src], srcPos: s.pos[src]})
			s.pos[h] = s.add(s.pos[h], ev.Res[0])
			s.pos[src] = s.add(s.pos[src], ev.Res[0])
		} else if s.names[h] != nil {
			ct := src
			if src.Op == "strreader" {
				ct = src.Args[0]
			}
			mod(storeMod{kind: "write", pos: s.pos[h], content: ct})
			s.pos[h] = s.add(s.pos[h], SeqLen(ct))
		}
	case "io.ReadFull", "(*os.File).Read":
		s.reads[ev.ID] = &storeRead{ev, s.names[h], s.pos[h]}
		s.pos[h] = s.add(s.pos[h], ev.Res[0])
	case "(*os.File).ReadAt":
		s.reads[ev.ID] = &storeRead{ev, s.names[h], ev.Args[2]}
	case "io/ioutil.ReadAll", "io.ReadAll":
		s.reads[ev.ID] = &storeRead{ev, s.names[h], s.pos[h]}
	case "os.ReadFile", "io/ioutil.ReadFile":
		s.reads[ev.ID] = &storeRead{ev, ev.Args[0], Int(0)}
	case "os.WriteFile", "io/ioutil.WriteFile":
		mod(storeMod{kind: "writefile", file: ev.Args[0], content: ev.Content[1]})
	case "os.Remove", "os.RemoveAll":
		mod(storeMod{kind: "remove", file: ev.Args[0]})
	default:
		if _, name, what := modifies(ev); what != "" {
			if name == nil {
				name = s.names[h]
			}
			mod(storeMod{kind: what, file: name})
		}
	}
}

// resolve replaces the result of a Seek by the position it stands for.
func (s *storeSim) resolve(t *Term) *Term {
	for t != nil && s.seeks[t] != nil && s.seeks[t] != t {
		t = s.seeks[t]
	}
	return t
}

// encoded is what the record's encoder yields.
func (c *Check) encoded(e *Engine, typ string, rec *Term) *Term {
	var fn *ssa.Function
	for _, n := range []string{"MarshalToByte", "MarshalBinary"} {
		if fn == nil {
			fn = c.p.Method("pttbbs", typ, n)
		}
	}
	if fn == nil {
		c.ob(false, "anchor", "encoder of pttbbs."+typ, token.NoPos, "the record has no encoder")
		return nil
	}
	outs, ok := c.eval(e, fn, []*Term{rec}, newState())
	if !ok {
		return nil
	}
	for _, o := range outs {
		if okRet(o) && feasible(o) {
			return e.readSlice(o.st, o.ret[0], types.Typ[types.Uint8])
		}
	}
	return nil
}

func nf(f *Facts) *Facts {
	if f == nil {
		return &Facts{cond: True, depth: 1}
	}
	return f
}

// recordArgs: symbolic arguments with a *FileHeader / *BoardHeader passed for record parameters.
func (c *Check) recordArgs(fn *ssa.Function) (args []*Term, rec *Term, typ string) {
	args = params(fn)
	for i, a := range fn.Params {
		s := a.Type().String()
		switch {
		case strings.HasSuffix(s, "pttbbs.FileHeader"), strings.HasSuffix(s, "bbs.ArticleRecord"):
			typ = "FileHeader"
		case strings.HasSuffix(s, "pttbbs.BoardHeader"), strings.HasSuffix(s, "bbs.BoardRecord"):
			typ = "BoardHeader"
		default:
			continue
		}
		rec = args[i]
		if isIfaceT(a.Type()) {
			pt := types.NewPointer(c.p.Type("pttbbs", typ))
			rec = param(a.Name(), pt)
			args[i] = mk("iface", pt, tyName(pt), 0, rec)
		}
	}
	return
}

func argOfType(fn *ssa.Function, args []*Term, pred func(types.Type) bool) *Term {
	for i, a := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if pred(a.Type()) {
			return args[i]
		}
	}
	return nil
}

func isBytesT(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

// ---------------------------------------------------------------- C15

// foreignRecord: for a record of a type the driver does not know success is
// reported only when the file was changed.
func (c *Check) foreignRecord(fn *ssa.Function) {
	given := false
	for i, p := range fn.Params {
		if i > 0 && isIfaceT(p.Type()) {
			given = true
		}
	}
	if !given {
		return
	}
	e := c.engine()
	outs, ok := c.eval(e, fn, params(fn), newState())
	if !ok {
		return
	}
	n := 0
	for _, o := range outs {
		if !okRet(o) || !feasible(o) {
			continue
		}
		okf, _ := splitRet(fn, o)
		if okf == nil {
			n++
			continue
		}
		s := newSim(c, e, o)
		c.ob(len(s.mods) == 1, "no success without a change", fnKey(fn), fnPos(fn), "success is reported for a record of another type, and the files are changed %d times", len(s.mods))
	}
	c.ob(n > 0, "no success without a change", fnKey(fn), fnPos(fn), "no outcome refuses the record")
}

func checkAppend(c *Check) {
	var fns []*ssa.Function
	for _, n := range []string{"AppendFileHeaderFileRecord", "AppendBoardHeaderFileRecord"} {
		fns = append(fns, c.need("pttbbs", n))
	}
	for _, n := range []string{"AppendBoardArticleFile", "AddBoardRecordFileRecord", "AddArticleRecordFileRecord"} {
		fns = append(fns, c.needM("pttbbs", "Connector", n))
	}
	for _, fn := range fns {
		if fn == nil {
			continue
		}
		c.foreignRecord(fn)
		e := c.engine()
		args, rec, typ := c.recordArgs(fn)
		var want *Term
		if rec != nil {
			want = c.encoded(e, typ, rec)
		} else if b := argOfType(fn, args, isBytesT); b != nil {
			want = Content(b)
		}
		file := argOfType(fn, args, isString)
		if want == nil || file == nil {
			c.ob(false, "anchor", fnKey(fn), fnPos(fn), "no file or content parameter")
			continue
		}
		outs, ok := c.eval(e, fn, args, newState())
		if !ok {
			continue
		}
		key := fnKey(fn)
		succ := 0
		for _, o := range outs {
			if !okRet(o) || !feasible(o) {
				continue
			}
			s := newSim(c, e, o)
			okf, _ := splitRet(fn, o)
			c.ob(s.loops == 0, "one write", key, fnPos(fn), "the text is written in a loop")
			if okf != nil {
				succ++
				c.ob(len(s.mods) == 1, "one write", key, fnPos(fn), "a successful append changes files %d times", len(s.mods))
			} else {
				c.ob(len(s.mods) <= 1, "one write", key, fnPos(fn), "a failed append changes files %d times", len(s.mods))
			}
			for _, m := range s.mods {
				pos := m.ev.Instr.Pos()
				if !c.ob(m.kind == "write", "only a write at the end", key, pos, "%s changes existing content", shortName(m.ev)) {
					continue
				}
				c.ob(eqT(m.facts, m.file, file), "the given file", key, pos, "%v is changed, not %v", m.file, file)
				c.ob(m.flags >= 0 && m.flags&oAppend != 0 && m.flags&oTrunc == 0 && m.ev.Name != "(*os.File).WriteAt", "written at the end of the file", key, pos, "the file is opened with flags %#x, without O_APPEND the write lands elsewhere", m.flags)
				c.ob(eqT(m.facts, m.content, want), "exactly the record or text", key, pos, "writes %v instead of %v", clip(m.content.String(), 400), clip(want.String(), 400))
			}
		}
		c.ob(succ > 0, "can succeed", key, fnPos(fn), "no outcome reports success")
	}
}

func init() {
	checks["C15"] = checkDef{run: checkAppend, min: 25,
		rule: "file effect simulation on every outcome of the five append operations: exactly one changing event, a write through a handle opened on the given file with O_APPEND and without O_TRUNC, whose content is the value of the record's encoder (evaluated separately) or the given text"}
}

// ---------------------------------------------------------------- C16

func checkUpdate(c *Check) {
	fns := []*ssa.Function{c.need("pttbbs", "UpdateFileHeaderFileRecord"), c.needM("pttbbs", "Connector", "UpdateArticleRecordFileRecord")}
	for _, fn := range fns {
		if fn == nil {
			continue
		}
		c.foreignRecord(fn)
		e := c.engine()
		args, rec, typ := c.recordArgs(fn)
		file := argOfType(fn, args, isString)
		idx := argOfType(fn, args, isIntType)
		if rec == nil || file == nil || idx == nil {
			c.ob(false, "anchor", fnKey(fn), fnPos(fn), "no record, file or index parameter")
			continue
		}
		want := c.encoded(e, typ, rec)
		outs, ok := c.eval(e, fn, args, newState())
		if !ok || want == nil {
			continue
		}
		key := fnKey(fn)
		const size = 128
		succ := 0
		for _, o := range outs {
			if !okRet(o) || !feasible(o) {
				continue
			}
			s := newSim(c, e, o)
			okf, _ := splitRet(fn, o)
			c.ob(s.loops == 0, "one write", key, fnPos(fn), "the record is written in a loop")
			if okf != nil {
				succ++
				c.ob(len(s.mods) == 1, "one write", key, fnPos(fn), "a successful update changes files %d times", len(s.mods))
			}
			for _, m := range s.mods {
				pos := m.ev.Instr.Pos()
				if !c.ob(m.kind == "write", "only a write in place", key, pos, "%s changes more than the record", shortName(m.ev)) {
					continue
				}
				c.ob(eqT(m.facts, m.file, file), "the given file", key, pos, "%v is changed, not %v", m.file, file)
				c.ob(m.flags >= 0 && m.flags&(oAppend|oTrunc|oCreate) == 0, "opened for writing in place", key, pos, "the file is opened with flags %#x", m.flags)
				p := s.resolve(m.pos)
				c.ob(p != nil && eqT(m.facts, p, Mul(Int(size), idx)), "at the record's place", key, pos, "writes at %v, record i is at %d*i", p, size)
				c.ob(eqT(m.facts, m.content, want), "exactly the record", key, pos, "writes %v", clip(m.content.String(), 400))
				ex := false
				for z := range s.sizes {
					if proveC(m.facts, Le(Mul(Int(size), Add(idx, Int(1))), z)) || proveC(m.facts, Le(Add(idx, Int(1)), Div(z, Int(size)))) {
						ex = true
					}
				}
				c.ob(ex, "the record exists", key, pos, "the write is not guarded by index < size/%d of the file", size)
			}
		}
		c.ob(succ > 0, "can succeed", key, fnPos(fn), "no outcome reports success")
	}
	fn := c.need("pttbbs", "RemoveBoardHeaderFileRecord")
	if fn == nil {
		return
	}
	e := c.engine()
	args := params(fn)
	file := argOfType(fn, args, isString)
	idx := argOfType(fn, args, isIntType)
	outs, ok := c.eval(e, fn, args, newState())
	if !ok || file == nil || idx == nil {
		return
	}
	key := fnKey(fn)
	const size = 256
	succ := 0
	at := Mul(Int(size), idx)
	next := Mul(Int(size), Add(idx, Int(1)))
	for _, o := range outs {
		if !okRet(o) || !feasible(o) {
			continue
		}
		s := newSim(c, e, o)
		okf, _ := splitRet(fn, o)
		c.ob(s.loops == 0, "moved in one piece", key, fnPos(fn), "undecided: the file is changed in a loop")
		var moved *Term // bytes moved
		var nMove, nTrunc int
		for _, m := range s.mods {
			pos := m.ev.Instr.Pos()
			c.ob(eqT(m.facts, m.file, file), "the given file", key, pos, "%v is changed, not %v", m.file, file)
			c.ob(m.flags >= 0 && m.flags&(oAppend|oTrunc|oCreate) == 0, "opened for writing in place", key, pos, "the file is opened with flags %#x", m.flags)
			exists := false
			for z := range s.sizes {
				if (Prove(m.facts, Le(Add(idx, Int(1)), Div(z, Int(size)))) || Prove(m.facts, Le(next, z))) && Prove(m.facts, Ge0(idx)) {
					exists = true
				}
			}
			c.ob(exists, "the record exists", key, pos, "the file is changed without 0 <= index < size/%d", size)
			switch m.kind {
			case "copy":
				nMove++
				moved = m.ev.Res[0]
				sp, dp := inFile(s.resolve(m.srcPos), idx, exists), inFile(s.resolve(m.pos), idx, exists)
				c.ob(nMove == 1 && nTrunc == 0 && m.src == file && sp != nil && dp != nil && eqT(m.facts, sp, next) && eqT(m.facts, dp, at), "later records move one place forward", key, pos, "copies from %v to %v; record i is at %d*i", sp, dp, size)
			case "write":
				nMove++
				dp := inFile(s.resolve(m.pos), idx, exists)
				good := false
				if m.content.Op == "rd" {
					r := s.reads[int(m.content.N)]
					moved = SeqLen(m.content)
					whole := m.content.S == "all"
					if r != nil && !whole {
						// all that follows, read in one piece
						_, okc := evErr(r.ev)
						for z := range s.sizes {
							if l := inFile(moved, idx, exists); eqT(m.facts, l, Sub(z, next)) && strings.Contains(r.ev.Name, "Read") && r.ev.Name != "(*os.File).Read" && okc != nil && proveC(m.facts, okc) {
								whole = true
							}
						}
					}
					if r != nil && r.file == file && whole {
						sp := inFile(s.resolve(r.pos), idx, exists)
						good = nMove == 1 && nTrunc == 0 && sp != nil && dp != nil && eqT(m.facts, sp, next) && eqT(m.facts, dp, at)
					}
				}
				c.ob(good, "later records move one place forward", key, pos, "writes %v at %v", clip(m.content.String(), 200), dp)
			case "truncate":
				nTrunc++
				n := inFile(s.resolve(m.n), idx, exists)
				if n != nil && n.Op == "wrap" && types.Identical(under(n.Ty), types.Typ[types.Int64]) {
					n = n.Args[0] // it is the end of what was written, a position in a file
				}
				good := moved != nil && n != nil && eqT(m.facts, n, Add(at, moved))
				for z := range s.sizes {
					if moved != nil && n != nil && eqT(m.facts, n, Sub(z, Int(size))) {
						good = true
					}
				}
				c.ob(good, "one record's length is dropped", key, pos, "truncates to %v", n)
			default:
				c.ob(false, "only move and truncate", key, pos, "%s", shortName(m.ev))
			}
		}
		if okf != nil {
			succ++
			c.ob(nMove == 1 && nTrunc == 1, "removed completely", key, fnPos(fn), "a successful removal has %d moves and %d truncations", nMove, nTrunc)
		}
	}
	c.ob(succ > 0, "can succeed", key, fnPos(fn), "no outcome reports success")
}

func init() {
	checks["C16"] = checkDef{run: checkUpdate, min: 20,
		rule: "file effect simulation (positions as linear terms of the index) on every outcome of the update and removal operations: the only change is one record-sized write at size*index (update) or moving the bytes from size*(index+1) to size*index and truncating to the new end (removal), and every change is dominated by a proof that the record exists in the file"}
}

// inFile drops the wrap of 64-bit values that lie within a file which has the
// record idx: its size fits in 64 bits.
func inFile(t, idx *Term, exists bool) *Term {
	if t == nil || !exists {
		return t
	}
	drop := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.Op == "wrap" && (types.Identical(under(x.Ty), types.Typ[types.Int64]) || types.Identical(under(x.Ty), intT)) {
			for a := int64(0); a <= 256; a = max(1, 2*a) {
				if b := Sub(x.Args[0], Mul(Int(a), idx)); b.isInt() && b.N >= -256 && b.N <= 256 && (a > 1 || b.N <= 1) {
					drop[x] = x.Args[0]
				}
			}
		}
		return true
	})
	if len(drop) == 0 {
		return t
	}
	return simp(subst(t, drop), nf(nil))
}

// ---------------------------------------------------------------- C17

func checkVerbatim(c *Check) {
	byteT := types.Typ[types.Uint8]
	for _, n := range []string{"WriteBoardArticleFile", "WriteUserDraft"} {
		fn := c.needM("pttbbs", "Connector", n)
		if fn == nil {
			continue
		}
		e := c.engine()
		args := params(fn)
		file := argOfType(fn, args, isString)
		b := argOfType(fn, args, isBytesT)
		outs, ok := c.eval(e, fn, args, newState())
		if !ok || file == nil || b == nil {
			continue
		}
		key := fnKey(fn)
		want := Content(b)
		succ := 0
		for _, o := range outs {
			if !okRet(o) || !feasible(o) {
				continue
			}
			s := newSim(c, e, o)
			for _, m := range s.mods {
				c.ob(m.file != nil && eqT(m.facts, m.file, file), "the given file", key, m.ev.Instr.Pos(), "%v is changed, not %v", m.file, file)
			}
			okf, _ := splitRet(fn, o)
			if okf == nil {
				continue
			}
			succ++
			// content after all changes: nil is the unknown old content
			var cur *Term
			over := false // new content written over old, longer content may remain
			good := s.loops == 0
			for _, m := range s.mods {
				switch m.kind {
				case "writefile":
					cur, over = m.content, false
				case "truncate":
					n := s.resolve(m.n)
					switch {
					case n == Int(0):
						cur, over = Str(""), false
					case over && eqT(m.facts, n, SeqLen(cur)):
						over = false
					default:
						good = false
					}
				case "write":
					p := s.resolve(m.pos)
					if p == nil && m.flags&oAppend != 0 && cur != nil && !over {
						cur = Cat(cur, m.content)
						break
					}
					switch {
					case p == nil:
						good = false
					case cur == nil && p == Int(0):
						cur, over = m.content, true
					case cur != nil && eqT(m.facts, p, SeqLen(cur)):
						cur = Cat(cur, m.content)
					default:
						good = false
					}
				default:
					good = false
				}
			}
			c.ob(good && cur != nil && !over && eqT(okf, cur, want), "the file holds exactly the given bytes", key, fnPos(fn), "after a successful write the file holds %v (old content left: %v, undecided: %v)", cur, over || cur == nil, !good)
		}
		c.ob(succ > 0, "can succeed", key, fnPos(fn), "no outcome reports success")
	}
	for _, n := range []string{"ReadBoardArticleFile", "ReadUserDraft"} {
		fn := c.needM("pttbbs", "Connector", n)
		if fn == nil {
			continue
		}
		e := c.engine()
		args := params(fn)
		file := argOfType(fn, args, isString)
		outs, ok := c.eval(e, fn, args, newState())
		if !ok || file == nil {
			continue
		}
		key := fnKey(fn)
		succ := 0
		for _, o := range outs {
			if !okRet(o) || !feasible(o) {
				continue
			}
			s := newSim(c, e, o)
			c.ob(len(s.mods) == 0, "reading changes nothing", key, fnPos(fn), "a read changes a file")
			okf, _ := splitRet(fn, o)
			if okf == nil {
				continue
			}
			// the result on each case of the success
			c.cases(okf, e.readSlice(&State{mem: o.st.mem, facts: okf}, simp(o.ret[0], okf), byteT), func(f *Facts, ct *Term) {
				good := false
				if ct.Op == "rd" && ct.S == "all" {
					r := s.reads[int(ct.N)]
					_, okc := (*Term)(nil), (*Term)(nil)
					if r != nil {
						_, okc = evErr(r.ev)
					}
					if okc == nil && r != nil {
						okc = Eq(mk("res", errT, r.ev.Name, int64(r.ev.ID)*8+1), Nil)
					}
					good = r != nil && r.file == file && r.pos == Int(0) && proveC(f, okc)
					if good {
						succ++
					}
				} else if ct.Op == "str" && ct.S == "" && n == "ReadUserDraft" {
					// only for a file that does not exist
					good = false
					for _, r := range s.reads {
						if r.file == file && len(r.ev.Res) > 1 && proveC(f, isNotExist(r.ev.Res[1])) {
							good = true
						}
					}
					for _, ev := range outEvents(o) {
						if er, _ := evErr(ev); er != nil && isOpen(ev) && ev.Args[0] == file && proveC(f, isNotExist(er)) {
							good = true
						}
					}
				}
				c.ob(good, "exactly the file's bytes are returned", key, fnPos(fn), "a successful read returns %v", clip(ct.String(), 300))
			})
		}
		c.ob(succ > 0, "can succeed", key, fnPos(fn), "no outcome returns the whole file")
	}
	if fn := c.needM("pttbbs", "Connector", "DeleteUserDraft"); fn != nil {
		e := c.engine()
		args := params(fn)
		file := argOfType(fn, args, isString)
		if outs, ok := c.eval(e, fn, args, newState()); ok {
			for _, o := range outs {
				if !okRet(o) || !feasible(o) {
					continue
				}
				s := newSim(c, e, o)
				okf, _ := splitRet(fn, o)
				rm := 0
				for _, m := range s.mods {
					if c.ob(m.ev.Name == "os.Remove" && m.file == file, "exactly that file is removed", fnKey(fn), m.ev.Instr.Pos(), "%s %v", shortName(m.ev), m.file) {
						rm++
					}
				}
				if okf != nil {
					c.ob(rm == 1, "exactly that file is removed", fnKey(fn), fnPos(fn), "a successful deletion removes %d files", rm)
				}
			}
		}
	}
	// the draft object
	if fn := c.need("", "NewUserDraft"); fn != nil {
		e := c.engine()
		outs, ok := c.eval(e, fn, params(fn), newState())
		if ok {
			for _, o := range outs {
				if !okRet(o) || !feasible(o) {
					continue
				}
				raw := c.callMethod(e, o, o.ret[0], "Raw")
				for _, r := range raw {
					ct := e.readSlice(r.st, r.ret[0], byteT)
					c.ob(eqT(r.st.facts, ct, Content(params(fn)[0])), "the draft object holds exactly the bytes", fnKey(fn), fnPos(fn), "Raw yields %v", ct)
				}
				c.ob(len(raw) > 0, "the draft object holds exactly the bytes", fnKey(fn), fnPos(fn), "Raw could not be evaluated")
			}
		}
	}
}

// cases splits a gated value into its cases.
func (c *Check) cases(f *Facts, v *Term, visit func(f *Facts, v *Term)) {
	v = simp(v, f)
	if g := firstGate(v); g != nil {
		for _, k := range []*Term{g, Not(g)} {
			if nf := addCond(f, k); nf != nil {
				c.cases(nf, v, visit)
			}
		}
		return
	}
	visit(f, v)
}

// callMethod evaluates a method of a returned object.
func (c *Check) callMethod(e *Engine, o Out, recv *Term, name string, args ...*Term) []Out {
	recv = simp(recv, o.st.facts)
	var ty types.Type
	v := recv
	if recv.Op == "iface" {
		ty, v = recv.Ty, recv.Args[0]
	} else {
		ty = recv.Ty
	}
	if ty == nil {
		return nil
	}
	ms := c.p.SSA.MethodSets.MethodSet(ty)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn := c.p.SSA.MethodValue(ms.At(i))
			outs, err := e.Call(fn, append([]*Term{v}, args...), o.st.clone())
			c.used(e)
			if err != nil {
				c.ob(false, "analysis", fnKey(fn), fnPos(fn), "undecided: %v", err)
				return nil
			}
			var good []Out
			for _, x := range outs {
				if okRet(x) && feasible(x) {
					good = append(good, x)
				}
			}
			return good
		}
	}
	return nil
}

func init() {
	checks["C17"] = checkDef{run: checkVerbatim, min: 12,
		rule: "file effect simulation of the body and draft operations: the symbolic content of the file after every successful write equals the given bytes with no old content left, a successful read returns the whole content of exactly that file from its start (a draft may be empty only when the file does not exist), a deletion removes exactly that file, and a draft object yields the bytes it was made of"}
}

// ---------------------------------------------------------------- C18

func checkUniqueName(c *Check) {
	pathFn := c.needM("pttbbs", "Connector", "GetBoardArticleFilePath")
	for _, n := range []string{"CreateBoardArticleFilename", "NewArticleRecordWithMap"} {
		fn := c.needM("pttbbs", "Connector", n)
		if fn == nil || pathFn == nil {
			continue
		}
		e := c.engine()
		args := params(fn)
		outs, ok := c.eval(e, fn, args, newState())
		if !ok {
			continue
		}
		key := fnKey(fn)
		board := argOfType(fn, args, isString)
		if board == nil {
			// the board is an entry of the map argument
			for _, o := range outs {
				for _, ev := range outEvents(o) {
					if isOpen(ev) {
						walk(ev.Args[0], func(t *Term) bool {
							if t.Op == "unbox" && t.Args[0].Op == "mapget" && t.Args[0].Args[1] == Str("board_id") {
								board = t
							}
							return true
						})
					}
				}
			}
			if !c.ob(board != nil, "the created name is returned", key, fnPos(fn), "no file is created for the given board_id") {
				continue
			}
		}
		succ := 0
		for _, o := range outs {
			if !okRet(o) || !feasible(o) {
				continue
			}
			its := items(o.st.trace, nil)
			eachEvent(its, o.st.facts, 0, func(ev *Event, f *Facts, depth int) {
				if !isOpen(ev) {
					return
				}
				fl := openFlags(ev)
				c.ob(fl >= 0 && fl&oCreate != 0 && fl&oExcl != 0, "created exclusively", key, ev.Instr.Pos(), "the file is opened with flags %#x, an existing file of another poster would be taken", fl)
				if depth > 0 {
					er, _ := evErr(ev)
					c.ob(proveC(f, isExist(er)), "tries again only when the name exists", key, ev.Instr.Pos(), "another name is tried although the failure is not 'already exists'")
				}
			})
			for _, it := range its {
				if l, ok := it.(*LoopItem); ok {
					for _, x := range l.Iters {
						eachEvent(x.Items, x.Facts, 0, func(ev *Event, f *Facts, depth int) {
							if isOpen(ev) {
								fresh := false
								walk(ev.Args[0], func(t *Term) bool {
									if (t.Op == "now" || t.Op == "rand" || t.Op == "any") && t.N > l.Fresh0 || strings.HasPrefix(t.Op, "phi") || t.Op == "lmem" {
										fresh = true
									}
									return true
								})
								c.ob(fresh, "another name is tried", key, ev.Instr.Pos(), "every attempt uses the same name %v", ev.Args[0])
							}
						})
					}
				}
			}
			okf, _ := splitRet(fn, o)
			if okf == nil {
				continue
			}
			succ++
			var name *Term
			if isString(fn.Signature.Results().At(0).Type()) {
				name = o.ret[0]
			} else {
				for _, r := range c.callMethod(e, o, simp(o.ret[0], okf), "Filename") {
					name = r.ret[0]
				}
			}
			if name == nil {
				c.ob(false, "the created name is returned", key, fnPos(fn), "no name in the result")
				continue
			}
			st := o.st.clone()
			st.facts = okf
			var want *Term
			pouts, err := e.Call(pathFn, []*Term{args[0], board, name}, st)
			if err == nil {
				for _, p := range pouts {
					if f := addCond(p.st.facts, isNilT(p.ret[1])); okRet(p) && feasible(p) && f != nil {
						want = simp(p.ret[0], f)
					}
				}
			}
			made := false
			for _, it := range its {
				ev, ok := it.(*Event)
				if !ok || !isOpen(ev) {
					continue
				}
				_, okc := evErr(ev)
				if want != nil && proveC(okf, okc) && eqT(okf, ev.Args[0], want) {
					made = true
				}
			}
			c.ob(made, "the created name is returned", key, fnPos(fn), "success is reported with the name %v but no creation of %v succeeded on this path", name, want)
		}
		c.ob(succ > 0, "can succeed", key, fnPos(fn), "no outcome reports success")
	}
}

func init() {
	checks["C18"] = checkDef{run: checkUniqueName, min: 8,
		rule: "trace rule on the two operations that choose an article name: every opening is an exclusive creation, an attempt is repeated only under a proven 'already exists' and with a name made afresh in the loop, and each success has a creation proven to have succeeded at the path of (given board, returned name)"}
}
