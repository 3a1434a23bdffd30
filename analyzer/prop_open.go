package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C44: a database is opened with the driver of the name given. C45: a cache
// is the memory its connection string names.

func checkOpenDriver(c *Check) {
	open, reg := c.need("", "Open"), c.need("", "Register")
	if open == nil || reg == nil {
		return
	}
	e := c.engine()
	args := params(open)
	outs, ok := c.eval(e, open, args, newState())
	if !ok {
		return
	}
	key, pos := fnKey(open), fnPos(open)
	var table *Term
	n := 0
	// the driver registered under the name, and the condition that there is one
	driver := func(t *Term) *Term {
		if t.Op == "inv" && t.S == "NewConnector" || t.Op == "iface" || t.Op == "unbox" {
			t = t.Args[0]
		}
		if t.Op == "mapget" && t.Args[1] == args[0] {
			return t.Args[0]
		}
		return nil
	}
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "an unknown driver is an error", key, pos, "Open panics") {
			continue
		}
		var opens []*Event
		for _, ev := range outEvents(o) {
			if methodOf(ev) == "Open" {
				opens = append(opens, ev)
			}
		}
		c.byError(open, o, func(f *Facts, failed bool) {
			known := func() *Term { // the table in which the name was found
				var tb *Term
				for q := f; q != nil; q = q.parent {
					for _, t := range subterms(q.cond, func(x *Term) bool { return x.Op == "mapok" && x.Args[1] == args[0] }) {
						if proveC(f, t) {
							tb = t.Args[0]
						}
					}
				}
				return tb
			}()
			for _, ev := range opens {
				d := simp(ev.Args[0], f)
				m := driver(d)
				c.ob(m != nil && (known == nil || m == known), "the driver of that name is opened", key, ev.Instr.Pos(), "%v is opened", clip(d.String(), 200))
				c.ob(len(ev.Args) == 2 && eqT(f, ev.Args[1], args[1]), "the data source is given to the driver", key, ev.Instr.Pos(), "the driver is given %v", clip(ev.Args[len(ev.Args)-1].String(), 200))
			}
			if failed {
				bad := known == nil
				for _, ev := range opens {
					bad = bad || proveC(f, Not(isNilT(ev.Res[0])))
				}
				c.ob(bad, "a driver that opens makes a database", key, pos, "an error although the driver is there and opened the data source")
				return
			}
			n++
			if !c.ob(known != nil, "an unknown driver is an error", key, pos, "success without the driver") {
				return
			}
			table = known
			c.ob(len(opens) == 1 && proveC(f, isNilT(opens[0].Res[0])), "a driver that fails to open is an error", key, pos, "success although the driver did not open the data source")
			if len(opens) == 1 {
				st := o.st.clone()
				st.facts = f
				got := c.connectorOf(e, st, c.needM("", "DB", "ReadUserRecords"), simp(o.ret[0], f))
				c.ob(got != nil && eqT(f, got, opens[0].Args[0]), "the database uses the driver that was opened", key, pos, "the database keeps %v", got)
			}
		})
	}
	if !c.ob(n > 0 && table != nil, "a driver that opens makes a database", key, pos, "Open never succeeds") {
		return
	}
	// registration puts the driver into the same table
	e = c.engine()
	ra := params(reg)
	outs, ok = c.eval(e, reg, ra, newState())
	if !ok {
		return
	}
	key, pos = fnKey(reg), fnPos(reg)
	n = 0
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		n++
		f := nf(guarded(nf(o.st.facts), o))
		var set []*Event
		for _, ev := range outEvents(o) {
			if ev.Kind == "mapset" {
				set = append(set, ev)
			}
		}
		// a registration that is refused says so by not returning
		good := len(set) == 1 && eqT(f, set[0].Args[1], ra[0]) && eqT(f, set[0].Args[2], ra[1]) && sameTable(set[0].Args[0], table)
		c.ob(good, "a registered driver is found by its name", key, pos, "the driver is not put under its name into the table Open looks in")
	}
	c.ob(n > 0, "a registered driver is found by its name", key, pos, "Register never returns")
	c.registers("pttbbs", "Connector", reg)
	c.newConnectors("pttbbs", "Connector")
}

func sameTable(a, b *Term) bool {
	for a.Op == "mapof" {
		a = a.Args[0]
	}
	for b.Op == "mapof" {
		b = b.Args[0]
	}
	return a == b
}

// registers: the package registers its driver under its name when it is loaded.
func (c *Check) registers(pkg, typ string, reg *ssa.Function) {
	n := 0
	var pos token.Pos
	ty := c.p.Type(pkg, typ)
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || relPkg(fn.Pkg.Pkg.Path()) != pkg || !strings.HasPrefix(fn.Name(), "init") || fn.Signature.Recv() != nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(*ssa.Call)
				if !ok || k.Call.StaticCallee() != reg {
					continue
				}
				pos = in.Pos()
				name, isC := k.Call.Args[0].(*ssa.Const)
				mi, isM := k.Call.Args[1].(*ssa.MakeInterface)
				if !c.ob(isC && isM, "the driver registers under its name", pkg, pos, "name or driver are computed") {
					continue
				}
				p, isP := mi.X.Type().(*types.Pointer)
				_, fresh := mi.X.(*ssa.Alloc)
				if name.Value != nil && constant.StringVal(name.Value) == pkg && isP && ty != nil && types.Identical(p.Elem(), ty) && fresh && b.Index == 0 {
					n++
				}
			}
		}
	}
	c.ob(n == 1, "the driver registers under its name", pkg, pos, "the package registers no *%s under its name when it is loaded", typ)
}

// newConnectors: the connector of a database is one of the driver's own.
func (c *Check) newConnectors(pkg, typ string) {
	fn := c.needM(pkg, typ, "NewConnector")
	ty := c.p.Type(pkg, typ)
	if fn == nil || ty == nil {
		return
	}
	e := c.engine()
	outs, ok := c.eval(e, fn, params(fn), newState())
	if !ok {
		return
	}
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "a new connector is of the driver", fnKey(fn), fnPos(fn), "panics") {
			continue
		}
		v := simp(o.ret[0], o.st.facts)
		good := v.Op == "iface" && types.Identical(v.Ty, types.NewPointer(ty)) && v.Args[0].Op == "ref"
		c.ob(good, "a new connector is of the driver", fnKey(fn), fnPos(fn), "NewConnector returns %v", clip(v.String(), 200))
	}
}

// ---------------------------------------------------------------- caches

const (
	protRW    = 3
	mapShared = 1
	ipcCreat  = 01000
	ipcExcl   = 02000
	shmRdonly = 010000
	ipcRmid   = 0
	ipcStat   = 2
)

func (c *Check) sysNo(name string) *Term {
	for _, p := range c.p.SSA.AllPackages() {
		if p.Pkg.Path() == "golang.org/x/sys/unix" || p.Pkg.Path() == "syscall" {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if v, ok := constant.Int64Val(k.Val()); ok {
					return Int(v)
				}
			}
		}
	}
	return nil
}

func bare(t *Term) *Term {
	for t.Op == "wrap" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

func isSyscall(ev *Event) bool {
	n := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
	return ev.Kind == "call" && (strings.HasPrefix(ev.Name, "golang.org/x/sys/unix.") || strings.HasPrefix(ev.Name, "syscall.")) && (n == "Syscall" || n == "RawSyscall" || n == "Syscall6" || n == "RawSyscall6")
}

// sysEvents are the system calls of that number, in order.
func sysEvents(its []any, no *Term) (evs []*Event) {
	eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
		if isSyscall(ev) && ev.Args[0] == no {
			evs = append(evs, ev)
		}
	})
	return
}

func sysOk(f *Facts, ev *Event) bool { return proveC(f, Eq0(ev.Res[2])) }

// stepFailed: one of the events of a failing outcome failed itself.
func stepFailed(f *Facts, its []any) bool {
	bad := false
	eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
		if ev.Kind != "call" || len(ev.Res) == 0 {
			return
		}
		last := ev.Res[len(ev.Res)-1]
		if isSyscall(ev) {
			bad = bad || proveC(f, Not(Eq0(ev.Res[2])))
		} else if isErrorType(last.Ty) {
			bad = bad || proveC(f, Not(isNilT(last)))
		}
	})
	return bad
}

func constBits(f *Facts, t *Term) (int64, bool) {
	t = simp(bare(t), f)
	return t.N, t.isInt()
}

// parsedInt: t is the number a string says.
func parsedInt(t, s *Term) bool {
	t = bare(t)
	return (t.Op == "atoi" || strings.HasPrefix(t.S, "strconv.Parse")) && len(t.Args) > 0 && (t.Args[0] == s || len(t.Args[0].Args) > 0 && t.Args[0].Args[0] == s)
}

func checkCacheOpen(c *Check) {
	fn := c.need("cache", "NewCache")
	if fn == nil {
		return
	}
	x := param("source", types.Typ[types.String])
	sch := param("scheme", types.Typ[types.String])
	c.cacheCase(fn, "shmkey:N", Cat(Str("shmkey:"), x), nil, x, "shm")
	c.cacheCase(fn, "file:PATH", Cat(Str("file:"), x), nil, x, "file")
	c.cacheCase(fn, "PATH", x, []*Term{Not(HasByte(x, ':'))}, x, "file")
	c.cacheCase(fn, "any other scheme", Cat(sch, Str(":"), x), []*Term{Not(HasByte(sch, ':')), Not(Eq(sch, Str("file"))), Not(Eq(sch, Str("shmkey")))}, x, "")
	for _, n := range []string{"OpenKey", "OpenMmap", "CreateKey", "CreateMmap", "RemoveKey", "RemoveMmap"} {
		if f := c.need("cache", n); f != nil {
			c.cacheDirect(f)
		}
	}
	c.shmLayout()
	// the cache of the driver is the memory of the connection string it is given
	if p := c.need("pttbbs", "NewCache"); p != nil {
		e := c.engine()
		e.contract[fnKey(fn)] = opened
		args := params(p)
		if outs, ok := c.eval(e, p, args, newState()); ok {
			n := 0
			for _, o := range outs {
				if !feasible(o) || !okRet(o) {
					continue
				}
				evs := callsOf(items(o.st.trace, nil), fnKey(fn))
				f := nf(guarded(nf(o.st.facts), o))
				for _, ev := range evs {
					n++
					c.ob(eqT(f, ev.Args[0], args[0]), "the cache of the driver is the one named", fnKey(p), fnPos(p), "%v is opened", clip(ev.Args[0].String(), 160))
				}
				c.byError(p, o, func(f *Facts, failed bool) {
					okd := len(evs) == 1 && proveC(f, isNilT(evs[0].Res[1]))
					c.ob(failed || okd, "the cache of the driver is the one named", fnKey(p), fnPos(p), "success although the memory was not opened")
				})
			}
			c.ob(n > 0, "the cache of the driver is the one named", fnKey(p), fnPos(p), "no memory is opened")
		}
	}
}

// cacheCase evaluates NewCache on one form of connection string.
func (c *Check) cacheCase(fn *ssa.Function, what string, conn *Term, given []*Term, src *Term, kind string) {
	e := c.engine()
	st := newState()
	st.facts = assume(st.facts, given...)
	outs, ok := c.eval(e, fn, []*Term{conn}, st)
	if !ok {
		return
	}
	c.cacheOuts(e, fn, what, outs, src, nil, kind, false)
}

// cacheOuts judges the outcomes of a function that opens memory.
func (c *Check) cacheOuts(e *Engine, fn *ssa.Function, what string, outs []Out, src, size *Term, kind string, create bool) {
	key, pos, n := fnKey(fn)+" "+what, fnPos(fn), 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "the memory named is opened", key, pos, "panics") {
			continue
		}
		its := items(o.st.trace, nil)
		c.byError(fn, o, func(f *Facts, failed bool) {
			if failed {
				bad := stepFailed(f, its) || kind == ""
				if kind == "shm" {
					for q := f; q != nil && !bad; q = q.parent {
						for _, t := range subterms(q.cond, func(t *Term) bool {
							return isErrorType(t.Ty) && (t.Op == "atoierr" || strings.HasPrefix(t.S, "strconv.Parse"))
						}) {
							bad = bad || proveC(f, Not(isNilT(t)))
						}
					}
				}
				c.ob(bad, "memory that is there is opened", key, pos, "an error although no step failed: %v", clip(fmt.Sprint(f.list()), 700))
				return
			}
			n++
			if !c.ob(kind != "", "the memory named is opened", key, pos, "success, although the scheme is unknown") {
				return
			}
			v := simp(o.ret[0], f)
			bytes := c.bytesOf(e, o.st, f, v, fn)
			if !c.ob(bytes != nil, "the bytes are those of the memory", key, pos, "no bytes of %v", clip(v.String(), 160)) {
				return
			}
			if kind == "file" {
				c.fileMemory(e, f, its, key, pos, bytes, src, size, create)
			} else {
				c.shmMemory(e, o.st, f, its, key, pos, bytes, src, size, create)
			}
		})
	}
	c.ob(n > 0 == (kind != ""), "the memory named is opened", key, pos, "%d outcomes succeed", n)
}

// bytesOf is the slice that Bytes of a new cache returns.
func (c *Check) bytesOf(e *Engine, st *State, f *Facts, v *Term, fn *ssa.Function) *Term {
	ty := fn.Signature.Results().At(0).Type()
	if v.Op == "iface" {
		ty, v = v.Ty, v.Args[0]
	}
	p, ok := ty.(*types.Pointer)
	if !ok {
		return nil
	}
	nt, ok := p.Elem().(*types.Named)
	if !ok {
		return nil
	}
	m := c.p.SSA.LookupMethod(ty, nt.Obj().Pkg(), "Bytes")
	if m == nil {
		return nil
	}
	s := st.clone()
	s.facts = f
	outs, ok := c.eval(e, m, []*Term{v}, s)
	if !ok {
		return nil
	}
	var r *Term
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		x := simp(o.ret[0], nf(guarded(nf(o.st.facts), o)))
		if r != nil && r != x {
			return nil
		}
		r = x
	}
	return r
}

func (c *Check) fileMemory(e *Engine, f *Facts, its []any, key string, pos token.Pos, bytes, path, size *Term, create bool) {
	var file, stat, mp *Event
	other := ""
	trunc := false
	eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
		if ev.Kind != "call" {
			return
		}
		switch ev.Name {
		case "os.OpenFile", "os.Open", "os.Create":
			if file != nil {
				other = "a second file is opened"
			}
			file = ev
		case "(*os.File).Stat", "os.Stat":
			stat = ev
		case "golang.org/x/sys/unix.Mmap", "syscall.Mmap":
			if mp != nil {
				other = "memory is mapped twice"
			}
			mp = ev
		case "(*os.File).Truncate":
			trunc = create && file != nil && ev.Args[0] == file.Res[0] && size != nil && eqT(f, bare(ev.Args[1]), size) && proveC(f, isNilT(ev.Res[0])) && mp == nil && stat == nil
			if !trunc {
				other = "the file gets another size"
			}
		case "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).WriteString", "os.WriteFile", "os.Truncate", "os.Remove", "os.Rename":
			other = ev.Name + " changes the file"
		case "(*os.File).Close":
			other = "the file is closed"
		}
	})
	if !c.ob(other == "", "nothing but the mapping touches the file", key, pos, "%s", other) ||
		!c.ob(file != nil && eqT(f, file.Args[0], path) && proveC(f, isNilT(file.Res[1])), "the memory named is opened", key, pos, "the file named is not opened") {
		return
	}
	mode := ""
	switch {
	case file.Name == "os.Open":
		mode = "the file is opened for reading only"
	case file.Name == "os.Create":
		if !create {
			mode = "opening empties the file"
		}
	default:
		fl, ok := constBits(f, file.Args[1])
		switch {
		case !ok:
			mode = "the mode of opening is computed"
		case fl&3 != 2:
			mode = "the file is not opened for reading and writing"
		case !create && fl&(0o100|0o1000|0o200) != 0:
			mode = "opening makes or empties the file"
		case create && fl&0o100 == 0:
			mode = "the file is not made"
		}
	}
	c.ob(mode == "", "the file is mapped as it is", key, pos, "%s", mode)
	c.ob(!create || trunc, "new memory has the size given", key, pos, "the file is not made %v bytes long", size)
	if !c.ob(mp != nil && proveC(f, isNilT(mp.Res[1])) && stat != nil && proveC(f, isNilT(stat.Res[1])), "the bytes are those of the memory", key, pos, "nothing is mapped") {
		return
	}
	fd := bare(mp.Args[0])
	c.ob(fd.Op == "res" && fd.S == "(*os.File).Fd" && c.resOf(its, fd, file.Res[0]), "the bytes are those of the memory", key, pos, "another file is mapped")
	c.ob(eqT(f, mp.Args[1], Int(0)), "the bytes are those of the memory", key, pos, "the mapping starts at %v", mp.Args[1])
	sz := bare(mp.Args[2])
	okStat := stat.Args[0] == file.Res[0] || stat.Name == "os.Stat" && eqT(f, stat.Args[0], path)
	c.ob(okStat && (sz.Op == "fsize" && sz.Args[0] == stat.Res[0] || create && size != nil && eqT(f, sz, size)), "the mapping is as long as the file", key, pos, "%v bytes are mapped", clip(sz.String(), 120))
	pr, ok1 := constBits(f, mp.Args[3])
	fl, ok2 := constBits(f, mp.Args[4])
	c.ob(ok1 && pr&protRW == protRW, "the memory can be read and written", key, pos, "protection %v", mp.Args[3])
	c.ob(ok2 && fl&0xf == mapShared && fl&^0x8001 == 0, "changes are shared with every process", key, pos, "mapping flags %v", mp.Args[4])
	c.ob(eqT(f, bytes, mp.Res[0]), "the bytes are those of the memory", key, pos, "the bytes are %v", clip(bytes.String(), 160))
}

// resOf: t is a result of a call on the object.
func (c *Check) resOf(its []any, t, obj *Term) bool {
	good := false
	eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
		for _, r := range ev.Res {
			if r == t && len(ev.Args) > 0 && ev.Args[0] == obj {
				good = true
			}
		}
	})
	return good
}

func (c *Check) shmMemory(e *Engine, st *State, f *Facts, its []any, key string, pos token.Pos, bytes, src, size *Term, create bool) {
	nget, nat, nctl := c.sysNo("SYS_SHMGET"), c.sysNo("SYS_SHMAT"), c.sysNo("SYS_SHMCTL")
	get, at, ctl := sysEvents(its, nget), sysEvents(its, nat), sysEvents(its, nctl)
	if !c.ob(len(get) == 1 && sysOk(f, get[0]), "the memory named is opened", key, pos, "the segment is not looked up once") ||
		!c.ob(len(at) == 1 && sysOk(f, at[0]), "the bytes are those of the memory", key, pos, "the segment is not attached once") {
		return
	}
	g := get[0]
	c.ob(parsedInt(g.Args[1], src) || eqT(f, bare(g.Args[1]), src), "the memory named is opened", key, pos, "the segment looked up is %v", clip(g.Args[1].String(), 160))
	fl, ok := constBits(f, g.Args[3])
	if create {
		c.ob(ok && fl&ipcCreat != 0 && fl&0o600 == 0o600 && fl&0o077 == 0, "a new segment belongs to its owner", key, pos, "flags %v", g.Args[3])
		c.ob(eqT(f, bare(g.Args[2]), size), "new memory has the size given", key, pos, "the segment is made %v bytes long", clip(g.Args[2].String(), 160))
	} else {
		c.ob(ok && fl&(ipcCreat|ipcExcl) == 0, "opening makes no memory", key, pos, "flags %v", g.Args[3])
		c.ob(eqT(f, bare(g.Args[2]), Int(0)), "opening makes no memory", key, pos, "a segment of some size is wanted")
	}
	id := g.Res[0]
	a := at[0]
	afl, ok := constBits(f, a.Args[3])
	c.ob(eqT(f, bare(a.Args[1]), id), "the bytes are those of the memory", key, pos, "another segment is attached")
	c.ob(ok && afl == 0, "the memory can be read and written", key, pos, "attached with %v", a.Args[3])
	var want *Term
	if create {
		want = size
	} else if len(ctl) == 1 && eqT(f, bare(ctl[0].Args[1]), id) && eqT(f, bare(ctl[0].Args[2]), Int(ipcStat)) && sysOk(f, ctl[0]) {
		if p := bare(ctl[0].Args[3]); p.Op == "ref" {
			ty := c.p.Type("cache", "ShmidDs")
			if ty != nil && ctl[0].ID > 0 {
				if l := leafByName(e.leaves(st, e.load(st, p, ty), ty, "", nil, false), "ShmSegsz"); l != nil {
					want = l.val
				}
			}
		}
	}
	if !c.ob(want != nil, "the mapping is as long as the segment", key, pos, "the size of the segment is not asked for") {
		return
	}
	good := bytes.Op == "uslice" && eqT(f, bare(bytes.Args[0]), a.Res[0])
	c.ob(good, "the bytes are those of the memory", key, pos, "the bytes are %v", clip(bytes.String(), 160))
	if good {
		okLen := func(t *Term) bool { return t == want || bare(t) == bare(want) || eqT(f, t, want) }
		c.ob(okLen(bytes.Args[1]) && okLen(bytes.Args[2]), "the mapping is as long as the segment", key, pos, "%v bytes of room for %v", clip(bytes.Args[1].String(), 120), clip(bytes.Args[2].String(), 120))
	}
}

// cacheDirect: the functions that open, make and remove memory by key or path.
func (c *Check) cacheDirect(fn *ssa.Function) {
	e := c.engine()
	args, st := params(fn), newState()
	create := strings.HasPrefix(fn.Name(), "Create")
	var size *Term
	if create {
		size = args[1]
		st.facts = st.facts.add(Ge0(Sub(size, Int(1))))
	}
	outs, ok := c.eval(e, fn, args, st)
	if !ok {
		return
	}
	switch {
	case strings.HasPrefix(fn.Name(), "Remove"):
		c.cacheRemove(fn, outs, args[0])
	case strings.HasSuffix(fn.Name(), "Key"):
		c.cacheOuts(e, fn, "", outs, args[0], size, "shm", create)
	default:
		c.cacheOuts(e, fn, "", outs, args[0], size, "file", create)
	}
}

// cacheRemove: exactly the memory named is removed.
func (c *Check) cacheRemove(fn *ssa.Function, outs []Out, src *Term) {
	key, pos, n := fnKey(fn), fnPos(fn), 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "exactly the memory named is removed", key, pos, "panics") {
			continue
		}
		its := items(o.st.trace, nil)
		c.byError(fn, o, func(f *Facts, failed bool) {
			var rm []*Event
			get := sysEvents(its, c.sysNo("SYS_SHMGET"))
			eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
				switch {
				case ev.Kind != "call":
				case isSyscall(ev) && ev.Args[0] == c.sysNo("SYS_SHMCTL"):
					good := len(get) == 1 && sysOk(nf(ev.Facts), get[0]) && eqT(f, bare(ev.Args[1]), get[0].Res[0]) && eqT(f, bare(ev.Args[2]), Int(ipcRmid)) && eqT(f, bare(get[0].Args[1]), src)
					if len(get) == 1 {
						fl, ok := constBits(f, get[0].Args[3])
						good = good && ok && fl&ipcCreat == 0 && eqT(f, bare(get[0].Args[2]), Int(0))
					}
					c.ob(good, "exactly the memory named is removed", key, pos, "another segment or another operation")
					rm = append(rm, ev)
				case strings.HasPrefix(ev.Name, "os.Remove") || strings.HasSuffix(ev.Name, ".Unlink"):
					c.ob(ev.Name != "os.RemoveAll" && eqT(f, ev.Args[0], src), "exactly the memory named is removed", key, pos, "%s(%v)", ev.Name, ev.Args[0])
					rm = append(rm, ev)
				}
			})
			if failed {
				c.ob(stepFailed(f, its), "exactly the memory named is removed", key, pos, "an error although no step failed")
				return
			}
			n++
			good := len(rm) == 1
			if good && isSyscall(rm[0]) {
				good = sysOk(f, rm[0])
			} else if good {
				good = proveC(f, isNilT(rm[0].Res[0]))
			}
			c.ob(good, "exactly the memory named is removed", key, pos, "success although it was not removed")
		})
	}
	c.ob(n > 0, "exactly the memory named is removed", key, pos, "removal never succeeds")
}

// shmLayout: the status structure is the one the kernel fills in.
func (c *Check) shmLayout() {
	ty := c.p.Type("cache", "ShmidDs")
	if !c.ob(ty != nil, "the status structure is the kernel's", "cache.ShmidDs", token.NoPos, "no type ShmidDs") {
		return
	}
	sizes := types.SizesFor("gc", "amd64")
	s, ok := under(ty).(*types.Struct)
	if !c.ob(ok, "the status structure is the kernel's", "cache.ShmidDs", token.NoPos, "not a structure") {
		return
	}
	var fs []*types.Var
	at := -1
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
		if s.Field(i).Name() == "ShmSegsz" {
			at = i
		}
	}
	pos := token.NoPos
	if len(fs) > 0 {
		pos = fs[0].Pos()
	}
	c.ob(sizes.Sizeof(ty) >= 112, "the status structure is the kernel's", "cache.ShmidDs", pos, "the kernel writes 112 bytes, the structure has %d", sizes.Sizeof(ty))
	if c.ob(at >= 0, "the status structure is the kernel's", "cache.ShmidDs.ShmSegsz", pos, "no size") {
		off := sizes.Offsetsof(fs)[at]
		c.ob(off == 48 && sizes.Sizeof(fs[at].Type()) == 8, "the status structure is the kernel's", "cache.ShmidDs.ShmSegsz", fs[at].Pos(), "the size is read at byte %d, the kernel writes it at 48", off)
	}
}

func init() {
	checks["C44"] = checkDef{run: checkOpenDriver, min: 9, rule: "value-graph of Open, Register and the drivers' registrations: the connector opened is the entry of the driver table under the name given (or what its NewConnector returns), it is given the data source unchanged, success exactly when it opens; Register stores its driver under its name into the same table"}
	checks["C45"] = checkDef{run: checkCacheOpen, min: 40, rule: "value-graph of the cache constructors for every form of connection string: the system calls made (open, stat, mmap, shmget, shmctl, shmat) name the memory of the connection string and nothing else, and Bytes returns the mapping with the size the system reported; layout of the status structure against the kernel's"}
}
