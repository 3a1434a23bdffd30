package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C12

type resource struct {
	kind    string
	val     *Term // the handle
	ok      *Term // condition that it was acquired
	ev      *Event
	release func(ev *Event, e *Engine, st *State) bool
}

const sysSHMAT, sysSHMDT = 30, 67

// acquired tells what an event acquires.
func acquired(ev *Event) *resource {
	if ev.Kind != "call" || len(ev.Res) == 0 {
		return nil
	}
	_, okc := evErr(ev)
	if okc == nil {
		okc = True
	}
	for i, r := range ev.Res {
		if r.Ty != nil && r.Ty.String() == "*os.File" {
			h := ev.Res[i]
			return &resource{"file", h, okc, ev, func(x *Event, e *Engine, st *State) bool {
				return x.Name == "(*os.File).Close" && x.Args[0] == h
			}}
		}
	}
	switch {
	case strings.HasSuffix(ev.Name, ".Mmap"):
		h := ev.Res[0]
		return &resource{"memory mapping", h, okc, ev, func(x *Event, e *Engine, st *State) bool {
			return strings.HasSuffix(x.Name, ".Munmap") && x.Args[0] == h
		}}
	case strings.HasSuffix(ev.Name, "yscall.Syscall") || strings.HasSuffix(ev.Name, "unix.Syscall") || strings.HasSuffix(ev.Name, "RawSyscall"):
		if n, ok := constInt(ev.Args[0]); ok && n == sysSHMAT {
			h := ev.Res[0]
			return &resource{"shared memory attachment", h, okc, ev, func(x *Event, e *Engine, st *State) bool {
				if len(x.Args) < 2 {
					return false
				}
				n, ok := constInt(x.Args[0])
				return ok && n == sysSHMDT && x.Args[1] == h
			}}
		}
	case strings.HasSuffix(ev.Name, "unix.SysvShmAttach"):
		h := ev.Res[0]
		return &resource{"shared memory attachment", h, okc, ev, func(x *Event, e *Engine, st *State) bool {
			return strings.HasSuffix(x.Name, "SysvShmDetach") && x.Args[0] == h
		}}
	}
	return nil
}

// released tells whether a later item of the list releases the resource.
func released(r *resource, rest []any, e *Engine, st *State) bool {
	for _, it := range rest {
		if x, ok := it.(*Event); ok && r.release(x, e, st) {
			return true
		}
	}
	return false
}

func checkRelease(c *Check) {
	roots := c.exported(libPkgs)
	for _, fn := range c.p.Funcs {
		if fn.Parent() != nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" {
			continue
		}
		ps := fn.Signature.Params()
		if fn.Name() == "main" || ps.Len() == 2 && strings.HasSuffix(ps.At(0).Type().String(), "http.ResponseWriter") {
			roots = append(roots, fn)
		}
	}
	for _, fn := range roots {
		e := c.engine()
		c.opaqueLocks(e) // a lock may be held by somebody else
		outs, ok := c.eval(e, fn, params(fn), newState())
		if !ok {
			continue
		}
		for _, o := range outs {
			if !okRet(o) || !feasible(o) {
				continue
			}
			c.releaseList(e, fn, items(o.st.trace, nil), o.st.facts, &o, 0)
		}
	}
}

func (c *Check) releaseList(e *Engine, fn *ssa.Function, its []any, f *Facts, o *Out, depth int) {
	for i, it := range its {
		switch x := it.(type) {
		case *LoopItem:
			for _, l := range x.Iters {
				c.releaseList(e, fn, l.Items, l.Facts, nil, depth+1)
			}
		case *Event:
			r := acquired(x)
			if r == nil {
				continue
			}
			if proveC(f, Not(r.ok)) {
				continue
			}
			construct := fnKey(fn) + " " + r.kind + " from " + shortName(x)
			g := addCond(f, r.ok)
			if g == nil || released(r, its[i+1:], e, nil) {
				c.ob(true, "released", construct, x.Instr.Pos(), "")
				continue
			}
			if o == nil {
				c.ob(false, "released", construct, x.Instr.Pos(), "the %s acquired in a loop is not released when the iteration ends", r.kind)
				continue
			}
			c.escapes(e, fn, r, g, o, construct)
		}
	}
}

// escapes: a resource that is still held must be handed to the caller inside
// an object whose Close releases it.
func (c *Check) escapes(e *Engine, fn *ssa.Function, r *resource, f *Facts, o *Out, construct string) {
	st := o.st.clone()
	st.facts = f
	if er := errResult(fn, *o); er != nil {
		// not handed over on the failing part of the outcome
		if bad := addCond(f, Not(isNilT(simp(er, f)))); bad != nil {
			c.ob(false, "released", construct, r.ev.Instr.Pos(), "the %s is neither released nor handed over when an error is returned", r.kind)
			return
		}
		if nf := addCond(f, isNilT(simp(er, f))); nf != nil {
			st.facts = nf
		}
	}
	for i, ret := range o.ret {
		if i >= fn.Signature.Results().Len() {
			break
		}
		ret = simp(ret, st.facts)
		found := false
		reachable(e, st, ret, map[*Term]bool{}, func(t *Term) {
			if t == r.val {
				found = true
			}
		})
		if !found {
			continue
		}
		if ret == r.val {
			c.ob(true, "released", construct, r.ev.Instr.Pos(), "")
			return
		}
		obj := ret
		var ty types.Type = fn.Signature.Results().At(i).Type()
		if obj.Op == "iface" {
			ty = obj.Ty
			obj = obj.Args[0]
		}
		cl := closeMethod(c.p, ty)
		if cl == nil {
			continue
		}
		// an embedded interface field holds the object
		n0 := st.trace
		e2outs, err := e.Call(cl, []*Term{obj}, st.clone())
		c.used(e)
		if err != nil {
			c.ob(false, "released", construct, r.ev.Instr.Pos(), "Close could not be analysed: %v", err)
			return
		}
		good := len(e2outs) > 0
		for _, o2 := range e2outs {
			if okRet(o2) && feasible(o2) && !released(r, items(o2.st.trace, n0), e, o2.st) {
				good = false
			}
		}
		c.ob(good, "released", construct, r.ev.Instr.Pos(), "%s does not release the %s on every path", fnKey(cl), r.kind)
		return
	}
	c.ob(false, "released", construct, r.ev.Instr.Pos(), "the %s is neither released nor handed to the caller in an object with Close", r.kind)
}

// closeMethod finds the Close method of a type, wrappers of embedded fields included.
func closeMethod(p *Program, ty types.Type) *ssa.Function {
	for _, t := range []types.Type{ty, types.NewPointer(ty)} {
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Close" {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func init() {
	checks["C12"] = checkDef{run: checkRelease, min: 12,
		rule: "typestate on the traces of every exported library operation, tool command and HTTP handler: every acquisition of a file, mapping or attachment that succeeds is followed on the same outcome by its release, or the handle is reachable from the returned object and every path of that object's Close releases it (Close is evaluated on the returned object)"}
}

// ---------------------------------------------------------------- C13

func isOpen(ev *Event) bool {
	switch ev.Name {
	case "os.Open", "os.OpenFile", "os.Create":
		return true
	}
	return false
}

const (
	oAppend = 0x400
	oCreate = 0x40
	oExcl   = 0x80
	oTrunc  = 0x200
)

// openFlags of an opening event; -1 when not constant.
func openFlags(ev *Event) int64 {
	switch ev.Name {
	case "os.Open":
		return 0
	case "os.Create":
		return 2 | oCreate | oTrunc
	}
	if n, ok := constInt(ev.Args[1]); ok {
		return n
	}
	return -1
}

// modifies: the file an event changes, as a handle or by name.
func modifies(ev *Event) (handle, name *Term, what string) {
	if ev.Kind != "call" {
		return nil, nil, ""
	}
	switch ev.Name {
	case "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).WriteString", "(*os.File).Truncate", "(*os.File).ReadFrom":
		return ev.Args[0], nil, shortName(ev)
	case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "encoding/binary.Write", "bufio.NewWriter", "bufio.NewWriterSize":
		h := unwrapArg(ev.Args[0])
		if isFileTerm(h) {
			return h, nil, shortName(ev)
		}
	case "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate", "os.Remove", "os.RemoveAll":
		return nil, ev.Args[0], shortName(ev)
	case "os.Rename":
		return nil, ev.Args[1], shortName(ev)
	}
	return nil, nil, ""
}

func isFileTerm(t *Term) bool {
	return t.Ty != nil && t.Ty.String() == "*os.File" || t.Op == "res" && (strings.HasPrefix(t.S, "os.Open") || t.S == "os.Create")
}

func isLockCall(ev *Event) bool {
	return ev.Kind == "call" && (strings.HasSuffix(ev.Name, "filelock.Lock") || strings.HasSuffix(ev.Name, "filelock.TryLock"))
}
func isUnlockCall(ev *Event) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, "filelock.Unlock")
}

// drafts belong to one user and are not shared; cache files are not records
func lockExempt(fn *ssa.Function) bool {
	return strings.Contains(fn.Name(), "Draft") || relPkg(fn.Pkg.Pkg.Path()) == "cache" || relPkg(fn.Pkg.Pkg.Path()) == "filelock"
}

func checkLocks(c *Check) {
	writers := 0
	for _, fn := range c.exported(libPkgs) {
		if lockExempt(fn) {
			continue
		}
		e := c.engine()
		c.opaqueLocks(e)
		outs, ok := c.eval(e, fn, params(fn), newState())
		if !ok {
			continue
		}
		names := map[*Term]*Term{} // handle -> file name
		lockSeen, writes := 0, 0
		for _, o := range outs {
			eachEvent(items(o.st.trace, nil), o.st.facts, 0, func(ev *Event, _ *Facts, _ int) {
				if isOpen(ev) {
					names[ev.Res[0]] = ev.Args[0]
				}
			})
		}
		fileOf := func(h *Term) *Term {
			h = unwrapArg(h)
			if n := names[h]; n != nil {
				return n
			}
			return h
		}
		key := fnKey(fn)
		for _, o := range outs {
			if !feasible(o) {
				continue
			}
			step := func(s string, ev *Event, f *Facts) []string {
				held := map[string]bool{}
				for _, k := range strings.Split(s, "|") {
					if k != "" {
						held[k] = true
					}
				}
				join := func() []string {
					var ks []string
					for k := range held {
						ks = append(ks, k)
					}
					sortStrings(ks)
					return []string{strings.Join(ks, "|")}
				}
				switch {
				case isOpen(ev):
					fl := openFlags(ev)
					c.ob(fl >= 0 && (fl&oTrunc == 0 || fl&oExcl != 0 || held[fmt.Sprint(ev.Args[0].id)]), "no truncation before the lock", key, ev.Instr.Pos(), "%s truncates (or may truncate) the file when it is opened, before it is locked", shortName(ev))
				case isLockCall(ev):
					lockSeen++
					er, okc := evErr(ev)
					n := fmt.Sprint(fileOf(ev.Args[0]).id)
					if er == nil || proveC(f, okc) {
						held[n] = true
					} else if !proveC(f, Not(okc)) {
						c.ob(false, "lock failure decides", key, ev.Instr.Pos(), "the operation goes on without testing whether the lock was taken")
					}
				case isUnlockCall(ev):
					delete(held, fmt.Sprint(fileOf(ev.Args[0]).id))
				default:
					h, name, what := modifies(ev)
					if what == "" {
						break
					}
					writes++
					if h != nil {
						name = fileOf(h)
					}
					c.ob(held[fmt.Sprint(name.id)], "changed only under the lock", key+" "+what, ev.Instr.Pos(), "%s changes %v while its lock is not held", what, name)
				}
				return join()
			}
			S := walkAuto(items(o.st.trace, nil), map[string]bool{"": true}, o.st.facts, step)
			if okRet(o) {
				for s := range S {
					c.ob(s == "", "lock released at the end", key, fnPos(fn), "an outcome of %s ends with the lock still held", key)
				}
			}
		}
		if writes > 0 {
			writers++
		}
	}
	c.ob(writers >= 6, "coverage", "operations that change files", 0, "only %d writing operations found", writers)
	// the lock itself must call the operating system
	if fn := c.need("filelock", "Lock"); fn != nil {
		e := c.engine()
		outs, ok := c.eval(e, fn, params(fn), newState())
		good := ok
		for _, o := range outs {
			okf, _ := splitRet(fn, o)
			if okf == nil || !okRet(o) {
				continue
			}
			n := 0
			for _, ev := range outEvents(o) {
				l := strings.ToLower(ev.Name)
				if strings.Contains(l, "flock") || strings.Contains(l, "fcntl") || strings.Contains(l, "syscall") || strings.Contains(l, "openfile") {
					n++
				}
			}
			if n == 0 {
				good = false
			}
		}
		c.ob(good, "lock really excludes", "filelock.Lock", fnPos(fn), "Lock reports success without asking the operating system for a lock, so two writers hold it at once")
	}
}

func init() {
	checks["C13"] = checkDef{run: checkLocks, min: 20,
		rule: "typestate on the traces of every exported operation (drafts and cache files excluded): the set of files whose lock is held, keyed by file name, starts empty; every event that changes a file needs its lock held with a proven nil lock error, no open truncates before the lock, and every returning outcome ends with the set empty"}
}

// ---------------------------------------------------------------- C14

// failable: events whose failure must reach the caller.
func failable(ev *Event) bool {
	if _, ok := evErr(ev); ok == nil {
		return false
	}
	n := ev.Name
	switch {
	case strings.HasSuffix(n, ").Close"), strings.HasSuffix(n, "filelock.Unlock"), strings.HasSuffix(n, ".Munmap"):
		return false
	case strings.HasPrefix(n, "log."), strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "time."), strings.HasPrefix(n, "strconv."):
		return false
	}
	return true
}

func isReadEvent(ev *Event) bool {
	switch ev.Name {
	case "io.ReadFull", "(*os.File).Read", "(*os.File).ReadAt", "(*bufio.Reader).Read", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadLine", "io.ReadAtLeast", "encoding/binary.Read":
		return true
	}
	return strings.HasSuffix(ev.Name, ".Read")
}

func errGlob(name string) *Term { return mk("errglob", errT, name, 0) }

// emptyAllowed: operations for which a missing file is an empty result.
func emptyAllowed(fn *ssa.Function) bool {
	switch fn.Name() {
	case "ReadBoardArticleRecordsFile", "GetUserArticleRecordFile", "GetUserCommentRecordFile", "GetBoardUserCommentRecord",
		"ReadUserDraft", "GetUserDrafts", "ReadUserFavoriteRecordsFile", "ReadUserFavoriteRecords":
		return true
	}
	return false
}

func checkErrorsReported(c *Check) {
	for _, fn := range c.exported(libPkgs) {
		if strings.HasSuffix(fn.Pkg.Pkg.Path(), "/fnv") {
			continue // hashing, no storage
		}
		e := c.engine()
		c.opaqueLocks(e)
		outs, ok := c.eval(e, fn, params(fn), newState())
		if !ok {
			continue
		}
		for _, o := range outs {
			if !okRet(o) || !feasible(o) {
				continue
			}
			r := errResult(fn, o)
			eachEvent(items(o.st.trace, nil), o.st.facts, 0, func(ev *Event, f *Facts, depth int) {
				if !failable(ev) {
					return
				}
				construct := fnKey(fn) + ": " + shortName(ev)
				er, okc := evErr(ev)
				g := addCond(f, Not(okc))
				if g != nil && isReadEvent(ev) {
					for _, n := range []string{"io.EOF", "io.ErrUnexpectedEOF"} {
						for _, is := range []*Term{Eq(er, errGlob(n)), mk("errIs", boolT, "", 0, er, errGlob(n))} {
							if g != nil {
								g = addCond(g, Not(is))
							}
						}
					}
				}
				if g != nil && emptyAllowed(fn) {
					g = addCond(g, Not(isNotExist(er)))
				}
				if g == nil {
					c.ob(true, "failure is reported", construct, ev.Instr.Pos(), "")
					return
				}
				if depth > 0 {
					// the loop went on after this event
					retry := false
					if isOpen(ev) && openFlags(ev) >= 0 && openFlags(ev)&oExcl != 0 {
						retry = proveC(g, isExist(er))
					}
					c.ob(retry, "failure is reported", construct, ev.Instr.Pos(), "a loop goes on although %s failed", shortName(ev))
					return
				}
				if r == nil {
					c.ob(false, "failure is reported", construct, ev.Instr.Pos(), "%s can fail here but %s has no error result", shortName(ev), fnKey(fn))
					return
				}
				good := proveC(g, Not(isNilT(r)))
				c.ob(good, "failure is reported", construct, ev.Instr.Pos(), "%s can fail while the returned error is %v", shortName(ev), clip(r.String(), 300))
			})
		}
	}
}

func init() {
	checks["C14"] = checkDef{run: checkErrorsReported, min: 60,
		rule: "error dataflow on the traces of every exported library operation: for every outcome and every file operation, lock or driver call on it, a non-nil error of that event (end of file excepted for reads, not-existing files excepted where the property allows it) implies that the returned error is non-nil, and no loop goes on after it (only an exclusive creation may be retried, on 'already exists')"}
}
