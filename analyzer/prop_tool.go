package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C39: a command of the tool stops at the first failed step.

// exitCall: the outcome ends the process on purpose.
func exitCall(o Out) bool {
	call, ok := o.instr.(ssa.CallInstruction)
	if !ok || call.Common().StaticCallee() == nil {
		return false
	}
	switch call.Common().StaticCallee().String() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "syscall.Exit":
		return true
	}
	return false
}

// toolStep: the event does something for the command; closing a file does not.
func toolStep(ev *Event) bool {
	return !ev.Deferred && !strings.HasSuffix(ev.Name, ".Close")
}

func dbOp(ev *Event) string {
	const p = "(*" + modPath + ".DB)."
	if strings.HasPrefix(ev.Name, p) {
		return ev.Name[len(p):]
	}
	return ""
}

// showsResult: the event prints what an operation of the database gave, other
// than an error.
func showsResult(ev, failed *Event) bool {
	for _, x := range append(append([]*Term{}, ev.Args...), ev.Content...) {
		if x != nil && len(subterms(x, func(t *Term) bool {
			return t.Op == "res" && strings.HasPrefix(t.S, "(*"+modPath+".DB).") && t != failed.Res[len(failed.Res)-1] && (t.Ty == nil || !isErrorType(t.Ty))
		})) > 0 {
			return true
		}
	}
	return false
}

// givenOnly: no leaf of the value stands for an argument that was not given.
func (c *Check) givenOnly(f *Facts, v *Term) (bad string) {
	c.cases(f, v, func(f *Facts, v *Term) {
		if v.Op == "str" && v.S == "" {
			bad = "an argument that was not given counts as empty"
			return
		}
		for _, u := range subterms(v, func(t *Term) bool { return t.Op == "unbox" && t.Args[0].Op == "mapget" }) {
			g := u.Args[0]
			if !proveC(f, mk("mapok", boolT, "", 0, g.Args...)) {
				bad = "an argument is used without being given"
			}
		}
	})
	return bad
}

// toolRun evaluates the tool from its main function; the operations of the
// database are opaque steps.
func (c *Check) toolRun() (e *Engine, entry *ssa.Function, outs []Out, ok bool) {
	for _, fn := range c.p.Funcs {
		if fn.Pkg != nil && relPkg(fn.Pkg.Pkg.Path()) == "cmd/bbstool" && fn.Name() == "main" && fn.Parent() == nil && fn.Signature.Recv() == nil {
			entry = fn
		}
	}
	if !c.ob(entry != nil, "anchor", "main of the tool", 0, "the tool has no main function") {
		return nil, nil, nil, false
	}
	e = c.engine()
	for _, f := range c.exported(map[string]bool{"": true}) {
		if r := f.Signature.Results(); r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
			e.opaque[fnKey(f)] = true
		}
	}
	e.visible = map[string]bool{"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "log.Println": true, "log.Printf": true, "log.Print": true}
	e.nonNil = func(t *Term) bool {
		// the elements of a list of records, the record a step that succeeded made
		return t.Op == "sel" || t.Op == "extglob" && t.S == "flag.Usage" || t.Op == "res" && strings.HasPrefix(t.S, "(*"+modPath+".DB).")
	}
	outs, ok = c.eval(e, entry, nil, newState())
	return e, entry, outs, ok
}

func checkTool(c *Check) {
	e, entry, outs, ok := c.toolRun()
	if !ok {
		return
	}
	for _, o := range e.obls {
		pos := fnPos(o.Fn)
		if o.Instr != nil {
			pos = o.Instr.Pos()
		}
		c.ob(o.Ok, "no command line crashes it", o.Kind+" in "+fnKey(o.Fn), pos, "%s is not shown to be safe for every command line: %s", o.Kind, clip(o.Detail, 300))
	}
	nOps, nPost := 0, 0
	for _, o := range outs {
		if !feasible(o) {
			continue
		}
		if !okRet(o) {
			c.ob(exitCall(o), "no command line crashes it", "main", fnPos(entry), "panics")
			continue
		}
		evs := eventsOf(o)
		for j, b := range evs {
			if !toolStep(b.ev) {
				continue
			}
			f := c.factsAt(b, o)
			for _, a := range evs[:j] {
				err, _ := evErr(a.ev)
				if err == nil || !toolStep(a.ev) || a.ev == b.ev || e.visible[a.ev.Name] {
					continue
				}
				if e.visible[b.ev.Name] && !showsResult(b.ev, a.ev) {
					continue
				}
				c.ob(feasibleWith(f, Not(Eq(err, Nil))) == nil, "stops at the first failed step", shortName(a.ev)+" then "+shortName(b.ev), b.ev.Instr.Pos(), "%s is done although %s failed", shortName(b.ev), shortName(a.ev))
			}
			if err, _ := evErr(b.ev); err != nil && b.loop > 0 && !e.visible[b.ev.Name] {
				c.ob(feasibleWith(f, Not(Eq(err, Nil))) == nil, "stops at the first failed step", shortName(b.ev)+" repeated", b.ev.Instr.Pos(), "%s may be repeated although it failed", shortName(b.ev))
			}
			if strings.HasSuffix(b.ev.Name, modPath+".Open") {
				dir := false
				for g := f; g != nil; g = g.parent {
					for _, d := range subterms(g.cond, func(t *Term) bool { return t.Op == "fisdir" }) {
						dir = dir || proveC(f, d)
					}
				}
				c.ob(dir, "stops when the home cannot be opened", "bbs.Open", b.ev.Instr.Pos(), "the home is opened although it may not be a directory")
			}
			op := dbOp(b.ev)
			if op == "" {
				continue
			}
			nOps++
			for i, x := range b.ev.Args[1:] {
				v := x
				if i+1 < len(b.ev.Content) && b.ev.Content[i+1] != nil {
					v = b.ev.Content[i+1]
				}
				bad := c.givenOnly(f, v)
				c.ob(bad == "", "stops when an argument is missing", op, b.ev.Instr.Pos(), "%s: %s", op, bad)
			}
			if op == "AddArticleRecordFileRecord" {
				nPost++
				c.ob(c.bodyFirst(f, evs[:j], b.ev), "the body is written before the article is listed", op, b.ev.Instr.Pos(), "the article is added to the index before its body is written under its name")
			}
		}
	}
	c.ob(nOps >= 8, "coverage", "operations of the tool", fnPos(entry), "only %d calls of database operations", nOps)
	c.ob(nPost > 0, "coverage", "posting an article", fnPos(entry), "no command posts an article")
}

// bodyFirst: an earlier, successful step wrote the article's body.
func (c *Check) bodyFirst(f *Facts, before []posEvent, add *Event) bool {
	for _, p := range before {
		if dbOp(p.ev) != "WriteBoardArticleFile" || len(p.ev.Args) < 4 || len(add.Args) < 3 || p.loop > 0 {
			continue
		}
		err, _ := evErr(p.ev)
		name := mk("inv", strT, "Filename", 0, add.Args[2])
		if eqT(f, p.ev.Args[1], add.Args[1]) && eqT(f, p.ev.Args[2], name) && proveC(f, Eq(err, Nil)) && c.givenBody(p.ev) {
			return true
		}
	}
	return false
}

// givenBody: the text written is the one given on the command line or in a file.
func (c *Check) givenBody(ev *Event) bool {
	v := ev.Args[3]
	if len(ev.Content) > 3 && ev.Content[3] != nil {
		v = ev.Content[3]
	}
	return len(subterms(v, func(t *Term) bool {
		return t.Op == "unbox" && t.Args[0].Op == "mapget" || strings.HasPrefix(t.Op, "rd")
	})) > 0
}

func init() {
	checks["C39"] = checkDef{run: checkTool, min: 20, rule: "event traces of every command from the tool's main function: no step follows one that may have failed, no operation is called with an argument that was not given, the index entry follows the successful write of the body; every panicking construct is proven safe"}
}
