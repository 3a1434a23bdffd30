package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C10, C11

type pathRule struct {
	fn, conn string
	tmpl     string // {h} home, {c0} first character of id 0, {0} id 0, {p} treasure path with slashes
	ids      int
	tree     bool
}

var pathRules = []pathRule{
	{"GetPasswdsPath", "GetUserRecordsPath", "{h}/.PASSWDS", 0, false},
	{"GetBoardPath", "GetBoardRecordsPath", "{h}/.BRD", 0, false},
	{"GetUserFavoritePath", "GetUserFavoriteRecordsPath", "{h}/home/{c0}/{0}/.fav", 1, false},
	{"GetUserDraftPath", "GetUserDraftPath", "{h}/home/{c0}/{0}/buf.{1}", 2, false},
	{"GetUserMailPath", "", "{h}/home/{c0}/{0}/{1}", 2, false},
	{"GetLoginRecentPath", "", "{h}/home/{c0}/{0}/logins.recent", 1, false},
	{"GetBoardArticlesDirectoryPath", "GetBoardArticleRecordsPath", "{h}/boards/{c0}/{0}/.DIR", 1, false},
	{"GetBoardArticleFilePath", "GetBoardArticleFilePath", "{h}/boards/{c0}/{0}/{1}", 2, false},
	{"GetBoardTreasuresDirectoryPath", "GetBoardTreasureRecordsPath", "{h}/man/boards/{c0}/{0}/{p}.DIR", 1, true},
	{"GetBoardTreasureFilePath", "GetBoardTreasureFilePath", "{h}/man/boards/{c0}/{0}/{p}{1}", 2, true},
	{"GetBoardNameFilePath", "", "{h}/boards/{c0}/{0}/.Name", 1, false},
}

// fill is the value of a path template.
func (r pathRule) fill(home *Term, ids, tree []*Term) *Term {
	var ps []*Term
	s := r.tmpl
	for s != "" {
		i := strings.Index(s, "{")
		if i < 0 {
			ps = append(ps, Str(s))
			break
		}
		if i > 0 {
			ps = append(ps, Str(s[:i]))
		}
		j := strings.Index(s, "}")
		switch k := s[i+1 : j]; k {
		case "h":
			ps = append(ps, home)
		case "c0":
			ps = append(ps, mkCell(At(ids[0], Int(0))))
		case "0":
			ps = append(ps, ids[0])
		case "1":
			ps = append(ps, ids[1])
		case "p":
			for _, t := range tree {
				ps = append(ps, t, Str("/"))
			}
		}
		s = s[j+1:]
	}
	return Cat(ps...)
}

// normChr writes one-character strings the same way.
func normChr(t *Term) *Term {
	if len(t.Args) == 0 && t.Op != "poly" {
		return t
	}
	t = rebuild(t, normChr)
	switch {
	case t.Op == "chr":
		return mkCell(t.Args[0])
	case t.Op == "sub" && t.Args[2] == Int(1):
		return mkCell(At(t.Args[0], t.Args[1]))
	}
	return t
}

// validName is the condition that x names one file or directory.
func invalidity(x *Term) map[string]*Term {
	return map[string]*Term{
		"is empty":         Eq0(SeqLen(x)),
		"is '.'":           Eq(x, Str(".")),
		"is '..'":          Eq(x, Str("..")),
		"contains a slash": HasByte(x, '/'),
	}
}

func assume(f *Facts, cs ...*Term) *Facts {
	for _, c := range cs {
		if c != True {
			f = f.add(c)
		}
	}
	return f
}

func validFacts(f *Facts, ids []*Term) *Facts {
	for _, x := range ids {
		for _, k := range []string{"is empty", "is '.'", "is '..'", "contains a slash"} {
			f = assume(f, Not(invalidity(x)[k]))
		}
		f = assume(f, Not(HasByte(x, 0)))
	}
	return f
}

func (c *Check) maxTree() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 10
	}
	return 4
}

type pathCase struct {
	key   string
	fn    *ssa.Function
	r     pathRule
	home  *Term
	args  []*Term
	ids   []*Term
	tree  []*Term
	all   []*Term
	e     *Engine
	shape string
}

// pathCases calls visit for each path operation and number of treasure components.
func (c *Check) pathCases(visit func(pc *pathCase)) {
	for _, r := range pathRules {
		var fns []*ssa.Function
		if fn := c.need("pttbbs", r.fn); fn != nil {
			fns = append(fns, fn)
		}
		if r.conn != "" {
			if fn := c.needM("pttbbs", "Connector", r.conn); fn != nil {
				fns = append(fns, fn)
			}
		}
		for _, fn := range fns {
			n := 0
			if r.tree {
				n = c.maxTree()
			}
			for k := 0; k <= n; k++ {
				pc := &pathCase{key: fnKey(fn), fn: fn, r: r, e: c.engine()}
				pc.args = params(fn)
				start := 0
				if fn.Signature.Recv() != nil {
					rt := fn.Params[0].Type()
					h := homeField(derefT(rt))
					if h == nil {
						c.ob(false, "anchor", pc.key, fnPos(fn), "the driver has no home")
						continue
					}
					st := newState()
					pc.home = pc.e.load(st, refFieldPath(pc.e, pc.args[0], rt, h), strT)
					start = 1
				} else {
					pc.home = pc.args[0]
					start = 1
				}
				bad := false
				for i := start; i < len(pc.args); i++ {
					switch t := fn.Params[i].Type(); {
					case isString(t):
						pc.ids = append(pc.ids, pc.args[i])
					case r.tree && under(t).String() == "[]string":
						for j := 0; j < k; j++ {
							pc.tree = append(pc.tree, param(fmt.Sprintf("%s[%d]", fn.Params[i].Name(), j), strT))
						}
						pc.args[i] = pc.e.newList(mk("list", nil, "", 0, pc.tree...), Int(int64(k)), strT, nil)
					default:
						bad = true
					}
				}
				if bad || len(pc.ids) != r.ids {
					c.ob(false, "anchor", pc.key, fnPos(fn), "the operation does not take %d identifiers", r.ids)
					continue
				}
				if r.tree {
					pc.shape = fmt.Sprintf(" with %d treasure components", k)
				}
				pc.all = append(append([]*Term{}, pc.ids...), pc.tree...)
				visit(pc)
			}
		}
	}
}

func derefT(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func refFieldPath(e *Engine, p *Term, ty types.Type, path []int) *Term {
	r := e.asPtr(p, derefT(ty))
	s := derefT(ty)
	for _, i := range path {
		f := structOf(s).Field(i)
		r = refField(r, i, f.Name())
		s = f.Type()
	}
	return r
}

func checkPaths(c *Check) {
	c.pathCases(func(pc *pathCase) {
		st := newState()
		st.facts = validFacts(st.facts, pc.all)
		if st.facts == nil {
			st.facts = &Facts{cond: True, depth: 1}
		}
		outs, ok := c.eval(pc.e, pc.fn, pc.args, st)
		if !ok {
			return
		}
		want := normChr(pc.r.fill(pc.home, pc.ids, pc.tree))
		good := 0
		for _, o := range outs {
			if !feasible(o) {
				continue
			}
			if !c.ob(okRet(o), "a proper name is accepted", pc.key, fnPos(pc.fn), "panics%s", pc.shape) {
				continue
			}
			okf, fail := splitRet(pc.fn, o)
			c.ob(fail == nil, "a proper name is accepted", pc.key, fnPos(pc.fn), "non-empty names without separators can be refused%s", pc.shape)
			if okf == nil {
				continue
			}
			good++
			got := normChr(simp(o.ret[0], okf))
			c.ob(eqT(okf, got, want), "the PTT path of that object", pc.key, fnPos(pc.fn), "yields %v%s; the path of this kind of object is %v", clip(got.String(), 300), pc.shape, want)
		}
		c.ob(good > 0, "a proper name is accepted", pc.key, fnPos(pc.fn), "no outcome succeeds%s", pc.shape)
	})
	// Open keeps the home directory
	fn := c.needM("pttbbs", "Connector", "Open")
	get := c.needM("pttbbs", "Connector", "GetBoardRecordsPath")
	if fn == nil || get == nil {
		return
	}
	e := c.engine()
	args := params(fn)
	outs, ok := c.eval(e, fn, args, newState())
	if !ok {
		return
	}
	dsn := args[1]
	rest := SubSeq(dsn, Int(7), Sub(SeqLen(dsn), Int(7)))
	want := Cat(Ite(HasPrefixT(dsn, "file://"), Before(rest, '?'), dsn), Str("/.BRD"))
	good := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "the opened home is used", fnKey(fn), fnPos(fn), "panics") {
			continue
		}
		okf, _ := splitRet(fn, o)
		if okf == nil {
			continue
		}
		st := o.st.clone()
		st.facts = okf
		pouts, ok := c.eval(e, get, []*Term{args[0]}, st)
		if !ok {
			continue
		}
		for _, p := range pouts {
			if !okRet(p) || !feasible(p) {
				continue
			}
			good++
			c.ob(eqT(p.st.facts, p.ret[0], want), "the opened home is used", fnKey(fn), fnPos(fn), "after Open(dsn) the board records are at %v, expected %v", clip(p.ret[0].String(), 400), clip(want.String(), 400))
		}
	}
	c.ob(good > 0, "the opened home is used", fnKey(fn), fnPos(fn), "no outcome succeeds")
}

func checkNames(c *Check) {
	c.pathCases(func(pc *pathCase) {
		for i, x := range pc.all {
			for _, k := range []string{"is empty", "is '.'", "is '..'", "contains a slash"} {
				// the others are proper
				var others []*Term
				others = append(others, pc.all[:i]...)
				others = append(others, pc.all[i+1:]...)
				st := newState()
				st.facts = assume(validFacts(st.facts, others), invalidity(x)[k])
				outs, ok := c.eval(pc.e, pc.fn, pc.args, st)
				if !ok {
					return
				}
				for _, o := range outs {
					if !feasible(o) {
						continue
					}
					if !okRet(o) {
						c.ob(false, "an improper name is refused", pc.key, fnPos(pc.fn), "panics when %v %s%s", x, k, pc.shape)
						continue
					}
					okf, _ := splitRet(pc.fn, o)
					c.ob(okf == nil, "an improper name is refused", pc.key, fnPos(pc.fn), "a path is returned although %v %s%s", x, k, pc.shape)
					for _, ev := range outEvents(o) {
						c.ob(false, "no file is touched", pc.key, ev.Instr.Pos(), "%s is called before the names are checked", shortName(ev))
					}
				}
			}
		}
	})
	// operations of the driver that make a path themselves
	for _, fn := range c.exported(map[string]bool{"pttbbs": true}) {
		e := c.engine()
		outs, err := e.Call(fn, params(fn), newState())
		c.used(e)
		c.paths += len(outs)
		if err != nil {
			c.ob(false, "analysis", fnKey(fn), fnPos(fn), "undecided: %v", err)
			continue
		}
		for _, o := range outs {
			if !feasible(o) {
				continue
			}
			for _, ev := range outEvents(o) {
				if ev.Kind != "call" || !(strings.HasPrefix(ev.Name, "os.") || strings.HasPrefix(ev.Name, "io/ioutil.") || strings.HasPrefix(ev.Name, "syscall.") || strings.HasPrefix(ev.Name, "path/filepath.")) || len(ev.Args) == 0 {
					continue
				}
				for _, a := range ev.Args {
					if a.Op != "cat" || !isString(strT) {
						continue
					}
					for j, p := range a.Args {
						if j == 0 || p.Op == "str" || p.Op == "chr" || p.Op == "cells" {
							continue
						}
						if !fromCaller(p) {
							continue
						}
						for _, k := range []string{"is empty", "is '.'", "is '..'", "contains a slash"} {
							c.ob(proveC(nf(ev.Facts), Not(invalidity(p)[k])), "a path is made of checked names", fnKey(fn), ev.Instr.Pos(), "%s is given a path with the component %v, which is not checked: it may be one that %s", shortName(ev), p, k)
						}
					}
				}
			}
		}
	}
}

// fromCaller tells whether the value is a string an outsider chooses.
func fromCaller(t *Term) bool {
	switch t.Op {
	case "dec", "fmtv", "str", "now", "rand":
		return false
	}
	hit := false
	walk(t, func(x *Term) bool {
		if x.Op == "param" {
			hit = true
		}
		return !hit
	})
	return hit
}

func init() {
	checks["C10"] = checkDef{run: checkPaths, min: 38,
		rule: "the value of every path operation (package level and driver), evaluated with symbolic home and proper symbolic identifiers (treasure paths of 0..4 components, 0..10 in the thorough tier), equals the PTT template of its kind, and no outcome refuses a proper name; Open followed by a getter yields the opened home"}
	checks["C11"] = checkDef{run: checkNames, min: 17,
		rule: "every path operation is evaluated with each identifier in turn assumed empty, '.', '..' or containing '/': no outcome succeeds and no file operation occurs; and in every exported driver operation each caller-chosen component of a composed path given to a file operation is proven proper at that call"}
}

// ---------------------------------------------------------------- C19, C20

type dbStep struct {
	method string
	args   []string // "0" parameter, "r0.0" result of a step, "raw0" Raw() of parameter
}

type dbSpec struct {
	name  string
	cap   string
	steps []dbStep
	ret   string // result of a step returned first; "" if only an error is
	draft bool   // the result is a draft holding the bytes
	empty bool   // a missing file is an empty list
}

var dbSpecs = []dbSpec{
	{name: "ReadUserRecords", steps: []dbStep{{"GetUserRecordsPath", nil}, {"ReadUserRecordsFile", []string{"r0.0"}}}, ret: "r1.0"},
	{name: "ReadUserFavoriteRecords", steps: []dbStep{{"GetUserFavoriteRecordsPath", []string{"0"}}, {"ReadUserFavoriteRecordsFile", []string{"r0.0"}}}, ret: "r1.0"},
	{name: "ReadBoardRecords", steps: []dbStep{{"GetBoardRecordsPath", nil}, {"ReadBoardRecordsFile", []string{"r0.0"}}}, ret: "r1.0"},
	{name: "ReadBoardArticleRecordsFile", steps: []dbStep{{"GetBoardArticleRecordsPath", []string{"0"}}, {"ReadArticleRecordsFile", []string{"r0.0"}}}, ret: "r1.0", empty: true},
	{name: "ReadBoardTreasureRecordsFile", steps: []dbStep{{"GetBoardTreasureRecordsPath", []string{"0", "1"}}, {"ReadArticleRecordsFile", []string{"r0.0"}}}, ret: "r1.0"},
	{name: "ReadBoardArticleFile", steps: []dbStep{{"GetBoardArticleFilePath", []string{"0", "1"}}, {"ReadBoardArticleFile", []string{"r0.0"}}}, ret: "r1.0"},
	{name: "ReadBoardTreasureFile", steps: []dbStep{{"GetBoardTreasureFilePath", []string{"0", "1", "2"}}, {"ReadBoardArticleFile", []string{"r0.0"}}}, ret: "r1.0"},
	{name: "NewBoardRecord", cap: "WriteBoardConnector", steps: []dbStep{{"NewBoardRecord", []string{"0"}}}, ret: "r0.0"},
	{name: "AddBoardRecord", cap: "WriteBoardConnector", steps: []dbStep{{"GetBoardRecordsPath", nil}, {"AddBoardRecordFileRecord", []string{"r0.0", "0"}}}},
	{name: "CreateArticleRecord", cap: "WriteArticleConnector", steps: []dbStep{{"CreateBoardArticleFilename", []string{"0"}}, {"NewArticleRecord", []string{"r0.0", "1", "2", "3"}}}, ret: "r1.0"},
	{name: "AddArticleRecordFileRecord", cap: "WriteArticleConnector", steps: []dbStep{{"GetBoardArticleRecordsPath", []string{"0"}}, {"AddArticleRecordFileRecord", []string{"r0.0", "1"}}}},
	{name: "WriteBoardArticleFile", cap: "WriteArticleConnector", steps: []dbStep{{"GetBoardArticleFilePath", []string{"0", "1"}}, {"WriteBoardArticleFile", []string{"r0.0", "2"}}}},
	{name: "AppendBoardArticleFile", cap: "WriteArticleConnector", steps: []dbStep{{"GetBoardArticleFilePath", []string{"0", "1"}}, {"AppendBoardArticleFile", []string{"r0.0", "2"}}}},
	{name: "GetUserDrafts", cap: "UserDraftConnector", steps: []dbStep{{"GetUserDraftPath", []string{"0", "1"}}, {"ReadUserDraft", []string{"r0.0"}}}, ret: "r1.0", draft: true},
	{name: "DeleteUserDraft", cap: "UserDraftConnector", steps: []dbStep{{"GetUserDraftPath", []string{"0", "1"}}, {"DeleteUserDraft", []string{"r0.0"}}}},
	{name: "WriteUserDraft", cap: "UserDraftConnector", steps: []dbStep{{"GetUserDraftPath", []string{"0", "1"}}, {"WriteUserDraft", []string{"r0.0", "raw2"}}}},
}

func methodOf(ev *Event) string {
	return ev.Name[strings.LastIndex(ev.Name, ".")+1:]
}

// connectorOf is the driver held by a symbolic DB.
func (c *Check) connectorOf(e *Engine, st *State, fn *ssa.Function, db *Term) *Term {
	rt := fn.Params[0].Type()
	s := structOf(derefT(rt))
	for i := 0; i < s.NumFields(); i++ {
		if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "Connector" {
			return e.load(st, refFieldPath(e, db, rt, []int{i}), s.Field(i).Type())
		}
	}
	return nil
}

type dbRun struct {
	fn   *ssa.Function
	e    *Engine
	args []*Term
	conn *Term
	outs []Out
}

// runDB evaluates a DB method with a non-nil symbolic driver.
func (c *Check) runDB(name string, cap string, has *bool) *dbRun {
	fn := c.needM("", "DB", name)
	if fn == nil {
		return nil
	}
	r := &dbRun{fn: fn, e: c.engine(), args: params(fn)}
	for i, a := range r.args {
		if isIfaceT(fn.Params[i].Type()) {
			_ = a
		}
	}
	st := newState()
	r.conn = c.connectorOf(r.e, st, fn, r.args[0])
	if r.conn == nil {
		c.ob(false, "anchor", fnKey(fn), fnPos(fn), "DB has no Connector")
		return nil
	}
	st.facts = assume(st.facts, Not(Eq(r.conn, Nil)))
	if cap != "" && has != nil {
		ty := c.p.Type("", cap)
		if ty == nil {
			c.ob(false, "anchor", cap, fnPos(fn), "the capability interface is missing")
			return nil
		}
		t := mk("typeis", boolT, tyName(ty), 1, r.conn)
		if !*has {
			t = Not(t)
		}
		st.facts = assume(st.facts, t)
	}
	outs, ok := c.eval(r.e, fn, r.args, st)
	if !ok {
		return nil
	}
	r.outs = outs
	return r
}

func (s dbSpec) value(r *dbRun, steps []*Event, ref string) *Term {
	switch {
	case strings.HasPrefix(ref, "raw"):
		return mk("inv", types.NewSlice(types.Typ[types.Uint8]), "Raw", 0, r.args[1+int(ref[3]-'0')])
	case strings.HasPrefix(ref, "r"):
		k := int(ref[1] - '0')
		if k >= len(steps) || steps[k] == nil {
			return nil
		}
		return steps[k].Res[ref[3]-'0']
	}
	return r.args[1+int(ref[0]-'0')]
}

func sameValue(f *Facts, got *Term, content *Term, want *Term) bool {
	if want == nil {
		return false
	}
	if eqT(f, got, want) {
		return true
	}
	if got.Op == "inv" && want.Op == "inv" && got.S == want.S && got.Args[0] == want.Args[0] {
		return true
	}
	return content != nil && eqT(f, content, Content(want))
}

func checkFacade(c *Check) { c.facade(nil) }

// facade checks the wiring of the operations chosen (all without a choice).
func (c *Check) facade(only map[string]bool) {
	yes := true
	for _, s := range dbSpecs {
		if only != nil && !only[s.name] {
			continue
		}
		r := c.runDB(s.name, s.cap, &yes)
		if r == nil {
			continue
		}
		key := fnKey(r.fn)
		good := 0
		for _, o := range r.outs {
			if !feasible(o) {
				continue
			}
			if !c.ob(okRet(o), "the driver's result is returned", key, fnPos(r.fn), "panics") {
				continue
			}
			steps := make([]*Event, len(s.steps))
			var errs []*Term
			bad := false
			for _, it := range items(o.st.trace, nil) {
				ev, isEv := it.(*Event)
				if !isEv {
					c.ob(false, "one action on the object", key, fnPos(r.fn), "undecided: the driver is called in a loop")
					bad = true
					continue
				}
				if ev.Kind != "invoke" || len(ev.Args) == 0 || ev.Args[0] != r.conn {
					if strings.HasPrefix(ev.Name, "os.") || strings.HasPrefix(ev.Name, "(*os.") || strings.HasPrefix(ev.Name, "io/ioutil.") {
						c.ob(false, "one action on the object", key, ev.Instr.Pos(), "%s bypasses the driver", ev.Name)
					}
					continue
				}
				k := -1
				for i, st := range s.steps {
					if st.method == methodOf(ev) {
						k = i
					}
				}
				if !c.ob(k >= 0 && steps[max(k, 0)] == nil, "one action on the object", key, ev.Instr.Pos(), "%s is called; expected %v once each", methodOf(ev), s.steps) {
					bad = true
					continue
				}
				f := nf(ev.Facts)
				for i := 0; i < k; i++ {
					if !c.ob(steps[i] != nil && proveC(f, isNilT(steps[i].Res[len(steps[i].Res)-1])), "one action on the object", key, ev.Instr.Pos(), "%s is called although %s has not succeeded", methodOf(ev), s.steps[i].method) {
						bad = true
					}
				}
				for i, a := range s.steps[k].args {
					if i+1 >= len(ev.Args) {
						bad = true
						continue
					}
					var ct *Term
					if i+1 < len(ev.Content) {
						ct = ev.Content[i+1]
					}
					want := s.value(r, steps, a)
					if !c.ob(sameValue(f, ev.Args[i+1], ct, want), "exactly the given identifiers and data", key, ev.Instr.Pos(), "argument %d of %s is %v instead of %v", i+1, methodOf(ev), clip(ev.Args[i+1].String(), 200), want) {
						bad = true
					}
				}
				steps[k] = ev
				errs = append(errs, ev.Res[len(ev.Res)-1])
			}
			if bad {
				continue
			}
			okf, fail := splitRet(r.fn, o)
			if fail != nil {
				// a failure has a cause, and it is reported
				all := True
				for _, e := range errs {
					all = And2(all, isNilT(e))
				}
				c.ob(proveC(fail, Not(all)), "the driver's result is returned", key, fnPos(r.fn), "an error is returned although every call of the driver succeeded")
				c.ob(mentions(simp(errResult(r.fn, o), fail), errs), "the driver's result is returned", key, fnPos(r.fn), "the driver's error is not in the error returned: %v", clip(simp(errResult(r.fn, o), fail).String(), 300))
			}
			if okf == nil {
				continue
			}
			done := true
			for _, st := range steps {
				if st == nil {
					done = false
				}
			}
			if !c.ob(done, "the action is performed", key, fnPos(r.fn), "success is reported without %v", s.steps[len(s.steps)-1].method) {
				continue
			}
			last := steps[len(steps)-1]
			lerr := last.Res[len(last.Res)-1]
			f1 := addCond(okf, isNilT(lerr))
			f2 := addCond(okf, Not(isNilT(lerr)))
			if f1 != nil {
				good++
				if s.ret != "" {
					want := s.value(r, steps, s.ret)
					got := o.ret[0]
					if s.draft {
						o2 := o
						o2.st = o.st.clone()
						o2.st.facts = f1
						raw := c.callMethod(r.e, o2, got, "Raw")
						c.ob(len(raw) > 0, "the driver's result is returned", key, fnPos(r.fn), "undecided: the draft could not be read")
						for _, x := range raw {
							c.ob(eqT(x.st.facts, r.e.readSlice(x.st, x.ret[0], byteT), Content(want)) || eqT(x.st.facts, x.ret[0], want), "the driver's result is returned", key, fnPos(r.fn), "the draft holds %v instead of the driver's bytes", clip(x.ret[0].String(), 200))
						}
					} else {
						ct := simp(got, f1)
						c.ob(sameValue(f1, got, r.e.snapshot(o.st, ct, r.fn.Signature.Results().At(0).Type()), want), "the driver's result is returned", key, fnPos(r.fn), "returns %v instead of the driver's result", clip(ct.String(), 300))
					}
				}
			}
			if f2 != nil {
				ok := s.empty && proveC(f2, isNotExist(lerr)) && simp(r.e.sliceLen(simp(o.ret[0], f2)), f2) == Int(0)
				c.ob(ok, "the driver's result is returned", key, fnPos(r.fn), "success is reported although %s failed", methodOf(last))
			}
		}
		c.ob(good > 0, "the action is performed", key, fnPos(r.fn), "no outcome succeeds")
	}
}

// mentions tells whether each case of the error value contains one of the errors.
func mentions(r *Term, errs []*Term) bool {
	if r.Op == "ite" {
		return mentions(r.Args[1], errs) && mentions(r.Args[2], errs)
	}
	if r == Nil {
		return true
	}
	for _, e := range errs {
		if containsTerm(r, e) {
			return true
		}
	}
	return false
}

func checkCapability(c *Check) {
	no, yes := false, true
	for _, s := range dbSpecs {
		if s.cap == "" {
			continue
		}
		for _, has := range []*bool{&no, &yes} {
			r := c.runDB(s.name, s.cap, has)
			if r == nil {
				continue
			}
			key := fnKey(r.fn)
			for _, ob := range r.e.obls {
				if ob.Kind == "type assertion" || ob.Kind == "nil dereference" {
					c.ob(ob.Ok, "never panics", key, ob.Instr.Pos(), "%s: %s", ob.Kind, clip(ob.Detail, 200))
				}
			}
			for _, o := range r.outs {
				if !feasible(o) {
					continue
				}
				if !c.ob(okRet(o), "never panics", key, fnPos(r.fn), "panics when the capability is %v", map[bool]string{true: "present", false: "missing"}[*has]) {
					continue
				}
				if *has {
					continue
				}
				okf, _ := splitRet(r.fn, o)
				c.ob(okf == nil, "a missing capability is an error", key, fnPos(r.fn), "success is reported by a driver without %s", s.cap)
				for _, ev := range outEvents(o) {
					if ev.Kind == "invoke" && len(ev.Args) > 0 && ev.Args[0] == r.conn && strings.HasPrefix(methodOf(ev), "Get") && strings.HasSuffix(methodOf(ev), "Path") {
						continue
					}
					c.ob(false, "storage is not touched", key, ev.Instr.Pos(), "%s is called without %s", shortName(ev), s.cap)
				}
			}
		}
	}
	// board changes that no driver supports yet
	for _, n := range []string{"UpdateBoardRecord", "ReadBoardRecord", "RemoveBoardRecord"} {
		if c.p.Method("", "DB", n) == nil {
			continue
		}
		for _, has := range []*bool{&no, &yes} {
			r := c.runDB(n, "WriteBoardConnector", has)
			if r == nil {
				continue
			}
			key := fnKey(r.fn)
			for _, o := range r.outs {
				if !feasible(o) || !c.ob(okRet(o), "never panics", key, fnPos(r.fn), "panics") {
					continue
				}
				okf, _ := splitRet(r.fn, o)
				if okf == nil || !*has {
					c.ob(okf == nil, "a missing capability is an error", key, fnPos(r.fn), "success is reported by a driver without WriteBoardConnector")
					continue
				}
				done := false
				for _, ev := range outEvents(o) {
					if ev.Kind == "invoke" && !(strings.HasPrefix(methodOf(ev), "Get") && strings.HasSuffix(methodOf(ev), "Path")) {
						_, okc := evErr(ev)
						done = done || okc == nil || proveC(okf, okc)
					}
				}
				c.ob(done, "success means that the driver did it", key, fnPos(r.fn), "success is reported although the driver was not asked to do anything")
			}
		}
	}
	// the same operations of the driver: success without having touched the file named is none
	for _, n := range []string{"UpdateBoardRecordFileRecord", "ReadBoardRecordFileRecord", "RemoveBoardRecordFileRecord"} {
		fn := c.p.Method("pttbbs", "Connector", n)
		if fn == nil {
			continue
		}
		e := c.engine()
		args := params(fn)
		outs, ok := c.eval(e, fn, args, newState())
		if !ok {
			continue
		}
		key := fnKey(fn)
		for _, o := range outs {
			if !feasible(o) || !okRet(o) {
				continue
			}
			its := items(o.st.trace, nil)
			c.byError(fn, o, func(f *Facts, failed bool) {
				if failed {
					c.ob(true, "success means that the driver did it", key, fnPos(fn), "")
					return
				}
				done := false
				eachEvent(its, nil, 0, func(ev *Event, _ *Facts, d int) {
					if ev.Kind == "call" && len(ev.Args) > 0 && len(ev.Res) > 0 && d == 0 && eqT(f, ev.Args[0], args[1]) {
						done = true
					}
				})
				c.ob(done, "success means that the driver did it", key, fnPos(fn), "success is reported although the file named was not touched")
			})
		}
	}
}

func init() {
	checks["C19"] = checkDef{run: checkFacade, min: 60,
		rule: "wiring table of the 16 database operations against the invoke events of every outcome with a symbolic driver: the path getter of the named object is called with exactly the given identifiers, the matching action with that path and exactly the given data, each only after the previous call succeeded, nothing else is called, the result is the driver's, and an error is returned exactly when the driver reported one"}
	checks["C20"] = checkDef{run: checkCapability, min: 25,
		rule: "the database operations that need an optional capability are evaluated under 'the driver does not implement it': every outcome is an error, no driver method other than a path getter is called, and every type assertion and method call is proven not to panic"}
}

// homeField is where a driver keeps the home it was opened with: the field of
// that name, or its only string.
func homeField(ty types.Type) []int {
	if h := fieldPath(ty, "home"); h != nil {
		return h
	}
	var out []int
	if s := structOf(ty); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if isString(s.Field(i).Type()) {
				if out != nil {
					return nil
				}
				out = []int{i}
			}
		}
	}
	return out
}
