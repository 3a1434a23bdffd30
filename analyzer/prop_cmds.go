package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C46: each command of the tool does what its name says, on the home and the
// objects its arguments name.

// toolCmd is a command: the operations it is made of, in order, the arguments
// of each, and what it shows.
type toolCmd struct {
	name string
	ops  []toolOp
	list bool     // shows a line for each entry of the list the operation gives
	show []string // accessors of an entry that are shown
	skip string   // entries for which it is empty are unused
	text bool     // shows the bytes the operation gives, as text
}

// Arguments of an operation: a name stands for the argument of that name,
// "#N" for the result of the Nth operation, "#N.M" for method M of it, "*" for
// all arguments, "&a|b" for the text given by a or in the file named by b, in Big5.
type toolOp struct {
	op   string
	args []string
}

var toolCmds = []toolCmd{
	{name: "show_board_list", ops: []toolOp{{"ReadBoardRecords", nil}}, list: true, show: []string{"Title"}},
	{name: "add_board", ops: []toolOp{{"NewBoardRecord", []string{"*"}}, {"AddBoardRecord", []string{"#0"}}}},
	{name: "show_user_list", ops: []toolOp{{"ReadUserRecords", nil}}, list: true, show: []string{"UserID"}, skip: "UserID"},
	{name: "show_user_article_list", ops: []toolOp{{"GetUserArticleRecordFile", []string{"user_id"}}}, list: true, show: []string{"Title"}},
	{name: "show_user_comment_list", ops: []toolOp{{"GetUserCommentRecordFile", []string{"user_id"}}}, list: true, show: []string{"String"}},
	{name: "show_board_article_list", ops: []toolOp{{"ReadBoardArticleRecordsFile", []string{"board"}}}, list: true, show: []string{"Filename", "Owner", "Date", "Title"}, skip: "Filename"},
	{name: "add_board_article", ops: []toolOp{{"CreateArticleRecord", []string{"board", "owner", "date", "title"}},
		{"WriteBoardArticleFile", []string{"board", "#0.Filename", "&content|content_file"}}, {"AddArticleRecordFileRecord", []string{"board", "#0"}}}},
	{name: "show_board_article", ops: []toolOp{{"ReadBoardArticleFile", []string{"board", "filename"}}}, text: true},
}

// flagVars: the package variables that hold the flags of the command line.
func flagVars(p *Program) map[string]string {
	out := map[string]string{}
	name := func(v ssa.Value) string {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		return ""
	}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && f.String() == "flag.StringVar" {
						if g, ok := x.Call.Args[0].(*ssa.Global); ok {
							out[name(x.Call.Args[1])] = "glob:" + g.String()
						}
					}
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						if call, ok := x.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "flag.String" {
							out[name(call.Call.Args[0])] = "deref(glob:" + g.String() + ")"
						}
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if fn.Pkg != nil && relPkg(fn.Pkg.Pkg.Path()) == "cmd/bbstool" {
			visit(fn)
		}
	}
	return out
}

func argOf(ev *Event, i int) *Term {
	if i < len(ev.Content) && ev.Content[i] != nil {
		return ev.Content[i]
	}
	if i < len(ev.Args) {
		return ev.Args[i]
	}
	return nil
}

type toolRun struct {
	c     *Check
	e     *Engine
	cmd   *toolCmd
	calls []*Event // the calls of the operations, in order
	evs   []*Event
	maps  map[*Term]bool
}

// given: the value is that of the argument of the command line with the name.
func (r *toolRun) given(f *Facts, v *Term, name string) string {
	bad := ""
	r.c.cases(f, v, func(f *Facts, v *Term) {
		if v.Op == "unbox" {
			v = v.Args[0]
		}
		if v.Op == "mapget" && v.Args[1].Op == "str" && v.Args[1].S == name {
			r.maps[v.Args[0]] = true
			return
		}
		bad = fmt.Sprintf("is not the argument %s: %s", name, clip(v.String(), 120))
	})
	return bad
}

func (r *toolRun) arg(f *Facts, v *Term, want string) string {
	switch {
	case want == "*":
		r.maps[v] = true
		return ""
	case strings.HasPrefix(want, "#"):
		n := int(want[1] - '0')
		if n >= len(r.calls) {
			return "is made before " + r.cmd.ops[n].op
		}
		t := r.calls[n].Res[0]
		if i := strings.Index(want, "."); i > 0 {
			t = mk("inv", strT, want[i+1:], 0, t)
		}
		if !eqT(f, v, t) {
			return "is not the result of " + r.cmd.ops[n].op
		}
		return ""
	case strings.HasPrefix(want, "&"):
		ab := strings.Split(want[1:], "|")
		bad := ""
		r.c.cases(f, v, func(f *Facts, v *Term) {
			if v.Op != "enc5" {
				bad = "is not converted to Big5: " + clip(v.String(), 120)
				return
			}
			r.c.cases(f, v.Args[0], func(f *Facts, v *Term) {
				if r.given(f, v, ab[0]) == "" {
					return
				}
				if r.wholeFile(f, v, ab[1]) {
					return
				}
				bad = "is not the text given: " + clip(v.String(), 120)
			})
		})
		return bad
	}
	return r.given(f, v, want)
}

// wholeFile: all the bytes of the file that the argument names.
func (r *toolRun) wholeFile(f *Facts, v *Term, name string) bool {
	if v.Op != "rd" || v.S != "all" {
		return false
	}
	for _, p := range r.evs {
		if int64(p.ID) != v.N {
			continue
		}
		switch p.Name {
		case "os.ReadFile", "io/ioutil.ReadFile":
			return r.given(f, argOf(p, 0), name) == ""
		case "io.ReadAll", "io/ioutil.ReadAll":
			for _, q := range r.evs {
				if q.Name == "os.Open" && mentionsT(p.Args[0], q.Res[0]) {
					return r.given(f, argOf(q, 0), name) == ""
				}
			}
		}
	}
	return false
}

func checkCommands(c *Check) {
	e, entry, outs, ok := c.toolRun()
	if !ok {
		return
	}
	flags := flagVars(c.p)
	// the command is the first word
	words := mk("fn", types.NewSlice(strT), "flag.Args", 0)
	word := mk("sel", strT, "", 0, Content(words), Int(0))
	is := func(f *Facts, name string) bool { return proveC(f, Eq(word, Str(name))) }
	done := map[string]bool{}
	loops := map[int]bool{}
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		evs := eventsOf(o)
		// the home and the driver
		for _, b := range evs {
			if !strings.HasSuffix(b.ev.Name, modPath+".Open") || len(b.ev.Args) < 2 {
				continue
			}
			drv, src := argOf(b.ev, 0), argOf(b.ev, 1)
			if src.Op == "cat" && len(src.Args) == 2 && src.Args[0].Op == "str" && src.Args[0].S == "file://" {
				src = src.Args[1]
			}
			c.ob(drv.String() == flags["driver"], "uses the driver given", "bbs.Open", b.ev.Instr.Pos(), "the database is opened with the driver %s", clip(drv.String(), 120))
			c.ob(src.String() == flags["bbshome"], "works on the home given", "bbs.Open", b.ev.Instr.Pos(), "the database is opened on %s", clip(src.String(), 120))
		}
		for i := range toolCmds {
			cmd := &toolCmds[i]
			f := o.st.facts
			if !is(f, cmd.name) {
				q := feasibleWith(f, And2(Ge0(Sub(SeqLen(words), Int(1))), Eq(word, Str(cmd.name))))
				c.ob(q == nil, "the command is known", cmd.name, fnPos(entry), "the tool does something else for the command %s", cmd.name)
				continue
			}
			r := &toolRun{c: c, e: e, cmd: cmd, evs: outEvents(o), maps: map[*Term]bool{}}
			// everything went well: nothing failed, every argument was given
			well := f
			for _, b := range evs {
				if err, _ := evErr(b.ev); err != nil && !e.visible[b.ev.Name] && toolStep(b.ev) && well != nil {
					well = feasibleWith(well, Eq(err, Nil))
				}
			}
			bad := ""
			for _, b := range evs {
				op := dbOp(b.ev)
				if op == "" || bad != "" {
					continue
				}
				n := len(r.calls)
				if n >= len(cmd.ops) || cmd.ops[n].op != op {
					bad = "calls " + op
					break
				}
				if b.loop > 0 {
					bad = "calls " + op + " more than once"
				}
				bf := c.factsAt(b, o)
				for k, want := range cmd.ops[n].args {
					v := argOf(b.ev, k+1)
					if v == nil {
						bad = "an argument of " + op + " is not known"
						continue
					}
					if s := r.arg(bf, v, want); s != "" {
						bad = fmt.Sprintf("argument %d of %s %s", k+1, op, s)
					}
				}
				r.calls = append(r.calls, b.ev)
			}
			c.ob(bad == "", "the command does what its name says", cmd.name, fnPos(entry), "%s", bad)
			for m := range r.maps {
				if l := loopOfMap(e, m); c.ob(l != nil, "arguments are read as given", cmd.name, fnPos(entry), "the arguments are not read by a loop over the command line: %s", clip(m.String(), 100)) && !loops[l.ID] {
					loops[l.ID] = true
					s := c.argLoop(l, m)
					c.ob(s == "", "arguments are read as given", "--name value", fnPos(l.Fn), "%s", s)
				}
			}
			if well == nil || bad != "" {
				continue
			}
			if len(r.calls) < len(cmd.ops) {
				// something was missing
				c.ob(c.cannotGoOn(well, r), "the command does what its name says", cmd.name+": every step", fnPos(entry), "the command ends before %s though nothing failed", cmd.ops[len(r.calls)].op)
				continue
			}
			done[cmd.name] = true
			switch {
			case cmd.list:
				s := c.showsAll(well, o, r)
				c.ob(s == "", "every record is shown, in order", cmd.name, fnPos(entry), "%s", s)
			case cmd.text:
				shown := false
				for _, b := range evs {
					if e.visible[b.ev.Name] && b.loop == 0 {
						for k := range b.ev.Args {
							shown = shown || len(subterms(argOf(b.ev, k), func(t *Term) bool {
								return t.Op == "dec5" && mentionsT(t, r.calls[0].Res[0])
							})) > 0
						}
					}
				}
				c.ob(shown, "the article is shown", cmd.name, fnPos(entry), "the text of the article is not shown")
			}
		}
	}
	for _, cmd := range toolCmds {
		c.ob(done[cmd.name], "coverage", cmd.name, fnPos(entry), "no outcome in which the command is carried out")
	}
}

// cannotGoOn: the facts say that an argument was not given or that the home is no directory.
func (c *Check) cannotGoOn(f *Facts, r *toolRun) bool {
	var conds []*Term
	seen := map[*Term]bool{}
	for g := f; g != nil; g = g.parent {
		for _, d := range subterms(g.cond, func(t *Term) bool { return t.Op == "fisdir" || t.Op == "mapok" || t.Op == "typeis" }) {
			if !seen[d] {
				seen[d] = true
				conds = append(conds, d)
			}
		}
	}
	for _, d := range conds {
		if f = feasibleWith(f, d); f == nil {
			return true
		}
	}
	return false
}

// loopOfMap finds the loop that fills the map.
func loopOfMap(e *Engine, m *Term) *LoopItem {
	for _, l := range e.loops {
		for _, x := range l.Mod {
			if x.Val == m {
				return l
			}
		}
	}
	return nil
}

// argLoop: the loop goes over the command line; "--name value" sets the
// argument, other words are passed over, and it ends where the words end.
func (c *Check) argLoop(l *LoopItem, m *Term) string {
	args := mk("fn", nil, "flag.Args", 0)
	var idx *loopVar
	var mod *LoopMod
	for i := range l.Mod {
		if l.Mod[i].Val == m {
			mod = &l.Mod[i]
		}
	}
	isWord := func(t *Term) bool {
		return t.Op == "sel" && t.Args[0].Op == "content" && t.Args[0].Args[0].Op == "fn" && t.Args[0].Args[0].S == args.S
	}
	var word, list *Term
	find := func(f *Facts) {
		for g := f; g != nil && idx == nil; g = g.parent {
			for _, w := range subterms(g.cond, isWord) {
				for _, v := range loopVars(l) {
					if v.Val == w.Args[1] {
						v := v
						idx, word, list = &v, w, w.Args[0].Args[0]
					}
				}
			}
		}
	}
	for i := range l.Iters {
		it := &l.Iters[i]
		find(it.Facts)
		for _, n := range it.Next {
			find(&Facts{cond: n})
		}
	}
	if idx == nil {
		return "no word of the command line is looked at"
	}
	if !(idx.Init.isInt() && (idx.Init.N == 0 || idx.Init.N == 1)) {
		return "the first word looked at is not the first one behind the command"
	}
	n := SeqLen(list)
	at := func(d int64) *Term { return mk("sel", word.Ty, "", 0, word.Args[0], Add(idx.Val, Int(d))) }
	named := HasPrefixT(word, "--")
	bad := ""
	sets := 0
	for i := range l.Iters {
		it := &l.Iters[i]
		f := saturate(nf(it.Facts))
		if f == nil || contradictory(f) {
			continue
		}
		next := idx.next(it)
		mem, isT := it.Mem[mod.Obj].(*Term)
		if !isT {
			mem = m
		}
		c.cases(f, mem, func(f *Facts, mem *Term) {
			c.cases(f, next, func(f *Facts, next *Term) {
				switch {
				case mem == m:
					if q := feasibleWith(f, named); q != nil {
						bad = "an argument can be passed over"
					}
					if !eqT(f, next, Add(idx.Val, Int(1))) {
						bad = "a word is passed over: next is " + clip(next.String(), 80)
					}
				case mem.Op == "mapset" && mem.Args[0] == m:
					sets++
					k, v := mem.Args[1], mem.Args[2]
					for v.Op == "iface" {
						v = v.Args[0]
					}
					if !proveC(f, named) {
						bad = "a word that does not begin with -- is taken for an argument"
					}
					if !eqT(f, k, SubSeq(word, Int(2), Sub(SeqLen(word), Int(2)))) {
						bad = "the name of the argument is " + clip(k.String(), 100)
					}
					if !eqT(f, v, at(1)) {
						bad = "the value of the argument is " + clip(v.String(), 100)
					}
					if !eqT(f, next, Add(idx.Val, Int(2))) {
						bad = "the next word looked at is not the one behind the value"
					}
				default:
					bad = "the arguments become " + clip(mem.String(), 100)
				}
			})
		})
	}
	if sets == 0 && bad == "" {
		bad = "no argument is kept"
	}
	for _, x := range l.Exits {
		f := saturate(nf(x.Facts))
		if f == nil || contradictory(f) || x.Kind == oPanic {
			continue
		}
		if !proveC(f, Ge0(Sub(Add(idx.Val, Int(1)), n))) {
			bad = "the words behind some word are not looked at"
		}
	}
	return bad
}

// showsAll: a loop over the list shows every entry, but the unused ones.
func (c *Check) showsAll(well *Facts, o Out, r *toolRun) string {
	list := r.calls[0].Res[0]
	isRec := func(t *Term) bool {
		return t.Op == "sel" && t.Args[0].Op == "content" && t.Args[0].Args[0] == list
	}
	why := "no loop over the list"
	for _, it := range items(o.st.trace, nil) {
		l, ok := it.(*LoopItem)
		if !ok {
			continue
		}
		var rec *Term
		for _, i := range l.Iters {
			eachEvent(i.Items, i.Facts, 0, func(ev *Event, f *Facts, d int) {
				for k := range ev.Args {
					for _, t := range subterms(argOf(ev, k), isRec) {
						rec = t
					}
				}
			})
		}
		if rec == nil {
			continue
		}
		if rec.Args[1] != l.Iter {
			return "the entry shown is not that of the iteration: " + clip(rec.String(), 120)
		}
		if s := c.leavesOnlyAtEnd(l, SeqLen(list), well); s != "" {
			return s
		}
		why = ""
		for _, i := range l.Iters {
			f := saturate(nf(i.Facts))
			if f == nil || contradictory(f) {
				continue
			}
			missing := map[string]bool{}
			for _, a := range r.cmd.show {
				missing[a] = true
			}
			eachEvent(i.Items, i.Facts, 0, func(ev *Event, f *Facts, d int) {
				if !r.e.visible[ev.Name] || d > 0 {
					return
				}
				for k := range ev.Args {
					for _, t := range subterms(argOf(ev, k), func(t *Term) bool { return t.Op == "inv" && len(t.Args) == 1 && t.Args[0] == rec }) {
						delete(missing, t.S)
					}
				}
			})
			if len(missing) == 0 {
				continue
			}
			if r.cmd.skip != "" && proveC(f, Eq(mk("inv", strT, r.cmd.skip, 0, rec), Str(""))) {
				continue
			}
			for a := range missing {
				why = "an entry's " + a + " is not shown"
			}
		}
	}
	return why
}

func init() {
	checks["C46"] = checkDef{run: checkCommands, min: 30, rule: "event traces of every command from the tool's main function compared with a table of commands: driver and home are those of the flags, each operation is the command's and gets the arguments of its names, arguments are read by a loop that gives each --name the word behind it, every entry of a list is shown"}
}
