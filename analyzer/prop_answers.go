package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C47: the sample server answers what the home it opened holds.

const (
	ruleBoards = "every board is answered, in order"
	ruleUser   = "the information answered is complete"
	ruleFound  = "a user that exists is found"
	ruleStatus = "a request that gets no data gets a status that says so"
	ruleError  = "a refused request is told why"
	ruleToken  = "the token answered is the one signed"
	ruleStart  = "what is served was loaded from the home opened"
)

// jsonObj takes a value that is sent as a JSON object apart.
func jsonObj(t *Term) map[string]*Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	out := map[string]*Term{}
	switch t.Op {
	case "mapv":
		return out
	case "mapset":
		out = jsonObj(t.Args[0])
		if out == nil || t.Args[1].Op != "str" {
			return nil
		}
		out[t.Args[1].S] = t.Args[2]
		return out
	case "struct":
		st, ok := under(t.Ty).(*types.Struct)
		if !ok || st.NumFields() != len(t.Args) {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				continue
			}
			n := st.Field(i).Name()
			if tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ","); len(tag) == 1 && tag[0] == "-" {
				continue
			} else if tag[0] != "" {
				n = tag[0]
			} else if len(tag) > 1 {
				return nil
			}
			out[n] = t.Args[i]
		}
		return out
	}
	return nil
}

// sentObj is the JSON object an event sends, nil if it sends something else.
func sentObj(ev *Event, w *Term) map[string]*Term {
	a := answer(ev, w)
	if a == nil {
		return nil
	}
	var hit map[string]*Term
	for _, t := range subterms(a, func(t *Term) bool {
		return strings.HasPrefix(t.Op, "fn") && strings.HasPrefix(t.S, "encoding/json.Marshal") && len(t.Args) > 0
	}) {
		hit = jsonObj(t.Args[0])
	}
	if strings.HasSuffix(ev.Name, "json.Encoder).Encode") && len(ev.Args) > 1 {
		hit = jsonObj(argOf(ev, 1))
	}
	return hit
}

// sends tells whether an event sends data to the client.
func sends(ev *Event, w *Term) bool { return answer(ev, w) != nil }

// statusOf is the status an event sets, nil if it sets none.
func statusOf(ev *Event) *Term {
	switch {
	case strings.HasSuffix(ev.Name, ".WriteHeader") && len(ev.Args) > 1:
		return ev.Args[1]
	case ev.Name == "net/http.Error" && len(ev.Args) > 2:
		return ev.Args[2]
	case ev.Name == "net/http.NotFound":
		return Int(404)
	}
	return nil
}

// method is the method of the request.
func (c *Check) reqMethod(o Out, r *Term) *Term {
	var hit *Term
	for _, x := range o.st.facts.list() {
		for _, t := range subterms(x, func(t *Term) bool { return t.Op == "fld" && t.S == "Method" && mentionsT(t, r) }) {
			hit = t
		}
	}
	return hit
}

// forMethod is what holds in an outcome of a request with the method, nil when
// the outcome is not one of such a request.
func (c *Check) forMethod(o Out, r *Term, name string) *Facts {
	f := o.st.facts
	if m := c.reqMethod(o, r); m != nil {
		return feasibleWith(f, Eq(m, Str(name)))
	}
	return f
}

func (c *Check) onlyMethod(o Out, r *Term, name string) bool {
	m := c.reqMethod(o, r)
	return m != nil && proveC(o.st.facts, Eq(m, Str(name)))
}

// globList finds the global list the elements of which a term mentions.
func globLists(t *Term, elem string) map[string]*Term {
	out := map[string]*Term{}
	for _, x := range subterms(t, func(t *Term) bool { return t.Op == "glob" && t.Ty != nil }) {
		if el := sliceElem(x); el != nil {
			if n, ok := el.(*types.Named); ok && n.Obj().Name() == elem {
				out[x.S] = x
			}
		}
	}
	return out
}

// recordLists finds the global lists of records a term takes its data from,
// also through variables that loops carry.
func recordLists(e *Engine, t *Term, out map[string]bool) {
	for k := range globLists(t, "UserRecord") {
		out[k] = true
	}
	done := map[*Term]bool{}
	var carried func(t *Term)
	carried = func(t *Term) {
		for _, x := range subterms(t, func(t *Term) bool { return t.Op == "phi" || t.Op == "lmem" }) {
			if done[x] {
				continue
			}
			done[x] = true
			if l, k := e.loopVarOf(x); l != nil {
				v := loopVars(l)[k]
				for i := range l.Iters {
					n := v.next(&l.Iters[i])
					if n == nil {
						continue
					}
					for k := range globLists(n, "UserRecord") {
						out[k] = true
					}
					carried(n)
				}
			}
		}
	}
	carried(t)
}

// notFound tells whether an outcome is one in which no entry of the list has
// the wanted id: some loop looked at every entry.
func (c *Check) notFound(e *Engine, f *Facts, is func(*Term) bool) bool {
	for _, l := range e.loops {
		ls := map[string]*Term{}
		ids := map[*Term]bool{}
		look := func(fs *Facts) {
			if fs == nil {
				return
			}
			for _, x := range fs.list() {
				for k, g := range globLists(x, "UserRecord") {
					ls[k] = g
				}
				for _, t := range subterms(x, is) {
					ids[t] = true
				}
			}
		}
		for _, it := range l.Iters {
			look(it.Facts)
		}
		for _, x := range l.Exits {
			look(x.Facts)
		}
		for _, g := range ls {
			ran := false
			for _, x := range l.Exits {
				ran = ran || exitPossible(f, x)
			}
			if !ran || c.leavesOnlyAtEnd(l, SeqLen(g), f) != "" {
				continue
			}
			uid := mk("inv", strT, "UserID", 0, mk("sel", sliceElem(g), "", 0, Content(g), l.Iter))
			for id := range ids {
				all := len(l.Iters) > 0
				for _, it := range l.Iters {
					fs := saturate(nf(it.Facts))
					if fs == nil || contradictory(fs) {
						continue
					}
					if !differ(fs, uid, id) && !c.remembered(l, &it, fs, f, uid, id) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

func differ(f *Facts, a, b *Term) bool { return proveC(f, Not(Eq(a, b))) || proveC(f, Not(Eq(b, a))) }

// remembered tells whether the loop carries a variable that an iteration with
// the wanted entry sets, that is never unset, and that is not set at the end.
func (c *Check) remembered(l *LoopItem, it *LoopIter, fs, end *Facts, uid, id *Term) bool {
	for _, v := range loopVars(l) {
		v := v
		unset := func(f *Facts, x *Term) bool {
			if v.Init == Nil {
				return proveC(f, isNilT(x))
			}
			return proveC(f, Eq(x, v.Init)) || x.Ty != nil && isIntType(x.Ty) && proveC(f, Eq0(Sub(x, v.Init)))
		}
		set := func(f *Facts, x *Term) bool {
			switch {
			case v.Init == Nil:
				return x.Op == "sel" || proveC(f, Not(isNilT(x)))
			case v.Init.isInt():
				return proveC(f, Ge0(Sub(Sub(x, v.Init), Int(1))))
			}
			return proveC(f, Not(Eq(x, v.Init)))
		}
		if !unset(nf(end), v.Val) {
			continue
		}
		ok := true
		c.cases(fs, v.next(it), func(f *Facts, x *Term) {
			ok = ok && (x == v.Val && differ(f, uid, id) || x != v.Val && set(f, x))
		})
		if ok {
			return true
		}
	}
	return false
}

// marshalled drops the outcomes in which a value could not be marshalled.
func marshalFailed(f *Facts) bool {
	for _, x := range f.list() {
		if x.Op == "not" && len(subterms(x, func(t *Term) bool {
			return strings.Contains(t.S, "encoding/json.")
		})) > 0 {
			return true
		}
	}
	return false
}

func (c *Check) checkBoardsAnswer(h handler, lists map[string]bool) {
	fn := h.fn
	e := c.engine()
	args := params(fn)
	outs, ok := c.eval(e, fn, args, newState())
	if !ok {
		return
	}
	n := 0
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		f := c.forMethod(o, args[1], "GET")
		if f == nil || marshalFailed(f) {
			continue
		}
		n++
		var sent []*Event
		for _, pe := range eventsOf(o) {
			if sends(pe.ev, args[0]) {
				sent = append(sent, pe.ev)
			}
			if s := statusOf(pe.ev); s != nil {
				c.ob(s == Int(200), ruleBoards, h.pattern+": status", pe.ev.Instr.Pos(), "the status is %v", s)
			}
		}
		if !c.ob(len(sent) == 1, ruleBoards, h.pattern+": one answer", fnPos(fn), "%d answers are sent", len(sent)) {
			continue
		}
		obj := sentObj(sent[0], args[0])
		if !c.ob(obj != nil && obj["data"] != nil, ruleBoards, h.pattern+": data", sent[0].Instr.Pos(), "no JSON object with the key data is sent") {
			continue
		}
		v := obj["data"]
		for v.Op == "iface" {
			v = v.Args[0]
		}
		x := v
		if x.Op == "content" {
			x = x.Args[0]
		}
		nonNil := proveC(nf(f), Not(isNilT(x))) || x.Op == "slice" || x.Op == "list"
		if l, k := e.loopVarOf(x); l != nil {
			nonNil = proveC(nf(f), Not(isNilT(loopVars(l)[k].Init)))
		}
		c.ob(nonNil, ruleBoards, h.pattern+": no boards", sent[0].Instr.Pos(), "when there are no boards null is sent and not a list")
		el := types.Type(types.NewInterfaceType(nil, nil))
		if s := sliceElem(v); s != nil {
			el = s
		}
		seq := v
		if v.Op != "content" {
			seq = listSeq(e, o.st, v, el)
		}
		ps, ok := c.parts(e, o.st, f, seq, nil, el)
		var src *Term
		if ok && len(ps) == 1 && ps[0].kind == "spread" {
			src = ps[0].t
			for src.Op == "content" {
				src = src.Args[0]
			}
		}
		good := src != nil && src.Op == "glob" && len(globLists(src, "BoardRecord")) == 1
		if c.ob(good, ruleBoards, h.pattern+": the list", sent[0].Instr.Pos(), "the data is not the list of the boards: %s", clip(v.String(), 200)) {
			lists[src.S] = true
		}
	}
	c.ob(n > 0, "coverage", h.pattern, fnPos(fn), "no outcome of a GET")
}

func (c *Check) checkUserAnswer(h handler, lists map[string]bool) {
	fn := h.fn
	e := c.engine()
	for _, p := range c.p.Funcs {
		if isPermissionCheck(p) {
			e.opaque[fnKey(p)] = true
		}
	}
	args := params(fn)
	outs, ok := c.eval(e, fn, args, newState())
	if !ok {
		return
	}
	// segment k of the path
	isSeg := func(t *Term, k int64) bool {
		return t.Op == "sel" && t.Args[1].isInt() && t.Args[1].N == k && t.Args[0].Op == "split" && mentionsT(t.Args[0], args[1])
	}
	item := func(f *Facts) *Term {
		var hit *Term
		for _, x := range f.list() {
			for _, t := range subterms(x, func(t *Term) bool { return isSeg(t, 4) }) {
				hit = t
			}
		}
		return hit
	}
	n, miss := 0, 0
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		var data []*Event
		var status *Term
		wrote := 0
		for _, pe := range eventsOf(o) {
			ev := pe.ev
			if s := statusOf(ev); s != nil && status == nil && wrote == 0 {
				status = s
			}
			if a := answer(ev, args[0]); a != nil {
				wrote++
				if len(subterms(a, func(t *Term) bool { return t.Op == "inv" && userAttr(t) })) > 0 {
					data = append(data, ev)
				}
				recordLists(e, a, lists)
			}
		}
		if len(data) > 0 {
			n++
			it := item(o.st.facts)
			c.ob(c.onlyMethod(o, args[1], "GET") && it != nil && proveC(o.st.facts, Eq(it, Str("information"))), ruleUser, h.pattern+": the request", data[0].Instr.Pos(), "the information is sent for another request than GET …/information")
			c.ob(wrote == 1 && (status == nil || status == Int(200)), ruleUser, h.pattern+": one answer", data[0].Instr.Pos(), "%d answers are sent, with the status %v", wrote, status)
			obj := sentObj(data[0], args[0])
			var rec map[string]*Term
			if obj != nil && obj["data"] != nil {
				rec = jsonObj(obj["data"])
			}
			if !c.ob(rec != nil, ruleUser, h.pattern+": data", data[0].Instr.Pos(), "no JSON object with the key data is sent") {
				continue
			}
			for key, attr := range answerAttr {
				v := rec[key]
				for v != nil && v.Op == "iface" {
					v = v.Args[0]
				}
				inner := v
				bad := "the key is missing"
				if v != nil {
					switch attr {
					case "NumLoginDays", "NumPosts", "Money":
						bad = "it is not the number in decimal"
						if v.Op == "dec" {
							inner, bad = v.Args[0], ""
						}
					case "LastLogin":
						bad = "it is not the time in the format of RFC 3339"
						if v.Op == "fn" && strings.HasSuffix(v.S, "time.Time).Format") && len(v.Args) == 2 && v.Args[1] == Str("2006-01-02T15:04:05Z07:00") {
							inner, bad = v.Args[0], ""
						}
					default:
						bad = ""
					}
					if bad == "" && !(inner.Op == "inv" && inner.S == attr && userAttr(inner)) {
						bad = "it is " + clip(v.String(), 160)
					}
				}
				c.ob(bad == "", ruleUser, h.pattern+": "+key, data[0].Instr.Pos(), "%q: %s", key, bad)
			}
			continue
		}
		f := c.forMethod(o, args[1], "GET")
		if f == nil || marshalFailed(f) {
			c.ob(wrote == 0 || status != nil && proveC(o.st.facts, Ge0(Sub(status, Int(400)))), ruleStatus, h.pattern+": another method", fnPos(fn), "another method is answered as if it were a GET")
			continue
		}
		c.ob(status != nil && proveC(f, Ge0(Sub(status, Int(400)))), ruleStatus, h.pattern+": GET", fnPos(fn), "the status is %v", status)
		for _, pe := range eventsOf(o) {
			if sends(pe.ev, args[0]) {
				c.errorAnswer(pe.ev, args[0], "find_userrec_error", h.pattern)
			}
		}
		// what the request asks for exists, and it may have it
		g := f
		if it := item(f); it != nil {
			g = feasibleWith(g, And2(Ge0(Sub(SeqLen(it.Args[0]), Int(5))), Eq(it, Str("information"))))
		} else {
			// the path has no item
			continue
		}
		for _, pe := range eventsOf(o) {
			if err, _ := evErr(pe.ev); err != nil && g != nil && !isWrite(pe.ev, nil) {
				g = feasibleWith(g, Eq(err, Nil))
			}
		}
		if g == nil {
			continue
		}
		miss++
		c.ob(c.notFound(e, g, func(t *Term) bool { return isPathUser(t, args[1]) }), ruleFound, h.pattern, fnPos(fn), "a request for the information of a user gets none, though not every record was looked at")
	}
	c.ob(n > 0 && miss > 0, "coverage", h.pattern, fnPos(fn), "%d outcomes with the information, %d without the user", n, miss)
}

func (c *Check) checkTokenAnswer(h handler, lists map[string]bool) {
	fn := h.fn
	e := c.engine()
	args := params(fn)
	outs, ok := c.eval(e, fn, args, newState())
	if !ok {
		return
	}
	n, miss := 0, 0
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		var sign *Event
		var tok map[string]*Term
		var at *Event
		wrote := 0
		for _, pe := range eventsOf(o) {
			if isSign(pe.ev) {
				sign = pe.ev
			}
			if isUserVerify(pe.ev) {
				recordLists(e, pe.ev.Args[0], lists)
			}
			if sends(pe.ev, args[0]) {
				wrote++
				if m := sentObj(pe.ev, args[0]); m["access_token"] != nil {
					tok, at = m, pe.ev
				}
			}
		}
		f := c.forMethod(o, args[1], "POST")
		if f == nil || marshalFailed(f) {
			c.ob(wrote == 0 || tok == nil, ruleToken, h.pattern+": another method", fnPos(fn), "another method is answered with a token")
			continue
		}
		// every step succeeds
		g := f
		for _, pe := range eventsOf(o) {
			if err, _ := evErr(pe.ev); err != nil && g != nil && !isWrite(pe.ev, nil) {
				g = feasibleWith(g, Eq(err, Nil))
			}
		}
		if tok != nil {
			if c.ob(tok["token_type"] != nil && tok["token_type"].String() == `"bearer"` || tok["token_type"] != nil && unboxed(tok["token_type"]).String() == `"bearer"`, ruleToken, h.pattern+": token_type", at.Instr.Pos(), "the type of the token is %v", tok["token_type"]); sign != nil && g != nil {
				n++
				v := tok["access_token"]
				for v.Op == "iface" {
					v = v.Args[0]
				}
				c.ob(eqT(g, simp(v, nf(g)), sign.Res[0]), ruleToken, h.pattern+": access_token", at.Instr.Pos(), "the token answered is %s", clip(v.String(), 160))
			}
			c.ob(wrote == 1, ruleToken, h.pattern+": one answer", at.Instr.Pos(), "%d answers are sent", wrote)
			continue
		}
		c.ob(wrote == 1, ruleStatus, h.pattern+": POST", fnPos(fn), "%d answers are sent when no token is given", wrote)
		for _, pe := range eventsOf(o) {
			if sends(pe.ev, args[0]) {
				c.errorAnswer(pe.ev, args[0], "grant_error", h.pattern)
			}
		}
		if g == nil {
			continue
		}
		miss++
		c.ob(c.notFound(e, g, func(t *Term) bool { return formValue(t, args[1], "username") }), ruleFound, h.pattern, fnPos(fn), "a request for a token gets none though nothing failed, and not every record was looked at")
	}
	c.ob(n > 0 && miss > 0, "coverage", h.pattern, fnPos(fn), "%d outcomes with a token, %d without the user", n, miss)
}

// errorAnswer: an answer that refuses a request tells why.
func (c *Check) errorAnswer(ev *Event, w *Term, code, where string) {
	obj := sentObj(ev, w)
	got := obj["error"]
	if got != nil {
		got = unboxed(got)
	}
	c.ob(got == Str(code) && obj["error_description"] != nil, ruleError, where, ev.Instr.Pos(), "the error answered is %v, with the keys %s", got, keysOf(obj))
}

func keysOf(m map[string]*Term) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// checkNoAnswer: a handler for what the server does not offer.
func (c *Check) checkNoAnswer(h handler) {
	e := c.engine()
	args := params(h.fn)
	outs, ok := c.eval(e, h.fn, args, newState())
	if !ok {
		return
	}
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		var status *Term
		wrote := 0
		for _, pe := range eventsOf(o) {
			if s := statusOf(pe.ev); s != nil && status == nil && wrote == 0 {
				status = s
			}
			if sends(pe.ev, args[0]) {
				wrote++
			}
		}
		f := c.forMethod(o, args[1], "GET")
		if f == nil {
			continue
		}
		c.ob(status != nil && proveC(f, Ge0(Sub(status, Int(400)))), ruleStatus, h.pattern+": GET", fnPos(h.fn), "what is not offered is answered with the status %v", status)
	}
}

func (c *Check) checkStart(users, boards map[string]bool, hs []handler) {
	var entry *ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Pkg != nil && relPkg(fn.Pkg.Pkg.Path()) == "serverlet" && fn.Name() == "main" && fn.Parent() == nil && fn.Signature.Recv() == nil {
			entry = fn
		}
	}
	if !c.ob(entry != nil, "anchor", "main of the server", 0, "the server has no main function") {
		return
	}
	c.ob(len(users) == 1 && len(boards) == 1, ruleStart, "the lists served", fnPos(entry), "the handlers serve %d lists of users and %d of boards", len(users), len(boards))
	e := c.engine()
	for _, f := range c.exported(map[string]bool{"": true}) {
		if r := f.Signature.Results(); r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
			e.opaque[fnKey(f)] = true
		}
	}
	e.nonNil = func(t *Term) bool { return t.Op == "res" }
	outs, ok := c.eval(e, entry, nil, newState())
	if !ok {
		return
	}
	n := 0
	for _, o := range outs {
		if !feasible(o) {
			continue
		}
		evs := eventsOf(o)
		for i, pe := range evs {
			ev := pe.ev
			if !strings.HasPrefix(ev.Name, "net/http.ListenAndServe") && !strings.HasPrefix(ev.Name, "net/http.Serve") && !strings.HasPrefix(ev.Name, "(*net/http.Server).") {
				continue
			}
			f := c.factsAt(pe, o)
			var open *Event
			reads := map[string]*Event{}
			regs := map[string]string{}
			g := f
			for _, b := range evs[:i] {
				if strings.HasSuffix(b.ev.Name, modPath+".Open") {
					open = b.ev
				}
				if op := dbOp(b.ev); op != "" {
					c.ob(strings.HasPrefix(op, "Read") || strings.HasPrefix(op, "Get"), ruleStart, "nothing is written", b.ev.Instr.Pos(), "%s is called before the server listens", op)
					if reads[op] == nil {
						reads[op] = b.ev
					}
					if err, _ := evErr(b.ev); err != nil && g != nil {
						g = feasibleWith(g, Eq(err, Nil))
					}
				}
				if strings.Contains(b.ev.Name, "Handle") && len(b.ev.Args) >= 2 {
					as := b.ev.Args
					p, hd := as[len(as)-2], unboxed(as[len(as)-1])
					onMux := len(as) == 2
					if len(as) == 3 {
						for _, t := range ev.Args {
							onMux = onMux || mentionsT(t, as[0])
						}
					}
					if p.Op == "str" && onMux {
						regs[p.S] = hd.String()
					}
				}
			}
			if open != nil && g != nil {
				if err, _ := evErr(open); err != nil {
					c.ob(proveC(f, Eq(err, Nil)), ruleStart, "the home is open", ev.Instr.Pos(), "the server listens though the home may not have been opened")
				}
			}
			if !c.ob(open != nil, ruleStart, "a home is opened", ev.Instr.Pos(), "the server listens without a home") {
				continue
			}
			for _, h := range hs {
				c.ob(strings.Contains(regs[h.pattern], h.fn.String()), ruleStart, "handler of "+h.pattern, ev.Instr.Pos(), "the handler is not registered with the server that listens")
			}
			if g == nil {
				continue
			}
			n++
			for want, names := range map[string]map[string]bool{"ReadUserRecords": users, "ReadBoardRecords": boards} {
				rd := reads[want]
				if !c.ob(rd != nil, ruleStart, want, ev.Instr.Pos(), "%s is not called before the server listens", want) {
					continue
				}
				c.ob(mentionsT(rd.Args[0], open.Res[0]), ruleStart, want+": the home opened", rd.Instr.Pos(), "the records are those of another database: %s", clip(rd.Args[0].String(), 120))
				for name := range names {
					v := c.globalAt(e, o.st, name)
					c.ob(v != nil && eqT(g, simp(v, nf(g)), rd.Res[0]), ruleStart, want+" are served", ev.Instr.Pos(), "the list served is %v", v)
				}
			}
		}
	}
	c.ob(n > 0, "coverage", "the server listens", fnPos(entry), "no outcome in which the server listens")
}

// globalAt is the value of a global at the end of an outcome.
func (c *Check) globalAt(e *Engine, st *State, name string) *Term {
	for g, o := range e.globals {
		if g.String() == name {
			v, _ := e.get(st, o.id).(*Term)
			return v
		}
	}
	return nil
}

func checkAnswers(c *Check) {
	users, boards := map[string]bool{}, map[string]bool{}
	var hs []handler
	for _, h := range c.routes() {
		switch h.pattern {
		case "/v1/boards":
			c.checkBoardsAnswer(h, boards)
		case "/v1/users/":
			c.checkUserAnswer(h, users)
		case "/v1/token":
			c.checkTokenAnswer(h, users)
		default:
			c.checkNoAnswer(h)
			continue
		}
		hs = append(hs, h)
	}
	c.ob(len(hs) == 3, "anchor", "handlers", 0, "%d of the 3 handlers are registered", len(hs))
	c.checkStart(users, boards, hs)
}

func init() {
	checks["C47"] = checkDef{run: checkAnswers, min: 30, rule: "value-graph of every answer of the registered handlers compared with a table of keys and accessors, loops over the records decided to look at all of them, and the event trace of the server's main function up to where it listens"}
}
