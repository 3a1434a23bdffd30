package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24, C26, C27: who gets in, and who gets what.

const fcryptKey = "bbs/crypt.Fcrypt"

// fcryptContract replaces the password hash: it fails, or the salt has at
// least two bytes and the result is 13 bytes without NUL followed by one NUL.
func fcryptContract(calls *[]*Event) func(*cc) []Out {
	return func(c *cc) []Out {
		key, salt := c.bytes(0), c.bytes(1)
		ev := c.e.newEvent(c.fr, c.in, "call", c.name, c.args, nil, c.st, c.deferred)
		ev.Content = []*Term{key, salt}
		h := mk("hash", strT, "crypt", int64(ev.ID)*256+13)
		err := mk("res", errT, c.name, int64(ev.ID)*8+1)
		ev.Res = []*Term{h, err}
		c.st.push(ev)
		if calls != nil {
			*calls = append(*calls, ev)
		}
		return c.e.fork(c.st, Eq(err, Nil), func(st *State) []Out {
			st.facts = st.facts.add(Ge0(Sub(SeqLen(salt), Int(2))))
			return one(st, c.e.newBytes(Cat(h, Str("\x00")), c.in), Nil)
		}, func(st *State) []Out { return one(st, Nil, err) })
	}
}

// methodsNamed lists the concrete methods of the repository with a name.
func (c *Check) methodsNamed(name string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Parent() == nil && fn.Synthetic == "" && fn.Blocks != nil && fn.Name() == name && fn.Signature.Recv() != nil {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
	return out
}

// callOn evaluates a method of the receiver type of fn in a state.
func (c *Check) callOn(e *Engine, recvOf *ssa.Function, name string, recv *Term, st *State) []Out {
	rt := recvOf.Signature.Recv().Type()
	ms := c.p.SSA.MethodSets.MethodSet(rt)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			outs, err := e.Call(c.p.SSA.MethodValue(ms.At(i)), []*Term{recv}, st)
			if err == nil {
				return outs
			}
		}
	}
	return nil
}

func checkVerifyPassword(c *Check) {
	ms := c.methodsNamed("VerifyPassword")
	for _, fn := range ms {
		name := fnKey(fn)
		var calls []*Event
		e := c.engine()
		e.contract[fcryptKey] = fcryptContract(&calls)
		args := params(fn)
		if len(args) != 2 || !isString(args[1].Ty) {
			c.ob(false, "accepts exactly the matching hash", name, fnPos(fn), "the method does not take one password")
			continue
		}
		outs, ok := c.eval(e, fn, args, newState())
		if !ok {
			continue
		}
		var stored *Term
		for _, o := range c.callOn(e, fn, "HashedPassword", args[0], newState()) {
			if okRet(o) && len(o.ret) == 1 {
				stored = o.ret[0]
			}
		}
		if !c.ob(stored != nil, "stored hash", name, fnPos(fn), "the record has no readable stored hash (HashedPassword)") {
			continue
		}
		for _, o := range outs {
			if !feasible(o) {
				continue
			}
			if !okRet(o) {
				continue // C09
			}
			good, bad := splitRet(fn, o)
			// the hash computations of this outcome
			var hs []*Event
			for _, ev := range outEvents(o) {
				if ev.Name == fcryptKey {
					hs = append(hs, ev)
				}
			}
			rightArgs := func(f *Facts, ev *Event) bool {
				if !eqT(f, ev.Content[0], args[1]) {
					return false
				}
				salt := ev.Content[1]
				g := f.add(Ge0(Sub(SeqLen(stored), Int(2)))).add(Ge0(Sub(SeqLen(salt), Int(2))))
				return eqT(g, At(salt, Int(0)), At(stored, Int(0))) && eqT(g, At(salt, Int(1)), At(stored, Int(1)))
			}
			if good != nil {
				found := false
				why := "no hash was computed"
				for _, ev := range hs {
					err := ev.Res[1]
					switch {
					case !rightArgs(good, ev):
						why = "the hash is not of the given password under the stored salt"
					case !proveC(good, Eq(err, Nil)):
						why = "the hash function may have failed"
					case !proveC(good, Eq(ev.Res[0], stored)):
						why = "the whole stored hash was not compared with the computed hash"
					default:
						found = true
					}
				}
				c.ob(found, "accepts only the matching hash", name, fnPos(fn), "a success is possible although %s", why)
			}
			if bad != nil {
				// a refusal while a correct comparison would succeed
				ok := false
				for _, ev := range hs {
					if !rightArgs(bad, ev) {
						continue
					}
					f := bad.add(Eq(ev.Res[1], Nil)).add(Eq(ev.Res[0], stored)).add(Eq0(Sub(SeqLen(stored), Int(13))))
					if f = saturate(f); f == nil || contradictory(f) || proveC(f, False) {
						ok = true
					}
				}
				if len(hs) == 0 {
					// refused before hashing: only when the stored value cannot be a hash
					f := bad.add(Eq0(Sub(SeqLen(stored), Int(13))))
					if f = saturate(f); f == nil || contradictory(f) {
						ok = true
					}
				}
				c.ob(ok, "refuses only a wrong password", name, fnPos(fn), "the matching password can be refused")
			}
		}
	}
	// the contract of the hash function that the comparison relies on
	fn := c.need("crypt", "Fcrypt")
	if fn == nil {
		return
	}
	e := c.engine()
	args := params(fn)
	outs, ok := c.eval(e, fn, args, newState())
	if !ok {
		return
	}
	salt := Content(args[1])
	for _, o := range outs {
		if !feasible(o) || !okRet(o) {
			continue
		}
		good, _ := splitRet(fn, o)
		if good == nil {
			continue
		}
		c.ob(proveC(good, Ge0(Sub(SeqLen(salt), Int(2)))), "hash contract", "needs a two-character salt", fnPos(fn), "a hash is returned for a salt of fewer than two characters")
		c.cases(good, o.ret[0], func(f *Facts, v *Term) {
			if !c.ob(v != Nil && proveC(f, Eq0(Sub(e.sliceLen(v), Int(14)))), "hash contract", "13 characters and a NUL", fnPos(fn), "the result is %s", clip(v.String(), 200)) {
				return
			}
			b := e.readSlice(o.st, v, byteT)
			c.ob(eqT(f, At(b, Int(13)), Int(0)), "hash contract", "ends with a NUL", fnPos(fn), "the last byte is %s", clip(At(b, Int(13)).String(), 200))
			for i := int64(0); i < 2; i++ {
				g := f.add(Not(Eq0(At(salt, Int(i)))))
				c.ob(eqT(g, At(b, Int(i)), At(salt, Int(i))), "hash contract", "starts with the salt", fnPos(fn), "byte %d is %s", i, clip(At(b, Int(i)).String(), 200))
			}
		})
	}
}

func init() {
	checks["C24"] = checkDef{run: checkVerifyPassword, min: 6,
		rule: "abstract interpretation of every VerifyPassword with the hash function replaced by its contract: each success is dominated by a hash of exactly the given password under the stored salt that returned no error and by a comparison of the whole result with the stored hash; each refusal excludes that match; the contract (salt of two or more bytes, result = salt, 13 characters, one NUL) is decided on the hash function itself"}
	checks["C26"] = checkDef{run: checkToken, min: 6,
		rule: "trace analysis of every HTTP handler: each signing of a token is dominated by a successful VerifyPassword of the password in the request on the record whose id equals the user in the request, the signed subject is that user, the expiry is issue time plus a positive constant of at most one hour, and no answer carries an access token otherwise"}
	checks["C27"] = checkDef{run: checkUserInfo, min: 6,
		rule: "trace analysis of every HTTP handler: each answer that contains an attribute of a user record is dominated by a successful permission check of the request's bearer token for READ_USER_INFORMATION and the user in the path, and the attributes are those of the record with that id; a failed check is answered 401 without data; the permission check can fail"}
}

type handler struct {
	fn      *ssa.Function
	pattern string
}

// routes lists the handlers registered with their patterns.
func (c *Check) routes() []handler {
	var out []handler
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || relPkg(fn.Pkg.Pkg.Path()) != "serverlet" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				n := call.Common().StaticCallee().String()
				if n != "(*net/http.ServeMux).HandleFunc" && n != "net/http.HandleFunc" && n != "(*net/http.ServeMux).Handle" && n != "net/http.Handle" {
					continue
				}
				as := call.Common().Args
				pat := ""
				if k, ok := as[len(as)-2].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					pat = constant.StringVal(k.Value)
				}
				v := as[len(as)-1]
				for {
					switch x := v.(type) {
					case *ssa.ChangeType:
						v = x.X
						continue
					case *ssa.MakeInterface:
						v = x.X
						continue
					}
					break
				}
				h, ok := v.(*ssa.Function)
				if !ok || h.Blocks == nil || len(h.Params) != 2 {
					c.ob(false, "anchor", "handler of "+pat, in.Pos(), "the handler is not a plain function")
					continue
				}
				out = append(out, handler{h, pat})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].pattern+fnKey(out[i].fn) < out[j].pattern+fnKey(out[j].fn) })
	c.ob(len(out) >= 4, "anchor", "registered handlers", 0, "only %d handlers are registered", len(out))
	return out
}

type posEvent struct {
	ev    *Event
	facts *Facts
	loop  int
}

func eventsOf(o Out) []posEvent {
	var out []posEvent
	eachEvent(items(o.st.trace, nil), o.st.facts, 0, func(ev *Event, f *Facts, d int) { out = append(out, posEvent{ev, f, d}) })
	return out
}

// formValue recognises the value of a field of the request form.
func formValue(t *Term, r *Term, field string) bool {
	if t.Op == "fn" && (t.S == "(*net/http.Request).FormValue" || t.S == "(*net/http.Request).PostFormValue") {
		return t.Args[0] == r && t.Args[1].Op == "str" && t.Args[1].S == field
	}
	if t.Op == "fn" && t.S == "(net/url.Values).Get" {
		return mentionsT(t.Args[0], r) && t.Args[1].Op == "str" && t.Args[1].S == field
	}
	return false
}

func mentionsT(t, x *Term) bool {
	found := false
	walk(t, func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

// subterms collects the subterms that satisfy a predicate.
func subterms(t *Term, pred func(*Term) bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	walk(t, func(y *Term) bool {
		if seen[y] {
			return false
		}
		seen[y] = true
		if pred(y) {
			out = append(out, y)
		}
		return true
	})
	return out
}

func isUserVerify(ev *Event) bool {
	return ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".VerifyPassword")
}

func isSign(ev *Event) bool {
	return strings.HasSuffix(ev.Name, ".SignedString") || strings.HasSuffix(ev.Name, ".SigningString")
}

// isWrite tells whether ev writes bytes to the client, through w or an
// io.Writer that w was given as.
func isWrite(ev *Event, w *Term) bool {
	return strings.HasSuffix(ev.Name, "ResponseWriter).Write") ||
		ev.Name == "(io.Writer).Write" && len(ev.Args) > 0 && (w == nil || ev.Args[0] == w)
}

// answer is the data an event sends to the client, nil if it sends none.
func answer(ev *Event, w *Term) *Term {
	switch {
	case isWrite(ev, w), strings.HasPrefix(ev.Name, "fmt.Fprint"), strings.HasPrefix(ev.Name, "io.WriteString"),
		strings.HasSuffix(ev.Name, "json.Encoder).Encode"), strings.HasPrefix(ev.Name, "net/http.Error"):
		ts := append(append([]*Term{}, ev.Content...), ev.Args...)
		var l []*Term
		for _, t := range ts {
			if t != nil {
				l = append(l, t)
			}
		}
		return mk("answer", nil, "", 0, l...)
	}
	return nil
}

func checkToken(c *Check) {
	signs := 0
	for _, h := range c.routes() {
		fn := h.fn
		e := c.engine()
		args := params(fn)
		outs, ok := c.eval(e, fn, args, newState())
		if !ok {
			continue
		}
		name := h.pattern
		for _, o := range outs {
			if !feasible(o) || !okRet(o) {
				continue
			}
			evs := eventsOf(o)
			for i, pe := range evs {
				ev := pe.ev
				isTok := false
				if a := answer(ev, args[0]); a != nil {
					isTok = len(subterms(a, func(t *Term) bool { return t.Op == "str" && t.S == "access_token" })) > 0
				}
				if !isSign(ev) && !isTok {
					continue
				}
				f := c.factsAt(pe, o)
				var ver *Event
				why := "no password was verified before"
				for _, p := range evs[:i] {
					v := p.ev
					if !isUserVerify(v) {
						continue
					}
					err, good := evErr(v)
					_ = err
					uid := mk("inv", strT, "UserID", 0, v.Args[0])
					user := c.requestUser(f, uid, args[1])
					switch {
					case good == nil || !proveC(evFacts(ev, f), good):
						why = "the password verification may have failed"
					case !formValue(v.Args[1], args[1], "password"):
						why = "the verified password is not the one in the request"
					case user == nil:
						why = "the verified record is not that of the user in the request"
					default:
						ver = v
					}
				}
				if isTok {
					c.ob(ver != nil, "token only after verification", name+": answer", ev.Instr.Pos(), "an access token is sent although %s", why)
				}
				if !isSign(ev) {
					continue
				}
				signs++
				if !c.ob(ver != nil, "token only after verification", name+": signing", ev.Instr.Pos(), "a token is signed although %s", why) {
					continue
				}
				// what is signed
				claims := c.claimsOf(evs[:i+1], ev)
				if !c.ob(claims != nil, "claims", name+": signing", ev.Instr.Pos(), "the claims of the token are not known") {
					continue
				}
				sub, exp := claims["sub"], claims["exp"]
				uid := mk("inv", strT, "UserID", 0, ver.Args[0])
				c.ob(sub != nil && (formValue(sub, args[1], "username") || eqT(f, sub, uid)), "subject is the verified user", name+": signing", ev.Instr.Pos(), "the subject is %v", sub)
				c.ob(boundedExpiry(exp), "expires within an hour", name+": signing", ev.Instr.Pos(), "the expiry is %v", exp)
			}
		}
	}
	c.ob(signs > 0, "coverage", "a handler issues tokens", 0, "no token is ever signed")
}

func evFacts(ev *Event, f *Facts) *Facts {
	if ev.Facts == nil {
		return f
	}
	return ev.Facts
}

// factsAt are the facts an event of an outcome happens under.
func (c *Check) factsAt(pe posEvent, o Out) *Facts {
	f := pe.facts
	if pe.loop == 0 {
		f = o.st.facts
	}
	if g := saturate(f); g != nil {
		return g
	}
	return f
}

// requestUser is the user name of the request if the record id equals it.
func (c *Check) requestUser(f *Facts, uid, r *Term) *Term {
	for _, n := range []string{"(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue"} {
		t := mk("fn", strT, n, 0, r, Str("username"))
		if proveC(f, Eq(uid, t)) || proveC(f, Eq(t, uid)) {
			return t
		}
	}
	// another reading of the same field
	var hit *Term
	for _, x := range f.list() {
		for _, t := range subterms(x, func(t *Term) bool { return formValue(t, r, "username") }) {
			if hit == nil && (proveC(f, Eq(uid, t)) || proveC(f, Eq(t, uid))) {
				hit = t
			}
		}
	}
	return hit
}

// claimsOf finds the subject and expiry of the claims a token is made of.
func (c *Check) claimsOf(evs []posEvent, sign *Event) map[string]*Term {
	for i := len(evs) - 1; i >= 0; i-- {
		ev := evs[i].ev
		if !strings.Contains(ev.Name, "jwt.New") || len(ev.Args) < 2 {
			continue
		}
		if len(ev.Res) > 0 && len(sign.Args) > 0 && !mentionsT(sign.Args[0], ev.Res[0]) {
			continue
		}
		cl := ev.Args[1]
		if len(ev.Content) > 1 && ev.Content[1] != nil {
			cl = ev.Content[1]
		}
		out := map[string]*Term{}
		if cl.Op == "iface" {
			ty := derefType(cl.Ty)
			v := cl.Args[0]
			for k, f := range map[string]string{"sub": "Subject", "exp": "ExpiresAt"} {
				if p := fieldPath(ty, f); len(p) > 0 {
					t, y := v, ty
					for _, j := range p {
						s := structOf(y)
						t, y = Fld(t, j, s.Field(j).Type(), s.Field(j).Name()), s.Field(j).Type()
					}
					out[k] = t
				}
			}
			if len(out) == 0 {
				for v.Op == "mapset" {
					if k := v.Args[1]; k.Op == "str" && out[k.S] == nil {
						out[k.S] = unwrapArg(v.Args[2])
					}
					v = v.Args[0]
				}
			}
		}
		return out
	}
	return nil
}

// boundedExpiry recognises now + a constant of at most one hour, in seconds.
func boundedExpiry(t *Term) bool {
	if t == nil {
		return false
	}
	for t.Op == "wrap" {
		t = t.Args[0]
	}
	if t.Op == "tounix" {
		x := t.Args[0]
		if x.Op == "fn" && x.S == "(time.Time).Add" && x.Args[0].Op == "now" && x.Args[1].isInt() {
			d := x.Args[1].N
			return d > 0 && d <= 3600e9
		}
		return false
	}
	// now.Unix() + seconds
	var now *Term
	for _, s := range subterms(t, func(y *Term) bool { return y.Op == "tounix" && y.Args[0].Op == "now" }) {
		now = s
	}
	if now != nil {
		if d := Sub(t, now); d.isInt() {
			return d.N > 0 && d.N <= 3600
		}
	}
	return false
}

func isPermissionCheck(fn *ssa.Function) bool {
	if fn.Pkg == nil || relPkg(fn.Pkg.Pkg.Path()) != "serverlet" || fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	s := fn.Signature
	if s.Results().Len() == 0 || !isErrorType(s.Results().At(s.Results().Len()-1).Type()) {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		if sl, ok := s.Params().At(i).Type().Underlying().(*types.Slice); ok {
			if n, ok := sl.Elem().(*types.Named); ok && n.Obj().Name() == "permission" {
				return true
			}
		}
	}
	return false
}

func checkUserInfo(c *Check) {
	opaque := map[string]bool{}
	for _, fn := range c.p.Funcs {
		if !isPermissionCheck(fn) {
			continue
		}
		opaque[fnKey(fn)] = true
		opaque[fn.String()] = true
		e := c.engine()
		outs, ok := c.eval(e, fn, params(fn), newState())
		if !ok {
			continue
		}
		canFail := false
		for _, o := range outs {
			if okRet(o) && feasible(o) {
				if _, bad := splitRet(fn, o); bad != nil {
					canFail = true
				}
			}
		}
		c.ob(canFail, "the permission check can refuse", "serverlet permission check", fnPos(fn), "%s never returns an error: every token, even none, is granted every permission", fnKey(fn))
	}
	c.ob(len(opaque) > 0, "coverage", "a permission check exists", 0, "no function checks permissions")
	n, rej := 0, 0
	for _, h := range c.routes() {
		fn := h.fn
		e := c.engine()
		for k := range opaque {
			e.opaque[k] = true
		}
		args := params(fn)
		outs, ok := c.eval(e, fn, args, newState())
		if !ok {
			continue
		}
		name := h.pattern
		for _, o := range outs {
			if !feasible(o) || !okRet(o) {
				continue
			}
			evs := eventsOf(o)
			refused := false
			wrote := false
			for i, pe := range evs {
				ev := pe.ev
				f := c.factsAt(pe, o)
				if opaque[ev.Name] {
					if _, g := evErr(ev); g != nil && proveC(f, Not(g)) {
						refused = true
						rej++
					}
				}
				if strings.HasSuffix(ev.Name, ".WriteHeader") && refused {
					c.ob(wrote || proveC(f, Eq0(Sub(ev.Args[1], Int(401)))), "a refused token gets 401", name, ev.Instr.Pos(), "the status is %v", ev.Args[1])
					wrote = true
				}
				a := answer(ev, args[0])
				if a == nil {
					continue
				}
				recs := subterms(a, func(t *Term) bool { return t.Op == "inv" && userAttr(t) })
				if refused {
					c.ob(wrote, "a refused token gets 401", name, ev.Instr.Pos(), "an answer is sent without the status")
					c.ob(len(recs) == 0, "a refused token gets no data", name, ev.Instr.Pos(), "user data is sent after a refused permission check")
					wrote = true
					continue
				}
				if len(recs) == 0 {
					continue
				}
				n++
				why := "no permission was checked before"
				good := false
				for _, p := range evs[:i] {
					if !opaque[p.ev.Name] {
						continue
					}
					if why2 := c.permitted(e, p.ev, ev, f, args[1], recs); why2 == "" {
						good = true
					} else {
						why = why2
					}
				}
				c.ob(good, "data only after the permission check", name, ev.Instr.Pos(), "user data is sent although %s", why)
				for _, r := range recs {
					uid := mk("inv", strT, "UserID", 0, r.Args[0])
					c.ob(c.pathUser(f, uid, args[1]) != nil, "the data is that of the requested user", name, ev.Instr.Pos(), "the record %v is not proved to be that of the user in the path", clip(r.Args[0].String(), 200))
				}
				c.answerKeys(name, ev, a)
			}
			if refused {
				c.ob(wrote, "a refused token gets 401", name, fnPos(fn), "nothing is answered after a refused permission check")
			}
		}
	}
	c.ob(n > 0, "coverage", "a handler serves user data", 0, "no handler answers with user data")
	c.ob(rej > 0, "coverage", "a handler refuses", 0, "no handler handles a refused permission check")
}

// userAttr tells whether the term is an attribute of a user record.
func userAttr(t *Term) bool {
	r := t.Args[0]
	if r.Ty == nil {
		return false
	}
	n, ok := r.Ty.(*types.Named)
	if !ok {
		return false
	}
	return strings.Contains(n.Obj().Name(), "UserRecord")
}

// pathUser is the user named by the request path when uid is proved equal to it.
func (c *Check) pathUser(f *Facts, uid, r *Term) *Term {
	var hit *Term
	for _, x := range f.list() {
		for _, t := range subterms(x, func(t *Term) bool { return isPathUser(t, r) }) {
			if hit == nil && (proveC(f, Eq(uid, t)) || proveC(f, Eq(t, uid))) {
				hit = t
			}
		}
	}
	return hit
}

// isPathUser recognises segment 3 of the request path.
func isPathUser(t, r *Term) bool {
	return t.Op == "sel" && t.Args[1].isInt() && t.Args[1].N == 3 && t.Args[0].Op == "split" && mentionsT(t.Args[0], r) &&
		t.Args[0].Args[1].Op == "str" && t.Args[0].Args[1].S == "/" && len(subterms(t.Args[0], func(y *Term) bool { return y.Op == "fld" && y.S == "Path" })) > 0
}

// permitted explains why a permission check does not cover an answer ("" if it does).
func (c *Check) permitted(e *Engine, chk, ans *Event, f *Facts, r *Term, recs []*Term) string {
	_, good := evErr(chk)
	if good == nil || !proveC(evFacts(ans, f), good) {
		return "the permission check may have failed"
	}
	token, perm, user := false, false, false
	for i, a := range chk.Args {
		v := a
		if i < len(chk.Content) && chk.Content[i] != nil {
			v = chk.Content[i]
		}
		if isString(a.Ty) && !token {
			hdr := len(subterms(v, func(t *Term) bool { return t.Op == "str" && t.S == "Authorization" })) > 0
			if hdr && mentionsT(v, r) {
				token = true
			}
		}
		if len(subterms(v, func(t *Term) bool { return t.Op == "str" && t.S == "READ_USER_INFORMATION" })) > 0 {
			perm = true
		}
		for _, m := range subterms(v, func(t *Term) bool {
			return t.Op == "mapset" && t.Args[1].Op == "str" && t.Args[1].S == "user_id"
		}) {
			all := len(recs) > 0
			for _, x := range recs {
				uid := mk("inv", strT, "UserID", 0, x.Args[0])
				if !eqT(f, m.Args[2], uid) && !proveC(f, Eq(m.Args[2], uid)) {
					all = false
				}
			}
			if all {
				user = true
			}
		}
	}
	switch {
	case !token:
		return "the checked token is not the one presented in the Authorization header"
	case !perm:
		return "the permission READ_USER_INFORMATION was not asked for"
	case !user:
		return "the permission was not checked for the user whose data is sent"
	}
	return ""
}

var answerAttr = map[string]string{"user_id": "UserID", "nickname": "Nickname", "realname": "RealName", "number_of_login_days": "NumLoginDays",
	"number_of_posts": "NumPosts", "money": "Money", "last_login_time": "LastLogin", "last_login_ipv4": "LastHost", "last_login_ip": "LastHost"}

// answerKeys checks that each published key carries the attribute of its name.
func (c *Check) answerKeys(name string, ev *Event, a *Term) {
	for _, m := range subterms(a, func(t *Term) bool { return t.Op == "mapset" && t.Args[1].Op == "str" }) {
		want := answerAttr[m.Args[1].S]
		if want == "" {
			continue
		}
		got := subterms(m.Args[2], func(t *Term) bool { return t.Op == "inv" && userAttr(t) })
		ok := len(got) == 1 && got[0].S == want
		c.ob(ok, "each key carries its attribute", name+": "+m.Args[1].S, ev.Instr.Pos(), "%q is %v", m.Args[1].S, clip(m.Args[2].String(), 200))
	}
}
