package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C43: the parts of a comment are the ones in its line. The patterns in the
// source are decided as automata over every line of the form; what the code
// makes of their groups is followed as spans of the line.

// commentForm is a comment line: a mark without a colon, the user id, a
// colon, the text, the date. Group k of it begins at place 2k and ends at 2k+1.
const commentForm = `^(?:[^:\n]*[^A-Za-z0-9:\n])?([a-zA-Z][a-zA-Z0-9]+)(:)([^\n]*)([0-9][0-9]/[0-9][0-9] [0-9][0-9]:[0-9][0-9])[ \t\r]*$`

// anyComment finds something in every text that has an id, a colon and a date.
const anyComment = `[a-zA-Z][a-zA-Z0-9]+:.*[0-9][0-9]/[0-9][0-9]\s[0-9][0-9]:[0-9][0-9]`

// sgrForm is a text with a colour code in it.
const sgrForm = "^[^\x1b\u009b]*(\x1b\\[[0-9]{0,4}(?:;[0-9]{0,4})*m)[^\x07]*$"

// A span of the line, between two places. Positions are linear terms over
// the places of the form.
type span struct {
	from, to *Term
	trimmed  bool
}

func place(k int) *Term { return param(fmt.Sprintf("place%d", k), types.Typ[types.Int]) }

// placeOf picks one place of those a capture is always at; places that are
// the same everywhere are written the same way.
func placeOf(mask uint32) *Term {
	for _, k := range []int{0, 2, 8, 9, 4, 6, 1} {
		if mask&(1<<k) != 0 {
			return samePlace(k)
		}
	}
	return nil
}

// samePlace: the id ends where the colon begins, one byte before the text; the
// date is 11 bytes long and follows the text.
func samePlace(k int) *Term {
	switch k {
	case 3, 4:
		return Sub(place(5), Int(1))
	case 5, 6:
		return place(5)
	case 7, 8:
		return Sub(place(9), Int(11))
	}
	return place(k)
}

type lineSpans struct {
	line *Term
	caps []uint32
	f    *Facts
}

// group is group i of the match.
func (l *lineSpans) group(i int64) *span {
	if int(2*i+1) >= len(l.caps) {
		return nil
	}
	a, b := placeOf(l.caps[2*i]), placeOf(l.caps[2*i+1])
	if a == nil || b == nil {
		return nil
	}
	return &span{from: a, to: b}
}

// num rewrites a length or offset in terms of the places.
func (l *lineSpans) num(t *Term) *Term {
	m := map[*Term]*Term{}
	for x := range subTerms(t) {
		if x.Op == "len" || x.Op == "seqlen" {
			if s := l.of(x.Args[0]); s != nil && !s.trimmed {
				m[x] = Sub(s.to, s.from)
			}
		}
	}
	return subst(stripWraps(t), m)
}

func stripWraps(t *Term) *Term {
	if t.Op == "wrap" {
		return stripWraps(t.Args[0])
	}
	return t
}

// of follows a string back to the line.
func (l *lineSpans) of(t *Term) *span {
	switch {
	case t == l.line:
		return &span{from: place(0), to: place(1)}
	case t.Op == "sel" && t.Args[1].isInt():
		c := t.Args[0]
		if c.Op == "content" {
			c = c.Args[0]
		}
		if c.Op == "match" && c.Args[1] == l.line {
			return l.group(t.Args[1].N)
		}
	case t.Op == "trim" && t.S == "space":
		if s := l.of(t.Args[0]); s != nil {
			return &span{s.from, s.to, true}
		}
	case t.Op == "sub":
		s := l.of(t.Args[0])
		if s == nil || s.trimmed {
			return nil
		}
		from := Add(s.from, l.num(t.Args[1]))
		return &span{from: from, to: Add(from, l.num(t.Args[2]))}
	case t.Op == "trimprefix" || t.Op == "fn" && (t.S == "strings.TrimPrefix" || t.S == "strings.TrimSuffix"):
		pre := t.Op == "trimprefix" || t.S == "strings.TrimPrefix"
		s, q := l.of(t.Args[0]), l.of(t.Args[1])
		if q == nil && pre && t.Args[1].Op == "cat" && len(t.Args[1].Args) == 2 && t.Args[1].Args[1] == Str(":") {
			// the id and the colon after it
			if q = l.of(t.Args[1].Args[0]); q != nil && q.to == samePlace(4) && !q.trimmed {
				q = &span{from: q.from, to: place(5)}
			} else {
				return nil
			}
		}
		if s == nil || q == nil || s.trimmed || q.trimmed {
			return nil
		}
		if pre && s.from == q.from {
			return &span{from: q.to, to: s.to}
		}
		if !pre && s.to == q.to {
			return &span{from: s.from, to: q.from}
		}
	case t.Op == "ite":
		a, b := l.of(t.Args[1]), l.of(t.Args[2])
		if a != nil && b != nil && *a == *b {
			return a
		}
	}
	return nil
}

func checkCommentText(c *Check) {
	newRec, filter := c.need("", "NewUserCommentRecord"), c.need("", "FilterStringANSI")
	if newRec == nil || filter == nil {
		return
	}
	c.colourFilter(filter)
	key, pos := fnKey(newRec), fnPos(newRec)
	e := c.engine()
	args, st := params(newRec), newState()
	line := args[1]
	if it, ok := under(args[3].Ty).(*types.Interface); ok && it != nil {
		st.facts = st.facts.add(Not(Eq(args[3], Nil)))
	}
	outs, ok := c.eval(e, newRec, args, st)
	if !ok {
		return
	}
	// the pattern: the one whose match decides
	form, ref := compileRe(commentForm), compileRe(anyComment)
	var pats = map[*Term]*lineSpans{}
	pattern := func(f *Facts, more ...*Term) (m *Term, l *lineSpans) {
		var ts []*Term
		for q := f; q != nil; q = q.parent {
			ts = append(ts, q.cond)
		}
		ts = append(ts, more...)
		for _, t := range ts {
			for _, x := range subterms(t, func(x *Term) bool { return x.Op == "match" && x.Args[1] == line }) {
				if m != nil && m != x {
					c.ob(false, "one pattern tells comments", key, pos, "undecided: more than one pattern is matched")
					return nil, nil
				}
				m = x
			}
		}
		if m == nil {
			return nil, nil
		}
		if l = pats[m]; l != nil {
			return m, l
		}
		l = &lineSpans{line: line, f: f}
		pats[m] = l
		if !c.ob(m.Args[0].Op == "regexp" && m.Args[0].Args[0].Op == "str", "the pattern is a constant", key, pos, "the pattern is %v", clip(m.Args[0].String(), 120)) {
			return m, l
		}
		p := compileRe(m.Args[0].Args[0].S)
		if !c.ob(p.err == nil, "the pattern is a constant", key, pos, "%v", p.err) {
			return m, l
		}
		caps, un, n, ok := tagMatch(form, p)
		c.paths += n
		c.ob(ok && un == nil && caps != nil, "every comment line matches", key, pos, "the pattern does not find the comment in %q", textOf(un))
		if un == nil && ok {
			l.caps = caps
		}
		ce, states, ok := reSubset(p, ref)
		c.paths += states
		c.ob(ok && ce == "", "a line without id, colon and date is no comment", key, pos, "the pattern finds a comment in %q", ce)
		return m, l
	}
	n := 0
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "a comment line makes a comment", key, pos, "panics") {
			continue
		}
		c.byError(newRec, o, func(f *Facts, failed bool) {
			m, l := pattern(f, o.ret[0], o.ret[1])
			if !c.ob(l != nil, "one pattern tells comments", key, pos, "undecided: no pattern is matched with the line") {
				return
			}
			// the line has the form: the groups are not empty
			g := feasibleWith(f, Not(isNilT(m)))
			h := feasibleWith(f, isNilT(m))
			if !failed {
				if !c.ob(h == nil, "a line without id, colon and date is no comment", key, pos, "success although the pattern found nothing") {
					return
				}
				n++
				c.commentParts(e, o, f, newRec, l, args)
				return
			}
			if h != nil {
				err := simp(o.ret[1], h)
				good := err.Op == "errglob" && strings.HasSuffix(err.S, ".ErrNotUserComment") || wrapsErr(err, ".ErrNotUserComment")
				c.ob(good, "a line that is no comment is told apart", key, pos, "the error for a line the pattern does not find is %v", clip(err.String(), 120))
			}
			if g != nil && l.caps != nil {
				for i := int64(0); int(2*i+1) < len(l.caps); i++ {
					s := l.group(i)
					if s == nil || s.from == s.to {
						continue
					}
					x := mk("sel", types.Typ[types.String], "", 0, Content(m), Int(i))
					if i == 3 {
						continue
					}
					if g = feasibleWith(g, Ge0(Sub(SeqLen(x), Int(1)))); g == nil {
						break
					}
				}
				for q := g; q != nil && g != nil; q = q.parent {
					for _, t := range subterms(q.cond, func(t *Term) bool { return isErrorType(t.Ty) && t.Op == "fn" && strings.HasPrefix(t.S, "time.Parse") }) {
						if g = feasibleWith(g, isNilT(t)); g == nil {
							break
						}
					}
				}
				c.ob(g == nil, "a comment line makes a comment", key, pos, "an error although the line is a comment with a valid date: %v", clip(simp(o.ret[1], nf(g)).String(), 120))
			}
		})
	}
	c.ob(n > 0, "a comment line makes a comment", key, pos, "no outcome makes a comment")
}

func textOf(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

// wrapsErr: an error made with %w of the global.
func wrapsErr(t *Term, name string) bool {
	return t.Op == "errorf" && len(t.Args) > 1 && t.Args[1].Op == "errglob" && strings.HasSuffix(t.Args[1].S, name)
}

// commentParts: what the accessors of a new record report.
func (c *Check) commentParts(e *Engine, o Out, f *Facts, fn *ssa.Function, l *lineSpans, args []*Term) {
	v := simp(o.ret[0], f)
	if !c.ob(v.Op == "iface" && l.caps != nil, "the parts are those of the line", fnKey(fn), fnPos(fn), "undecided: the record is %v", clip(v.String(), 120)) {
		return
	}
	report := func(name string) (*Term, token.Pos) {
		nt := v.Ty
		if p, ok := nt.(*types.Pointer); ok {
			nt = p.Elem()
		}
		n, ok := nt.(*types.Named)
		if !ok {
			return nil, 0
		}
		m := c.p.SSA.LookupMethod(v.Ty, n.Obj().Pkg(), name)
		if m == nil {
			return nil, 0
		}
		st := o.st.clone()
		st.facts = f
		outs, ok := c.eval(e, m, []*Term{v.Args[0]}, st)
		if !ok {
			return nil, fnPos(m)
		}
		var r *Term
		for _, q := range outs {
			if !feasible(q) {
				continue
			}
			if !okRet(q) {
				return nil, fnPos(m)
			}
			x := simp(q.ret[0], nf(guarded(nf(q.st.facts), q)))
			if r != nil && r != x {
				return nil, fnPos(m)
			}
			r = x
		}
		return r, fnPos(m)
	}
	spanAt := func(name string, from, to *Term, trimmed bool, what string) {
		x, pos := report(name)
		var s *span
		if x != nil {
			s = l.of(x)
		}
		c.ob(s != nil && s.from == from && s.to == to && s.trimmed == trimmed, what, "comment "+name, pos, "%s reports %v", name, clip(fmt.Sprint(x), 300))
	}
	spanAt("Owner", place(2), samePlace(4), false, "the author is the id of the line")
	spanAt("Comment", place(5), samePlace(8), true, "the text is all between colon and date")
	x, pos := report("CommentTime")
	good := false
	if x != nil && x.Op == "fn" && strings.HasPrefix(x.S, "time.Parse") && len(x.Args) >= 2 {
		s := l.of(x.Args[1])
		good = x.Args[0] == Str("01/02 15:04") && s != nil && s.from == samePlace(8) && s.to == place(9)
	}
	c.ob(good, "the time is the date of the line", "comment CommentTime", pos, "CommentTime reports %v", clip(fmt.Sprint(x), 300))
	for _, w := range []struct {
		name string
		want *Term
	}{{"CommentOrder", args[0]}, {"BoardID", args[2]}} {
		x, pos := report(w.name)
		c.ob(x != nil && eqT(f, x, w.want), "the record is of the comment given", "comment "+w.name, pos, "%s reports %v", w.name, clip(fmt.Sprint(x), 200))
	}
	x, pos = report("Filename")
	good = x != nil && x.Op == "inv" && x.S == "Filename" && x.Args[0] == args[3]
	if x != nil && x.Op == "res" {
		for _, ev := range outEvents(o) {
			if methodOf(ev) == "Filename" && ev.Args[0] == args[3] && len(ev.Res) > 0 && ev.Res[0] == x {
				good = true
			}
		}
	}
	c.ob(good, "the record is of the comment given", "comment Filename", pos, "Filename reports %v", clip(fmt.Sprint(x), 200))
}

// colourFilter: exactly the colour codes are taken out.
func (c *Check) colourFilter(fn *ssa.Function) {
	key, pos, n := fnKey(fn), fnPos(fn), 0
	e := c.engine()
	args := params(fn)
	outs, ok := c.eval(e, fn, args, newState())
	if !ok {
		return
	}
	done := map[string]bool{}
	for _, o := range outs {
		if !feasible(o) || !c.ob(okRet(o), "colour codes are taken out", key, pos, "panics") {
			continue
		}
		f := nf(guarded(nf(o.st.facts), o))
		c.cases(f, o.ret[0], func(f *Facts, v *Term) {
			n++
			if v == args[0] {
				// unchanged where there is no code
				esc := feasibleWith(f, HasByte(args[0], 0x1b))
				c.ob(esc == nil, "colour codes are taken out", key, pos, "a text with an escape byte is returned as it is")
				return
			}
			repl := v.Op == "fn" && (v.S == "(*regexp.Regexp).ReplaceAllString" || v.S == "(*regexp.Regexp).ReplaceAllLiteralString")
			if !c.ob(repl && v.Args[1] == args[0] && v.Args[2] == Str("") && v.Args[0].Op == "regexp" && v.Args[0].Args[0].Op == "str", "colour codes are taken out", key, pos, "undecided: the result is %v", clip(v.String(), 200)) {
				return
			}
			re := v.Args[0].Args[0].S
			if done[re] {
				return
			}
			done[re] = true
			p := compileRe(re)
			if !c.ob(p.err == nil && !p.lookaround(), "colour codes are taken out", key, pos, "undecided: the pattern looks around itself") {
				return
			}
			caps, un, k, ok := tagMatch(compileRe(sgrForm), p)
			c.paths += k
			if c.ob(ok && un == nil, "colour codes are taken out", key, pos, "nothing is taken out of %q", textOf(un)) {
				c.ob(caps[0]&(1<<2) != 0 && caps[1]&(1<<3) != 0, "colour codes are taken out", key, pos, "what is taken out of a text is not always its first colour code")
			}
			ce, k, ok := reSubset(p, compileRe("[\x1b\u009b]"))
			c.paths += k
			c.ob(ok && ce == "", "text without an escape is kept", key, pos, "something is taken out of %q", ce)
		})
	}
	c.ob(n > 0, "colour codes are taken out", key, pos, "no outcome")
}

func init() {
	checks["C43"] = checkDef{run: checkCommentText, min: 15, rule: "the constant patterns of the comment parser and the colour filter, as automata, over every line of the form (product of the pattern's prioritised threads with the form; language inclusion for lines without the form); the record's accessors as spans of the line between the places the groups are always at"}
}
