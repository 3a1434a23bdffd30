package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An attr is one line of a record layout: where an attribute lives and how it
// is stored. acc is the exported accessor, fld the exported field; with
// neither, any attribute of the record may hold it.
type attr struct {
	name string
	kind string // u8 u16 u32 i8 i16 i32 money bool time id txt big5 one rtrim5
	off  int
	w    int
	acc  string
	fld  string
	when string // "", "vote", "anon", "plain": file mode the entry applies to
}

type codec struct {
	pkg, typ string
	size     int
	dec, enc string
	encM     bool
	errIdx   bool // the decoder also returns an error
	attrs    []attr
	modeOff  int // offset of the file mode byte, -1 none
	modeFld  string
	assume   []string // slice fields of length 2 for the encoder
}

func u(name, kind string, off int, acc, fld string) attr {
	w := map[string]int{"u8": 1, "i8": 1, "bool": 1, "one": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "money": 4, "time": 4}[kind]
	return attr{name: name, kind: kind, off: off, w: w, acc: acc, fld: fld}
}
func s(name, kind string, off, w int, acc, fld string) attr {
	return attr{name: name, kind: kind, off: off, w: w, acc: acc, fld: fld}
}
func (a attr) on(m string) attr { a.when = m; return a }

// boardCodec: boardheader_t of pttstruct.h.
func boardCodec() *codec {
	return &codec{pkg: "pttbbs", typ: "BoardHeader", size: 256, dec: "UnmarshalBoardHeader", enc: "MarshalBinary", errIdx: true, modeOff: -1,
		assume: []string{"Next", "FirstChild"},
		attrs: []attr{
			s("board id", "id", 0, 13, "BoardID", "BrdName"),
			s("title", "big5", 13, 49, "Title", ""),
			s("moderators", "txt", 62, 39, "", ""),
			u("flags", "u32", 104, "", "Brdattr"),
			u("chess country", "one", 108, "", "ChessCountry"),
			u("vote limit posts", "u8", 109, "", "VoteLimitPosts"),
			u("vote limit logins", "u8", 110, "", "VoteLimitLogins"),
			u("update time", "time", 112, "", "BUpdate"),
			u("post limit posts", "u8", 116, "GetPostLimitPosts", "PostLimitPosts"),
			u("post limit logins", "u8", 117, "GetPostLimitLogins", "PostLimitLogins"),
			u("votes", "u8", 119, "", "BVote"),
			u("vote time", "time", 120, "", "VTime"),
			u("level", "u32", 124, "", "Level"),
			u("permission reload time", "time", 128, "", "PermReload"),
			u("class id", "i32", 132, "", "Gid"),
			u("next[0]", "i32", 136, "", "Next[0]"),
			u("next[1]", "i32", 140, "", "Next[1]"),
			u("first child[0]", "i32", 144, "", "FirstChild[0]"),
			u("first child[1]", "i32", 148, "", "FirstChild[1]"),
			u("parent", "i32", 152, "", "Parent"),
			u("child count", "i32", 156, "", "ChildCount"),
			u("online users", "i32", 160, "", "Nuser"),
			u("post expire", "i32", 164, "", "PostExpire"),
			u("end of gamble", "time", 168, "", "EndGamble"),
			s("post types", "rtrim5", 172, 33, "", "PostType"),
			u("post type flags", "one", 205, "", "PostTypeF"),
			u("fast recommend pause", "u8", 206, "", "FastRecommendPause"),
			u("vote limit bad posts", "u8", 207, "", "VoteLimitBadPost"),
			u("post limit bad posts", "u8", 208, "GetPostLimitBadPost", "PostLimitBadPost"),
			u("SR expire", "time", 212, "", "SRexpire"),
		}}
}

// dirCodec: fileheader_t of pttstruct.h.
func dirCodec() *codec {
	return &codec{pkg: "pttbbs", typ: "FileHeader", size: 128, dec: "NewFileHeaderWithByte", enc: "MarshalToByte", errIdx: true, modeOff: 124, modeFld: "Filemode",
		attrs: []attr{
			s("file name", "id", 0, 28, "Filename", ""),
			u("modification time", "time", 28, "Modified", ""),
			u("recommendations", "i8", 33, "Recommend", ""),
			s("owner", "id", 34, 14, "Owner", ""),
			s("date", "id", 48, 6, "Date", ""),
			s("title", "big5", 54, 65, "Title", ""),
			u("money", "money", 120, "Money", "").on("plain"),
			u("anonymous uid", "money", 120, "", "AnnoUID").on("anon"),
			u("vote limit posts", "u8", 120, "", "Posts").on("vote"),
			u("vote limit logins", "u8", 121, "", "Logins").on("vote"),
			u("vote limit registration", "u8", 122, "", "Regtime").on("vote"),
			u("vote limit bad posts", "u8", 123, "", "Badpost").on("vote"),
			u("marks", "u8", 124, "", "Filemode"),
		}}
}

// passwdCodec: userec_t of pttstruct.h.
func passwdCodec() *codec {
	return &codec{pkg: "pttbbs", typ: "Userec", size: 512, dec: "UnmarshalUserec", enc: "MarshalBinary", errIdx: true, modeOff: -1,
		attrs: []attr{
			u("version", "u32", 0, "", "Version"),
			s("user id", "id", 4, 13, "UserID", ""),
			s("real name", "big5", 17, 20, "RealName", ""),
			s("nickname", "big5", 37, 24, "Nickname", ""),
			s("password hash", "id", 61, 14, "HashedPassword", ""),
			u("settings", "u32", 76, "UserFlag", ""),
			u("level", "u32", 84, "", "UserLevel"),
			u("login days", "u32", 88, "NumLoginDays", ""),
			u("posts", "u32", 92, "NumPosts", ""),
			u("first login", "time", 96, "", ""),
			u("last login", "time", 100, "LastLogin", ""),
			s("last host", "id", 104, 16, "LastHost", ""),
			u("money", "i32", 120, "Money", ""),
			s("email", "big5", 128, 50, "", "Email"),
			s("address", "big5", 178, 50, "", "Address"),
			s("registration data", "big5", 228, 39, "", "Justify"),
			u("over 18", "bool", 270, "", "Over18"),
			u("pager ui type", "u8", 271, "", "PagerUIType"),
			u("pager", "u8", 272, "", "Pager"),
			u("invisible", "bool", 273, "", "Invisible"),
			u("extra mail boxes", "u32", 276, "", "ExMailBox"),
			s("career", "big5", 284, 40, "", "Career"),
			u("role", "u32", 392, "", "Role"),
			u("last seen", "time", 396, "", "LastSeen"),
			u("angel set time", "time", 400, "", "TimeSetAngel"),
			u("angel play time", "time", 404, "", "TimePlayAngel"),
			u("last song", "time", 408, "", "LastSong"),
			u("login view", "u32", 412, "", "LoginView"),
			u("law violations", "u16", 418, "", "ViolateLaw"),
			u("five win", "u16", 420, "", "Five.Win"),
			u("five lose", "u16", 422, "", "Five.Lose"),
			u("five tie", "u16", 424, "", "Five.Tie"),
			u("chinese chess win", "u16", 426, "", "ChineseChess.Win"),
			u("chinese chess lose", "u16", 428, "", "ChineseChess.Lose"),
			u("chinese chess tie", "u16", 430, "", "ChineseChess.Tie"),
			u("connect6 win", "u16", 432, "", "Conn6.Win"),
			u("connect6 lose", "u16", 434, "", "Conn6.Lose"),
			u("connect6 tie", "u16", 436, "", "Conn6.Tie"),
			u("go win", "u16", 440, "", "GoChess.Win"),
			u("go lose", "u16", 442, "", "GoChess.Lose"),
			u("go tie", "u16", 444, "", "GoChess.Tie"),
			u("dark chess win", "u16", 446, "", "DarkChess.Win"),
			u("dark chess lose", "u16", 448, "", "DarkChess.Lose"),
			u("user agreement version", "u8", 450, "", "UaVersion"),
			u("signature", "u8", 451, "", "Signature"),
			u("bad posts", "u8", 453, "", "BadPost"),
			u("dark chess tie", "u16", 454, "", "DarkChess.Tie"),
			s("angel", "id", 456, 14, "", "MyAngel"),
			u("chess rating", "u16", 470, "", "ChessEloRating"),
			u("with me", "u32", 472, "", "WithMe"),
			u("bad post removal time", "time", 476, "", "TimeRemoveBadPost"),
			u("law violation time", "time", 480, "", "TimeViolateLaw"),
		}}
}

// userinfoCodec: userinfo_t of pttstruct.h.
func userinfoCodec() *codec {
	c := &codec{pkg: "pttbbs", typ: "UserInfoCache", size: 3484, dec: "UnmarshalUserInfo", enc: "MarshalBinary", modeOff: -1}
	a := []attr{
		u("uid", "i32", 0, "", ""), u("pid", "i32", 4, "", ""), u("socket address", "i32", 8, "", "SockAddr"),
		u("level", "u32", 12, "", "UserLevel"), s("user id", "id", 16, 13, "", ""), s("nickname", "big5", 29, 24, "", ""),
		s("from", "id", 53, 27, "", ""), u("from ip", "u32", 80, "", ""),
		u("dark chess win", "u16", 84, "", "DarkChess.Win"), u("dark chess lose", "u16", 86, "", "DarkChess.Lose"),
		u("angel pause", "u8", 89, "", "AngelPause"), u("dark chess tie", "u16", 90, "", "DarkChess.Tie"),
		u("friend total", "i32", 92, "", "FriendTotal"), u("number of friends", "i16", 96, "", "NumFriends"),
	}
	for i := 0; i < 256; i++ {
		a = append(a, u(fmt.Sprintf("friend %d", i), "i32", 100+4*i, "", fmt.Sprintf("MyFriend[%d]", i)))
	}
	for i := 0; i < 256; i++ {
		a = append(a, u(fmt.Sprintf("online friend %d", i), "u32", 1128+4*i, "", fmt.Sprintf("FriendOnline[%d]", i)))
	}
	for i := 0; i < 32; i++ {
		a = append(a, u(fmt.Sprintf("reject %d", i), "i32", 2156+4*i, "", fmt.Sprintf("Reject[%d]", i)))
	}
	a = append(a, u("message count", "u8", 2288, "", "MsgCount"))
	for i := 0; i < 10; i++ {
		a = append(a, s(fmt.Sprintf("message %d", i), "bytes", 2292+100*i, 100, "", fmt.Sprintf("Msgs[%d]", i)))
	}
	a = append(a,
		u("birthday", "bool", 3392, "", "Birth"), u("active", "bool", 3393, "", "Active"), u("invisible", "bool", 3394, "", "Invisible"),
		u("mode", "u8", 3395, "", "Mode"), u("pager", "bool", 3396, "", "Pager"),
		u("connect6 win", "u16", 3398, "", "Conn6.Win"), u("last action", "time", 3400, "", "LastAct"), u("alerts", "u8", 3404, "", "Alerts"),
		u("connect6 lose", "u16", 3406, "", "Conn6.Lose"), u("signature", "u8", 3409, "", "Signature"), u("connect6 tie", "u16", 3410, "", "Conn6.Tie"),
		u("destination uid", "i32", 3412, "", "DestUID"), u("destination uip", "i32", 3416, "", "DestUIP"), u("socket active", "u8", 3420, "", "SockActive"),
		u("in chat", "u8", 3421, "", "InChat"), s("chat id", "id", 3422, 11, "", "ChatID"), u("lock mode", "u8", 3433, "", "LockMode"),
		u("turn", "bool", 3434, "", "Turn"), s("mate id", "id", 3435, 13, "", "MateID"), u("color", "u8", 3448, "", "Color"),
		u("five win", "u16", 3450, "", "Five.Win"), u("five lose", "u16", 3452, "", "Five.Lose"), u("five tie", "u16", 3454, "", "Five.Tie"),
		u("chinese chess win", "u16", 3456, "", "ChineseChess.Win"), u("chinese chess lose", "u16", 3458, "", "ChineseChess.Lose"), u("chinese chess tie", "u16", 3460, "", "ChineseChess.Tie"),
		u("chess rating", "u16", 3462, "", "ChessEloRating"),
		u("go win", "u16", 3464, "", "GoChess.Win"), u("go lose", "u16", 3466, "", "GoChess.Lose"), u("go tie", "u16", 3468, "", "GoChess.Tie"),
		u("with me", "u32", 3472, "", "WithMe"), u("brc id", "u32", 3476, "", ""), u("water ball time", "time", 3480, "", ""),
	)
	c.attrs = a
	return c
}

// formosaCodec: the FormosaBBS article header.
func formosaCodec() *codec {
	return &codec{pkg: "formosabbs", typ: "FileHeader", size: 248, dec: "NewFomosaBBSFileHeaderWithByte", errIdx: true, modeOff: -1,
		attrs: []attr{
			s("file name", "id", 0, 44, "", "Filename"),
			u("post number", "i32", 72, "", "Postno"),
			s("owner", "id", 80, 72, "", "Owner"),
			u("modification time", "time", 152, "", "Modified"),
			s("title", "big5", 160, 67, "", "Title"),
		}}
}

// expected decoded values of an attribute (several accepted forms)
func decodeSpec(a attr, d *Term, ty types.Type) []*Term {
	raw := leRead(d, a.off, a.w)
	switch a.kind {
	case "u8", "u16", "u32", "money":
		return []*Term{raw}
	case "i8":
		return []*Term{Wrap(types.Typ[types.Int8], raw)}
	case "i16":
		return []*Term{Wrap(types.Typ[types.Int16], raw)}
	case "i32":
		return []*Term{Wrap(types.Typ[types.Int32], raw)}
	case "bool":
		return []*Term{Not(Eq0(raw))}
	case "time":
		return []*Term{mk("tunix", ty, "", 0, raw, Int(0))}
	}
	sub := SubSeq(d, Int(int64(a.off)), Int(int64(a.w)))
	switch a.kind {
	case "id":
		return []*Term{Cstr(sub), dec5(Cstr(sub))}
	case "txt":
		return []*Term{Cstr(sub), dec5(Cstr(sub))}
	case "one":
		return []*Term{Cstr(sub), dec5(Cstr(sub))}
	case "big5":
		return []*Term{dec5(Cstr(sub))}
	case "rtrim5":
		return []*Term{dec5(trimOp("trimr", sub, Str("\x00")))}
	case "bytes":
		return []*Term{sub}
	}
	panic("kind " + a.kind)
}

func dec5(x *Term) *Term { return mk("dec5", types.Typ[types.String], "", 0, x) }
func enc5(x *Term) *Term { return mk("enc5", types.Typ[types.String], "", 0, x) }

// encodeSpec gives the accepted values of byte j of the stored attribute.
func encodeSpec(a attr, v *Term, j int) []*Term {
	txt := func(s *Term) *Term {
		return Ite(Ge0(Sub(SeqLen(s), Int(int64(j+1)))), At(s, Int(int64(j))), Int(0))
	}
	switch a.kind {
	case "u8", "u16", "u32", "i8", "i16", "i32", "money":
		return []*Term{ByteOf(v, j)}
	case "bool":
		return []*Term{Ite(v, Int(1), Int(0))}
	case "time":
		un := mk("tounix", types.Typ[types.Int64], "", 0, v)
		iz := mk("tiszero", types.Typ[types.Bool], "", 0, v)
		return []*Term{Ite(iz, Int(0), ByteOf(un, j))}
	case "id", "one":
		return []*Term{txt(v), txt(enc5(v))}
	case "txt":
		return []*Term{txt(v), txt(enc5(v))}
	case "big5", "rtrim5":
		return []*Term{txt(enc5(v))}
	case "bytes":
		return []*Term{txt(v)}
	}
	panic("kind " + a.kind)
}

func modeFact(f *Facts, mode *Term, when string) *Facts {
	vote := Eq0(And(mode, Int(0x40)))
	anon := Eq0(And(mode, Int(0x80)))
	switch when {
	case "vote":
		return f.add(Not(vote))
	case "anon":
		return f.add(vote).add(Not(anon))
	case "plain":
		return f.add(vote).add(anon)
	}
	return f
}

// checkCodec decides that decoder and encoder agree with the layout.
func (c *Check) checkCodec(k *codec) {
	dec := c.need(k.pkg, k.dec)
	ty := c.p.Type(k.pkg, k.typ)
	if ty == nil {
		c.ob(false, "anchor", k.pkg+"."+k.typ, token.NoPos, "the record type is missing")
		return
	}
	found := map[string]string{} // attribute without a name -> path of the field that holds it
	form := map[string]int{}     // text form used by the decoder
	if dec != nil {
		c.checkDecoder(k, dec, ty, found, form)
	}
	if k.enc != "" {
		if enc := c.needM(k.pkg, k.typ, k.enc); enc != nil {
			c.checkEncoder(k, enc, ty, found, form)
		}
	}
	c.checkSetters(k, ty)
}

func (c *Check) checkDecoder(k *codec, dec *ssa.Function, ty types.Type, found map[string]string, form map[string]int) {
	e := c.engine()
	st := newState()
	args := params(dec)
	d := e.readSlice(st, args[0], types.Typ[types.Uint8])
	st.facts = st.facts.add(Ge0(Sub(e.sliceLen(args[0]), Int(int64(k.size)))))
	outs, ok := c.eval(e, dec, args, st)
	if !ok {
		return
	}
	name := k.typ + "." + k.dec
	n := 0
	for _, o := range outs {
		if !feasible(o) {
			continue
		}
		if !c.ob(okRet(o), "decoder returns", name, fnPos(dec), "a record of %d bytes makes the decoder panic", k.size) {
			continue
		}
		if k.errIdx {
			er := simp(o.ret[len(o.ret)-1], o.st.facts)
			if !c.ob(er == Nil, "decoder accepts every full record", name, fnPos(dec), "a full record yields the error %v", er) {
				continue
			}
		}
		n++
		r := simp(o.ret[0], o.st.facts)
		if r.Op != "ref" {
			c.ob(false, "decoder returns a record", name, fnPos(dec), "result %v", r)
			continue
		}
		v := e.load(o.st, r, ty)
		ls := e.leaves(o.st, v, ty, "", nil, true)
		mode := Int(0)
		if k.modeOff >= 0 {
			mode = At(d, Int(int64(k.modeOff)))
		}
		for _, a := range k.attrs {
			f := modeFact(o.st.facts, mode, a.when)
			rule := "decoded from its place"
			what := fmt.Sprintf("%s %s", k.typ, a.name)
			var cands []leaf
			if a.acc != "" {
				if m := c.p.Method(k.pkg, k.typ, a.acc); m != nil {
					vo, ok := c.eval(e, m, []*Term{r}, o.st.clone())
					if !ok {
						continue
					}
					for _, x := range vo {
						if feasible(x) && c.ob(okRet(x), "accessor returns", what, fnPos(m), "accessor %s panics", a.acc) {
							cands = append(cands, leaf{a.acc + "()", x.ret[0], m.Signature.Results().At(0).Type()})
						}
					}
					for _, x := range cands {
						c.ob(c.matchDecode(e, o.st, f, a, d, x, form), rule, what, fnPos(m), "%s is %v, the format has %v", x.path, simp(x.val, f), decodeSpec(a, d, x.ty)[0])
					}
				} else {
					c.ob(false, "anchor", what, fnPos(dec), "accessor %s is missing", a.acc)
				}
			}
			if a.fld != "" {
				x := leafByName(ls, a.fld)
				if c.ob(x != nil, "anchor", what, fnPos(dec), "attribute %s is missing or has no fixed size in the decoded record", a.fld) {
					c.ob(c.matchDecode(e, o.st, f, a, d, *x, form), rule, what, fnPos(dec), "%s is %v, the format has %v", x.path, simp(x.val, f), decodeSpec(a, d, x.ty)[0])
				}
			}
			if a.acc == "" && a.fld == "" {
				hit := ""
				for _, x := range ls {
					if !kindFits(a.kind, x.ty) || !strings.HasPrefix(x.path, ".") || token.IsExported(x.path[1:]) {
						continue
					}
					if c.matchDecode(e, o.st, f, a, d, x, form) {
						hit = x.path
						break
					}
				}
				c.ob(hit != "", rule, what, fnPos(dec), "no attribute of the decoded record holds %v", decodeSpec(a, d, nil)[0])
				if hit != "" {
					found[a.name] = hit
				}
			}
		}
	}
	c.ob(n > 0, "decoder yields a record", name, fnPos(dec), "no path returns a record")
	for _, o := range e.obls {
		if !o.Ok {
			c.ob(false, "decoder stays inside the record", name+" "+fnKey(o.Fn)+" "+o.Kind, o.Instr.Pos(), "%s", o.Detail)
		}
	}
}

func kindFits(kind string, ty types.Type) bool {
	switch kind {
	case "bool":
		return isBool(ty)
	case "time":
		return namedPkg(ty) == "time"
	case "id", "txt", "big5", "one", "rtrim5":
		return isString(ty)
	case "bytes":
		return true
	}
	return isIntType(ty)
}

func (c *Check) matchDecode(e *Engine, st *State, f *Facts, a attr, d *Term, x leaf, form map[string]int) bool {
	if !kindFits(a.kind, x.ty) {
		return false
	}
	v := x.val
	if sl, ok := under(x.ty).(*types.Slice); ok && isByte(sl.Elem()) {
		v = e.readSlice(st, v, sl.Elem())
	}
	for i, w := range decodeSpec(a, d, x.ty) {
		if eqT(f, v, w) {
			form[a.name] = i
			return true
		}
	}
	return false
}

func (c *Check) checkEncoder(k *codec, enc *ssa.Function, ty types.Type, found map[string]string, form map[string]int) {
	e := c.engine()
	st := newState()
	args := params(enc)
	rec := args[0]
	name := k.typ + "." + k.enc
	// attribute values of the symbolic record
	v := e.load(st, rec, ty)
	for _, n := range k.assume {
		p := fieldPath(ty, n)
		if p == nil {
			continue
		}
		f := structOf(ty).Field(p[0])
		st.facts = st.facts.add(Eq0(Sub(e.sliceLen(Fld(v, p[0], f.Type(), f.Name())), Int(2))))
	}
	ls := e.leaves(st, v, ty, "", nil, true)
	for _, n := range k.assume {
		p := fieldPath(ty, n)
		if p == nil {
			continue
		}
		f := structOf(ty).Field(p[0])
		sl := f.Type().Underlying().(*types.Slice)
		for i := int64(0); i < 2; i++ {
			ls = append(ls, leaf{fmt.Sprintf(".%s[%d]", n, i), e.load(st, e.elemRef(Fld(v, p[0], f.Type(), n), Int(i), sl.Elem()), sl.Elem()), sl.Elem()})
		}
	}
	mode := Int(0)
	if k.modeFld != "" {
		if x := leafByName(ls, k.modeFld); x != nil {
			mode = x.val
		}
	}
	vals := map[string]*Term{}
	for _, a := range k.attrs {
		var val *Term
		switch {
		case a.acc != "":
			m := c.p.Method(k.pkg, k.typ, a.acc)
			if m == nil {
				continue
			}
			vo, ok := c.eval(e, m, []*Term{rec}, st.clone())
			if !ok || len(vo) != 1 || !okRet(vo[0]) {
				c.ob(false, "accessor returns", k.typ+" "+a.name, fnPos(m), "accessor %s has no single result", a.acc)
				continue
			}
			val = vo[0].ret[0]
		case a.fld != "":
			if x := leafByName(ls, a.fld); x != nil {
				val = x.val
				if sl, ok := under(x.ty).(*types.Slice); ok && isByte(sl.Elem()) {
					val = e.readSlice(st, val, sl.Elem())
				}
			}
		default:
			if x := leafByName(ls, strings.TrimPrefix(found[a.name], ".")); x != nil {
				val = x.val
			}
		}
		if val != nil {
			vals[a.name] = val
		}
	}
	outs, ok := c.eval(e, enc, args, st.clone())
	if !ok {
		return
	}
	n := 0
	for _, o := range outs {
		if !feasible(o) {
			continue
		}
		if !c.ob(okRet(o), "encoder returns", name, fnPos(enc), "the encoder panics") {
			continue
		}
		if k.errIdx {
			er := simp(o.ret[len(o.ret)-1], o.st.facts)
			if !c.ob(er == Nil, "encoder accepts every record", name, fnPos(enc), "a record yields the error %v", er) {
				continue
			}
		}
		n++
		bs := simp(e.readSlice(o.st, o.ret[0], types.Typ[types.Uint8]), o.st.facts)
		if !c.ob(eqT(o.st.facts, SeqLen(bs), Int(int64(k.size))), "encoded size", name, fnPos(enc), "the record has %v bytes, not %d", SeqLen(bs), k.size) {
			continue
		}
		covered := make([]bool, k.size)
		for _, a := range k.attrs {
			what := fmt.Sprintf("%s %s", k.typ, a.name)
			for j := 0; j < a.w; j++ {
				covered[a.off+j] = true
			}
			val := vals[a.name]
			if !c.ob(val != nil, "anchor", what+" (encoder)", fnPos(enc), "the attribute is missing in the record") {
				continue
			}
			f := modeFact(o.st.facts, mode, a.when)
			good := false
			var why string
			for i := range encodeSpec(a, val, 0) {
				if a.kind == "txt" && form[a.name] != i {
					continue
				}
				all := true
				for j := 0; j < a.w && all; j++ {
					got, want := At(bs, Int(int64(a.off+j))), encodeSpec(a, val, j)[i]
					if !eqT(f, got, want) {
						all = false
						why = fmt.Sprintf("byte %d is %v, the format has %v", a.off+j, simp(got, f), want)
					}
				}
				if all {
					good = true
					break
				}
			}
			c.ob(good, "encoded at its place", what, fnPos(enc), "%s", why)
		}
		for i, cv := range covered {
			if !cv {
				got := simp(At(bs, Int(int64(i))), o.st.facts)
				c.ob(got == Int(0), "padding stays zero", k.typ, fnPos(enc), "byte %d is %v", i, got)
			}
		}
	}
	c.ob(n > 0, "encoder yields a record", name, fnPos(enc), "no path returns a record")
	for _, o := range e.obls {
		if !o.Ok {
			c.ob(false, "encoder stays inside the record", name+" "+fnKey(o.Fn)+" "+o.Kind, o.Instr.Pos(), "%s", o.Detail)
		}
	}
	// lists that are not set are stored as zero
	for _, nme := range k.assume {
		e := c.engine()
		st := newState()
		v := e.load(st, rec, ty)
		p := fieldPath(ty, nme)
		if p == nil {
			continue
		}
		f := structOf(ty).Field(p[0])
		st.facts = st.facts.add(Eq(Fld(v, p[0], f.Type(), f.Name()), Nil)).add(Eq0(e.sliceLen(Fld(v, p[0], f.Type(), f.Name()))))
		outs, ok := c.eval(e, enc, args, st)
		if !ok {
			continue
		}
		for _, o := range outs {
			if !feasible(o) || !c.ob(okRet(o), "encoder returns", name+" without "+nme, fnPos(enc), "the encoder panics") {
				continue
			}
			bs := e.readSlice(o.st, o.ret[0], types.Typ[types.Uint8])
			for _, a := range k.attrs {
				if strings.HasPrefix(a.fld, nme+"[") {
					for j := 0; j < a.w; j++ {
						got := simp(At(bs, Int(int64(a.off+j))), o.st.facts)
						c.ob(got == Int(0), "unset list is stored as zero", k.typ+" "+a.name, fnPos(enc), "byte %d is %v", a.off+j, got)
					}
				}
			}
		}
	}
}

// checkSetters: SetX changes exactly the attribute X reports.
func (c *Check) checkSetters(k *codec, ty types.Type) {
	for _, a := range k.attrs {
		if a.acc == "" {
			continue
		}
		set := c.p.Method(k.pkg, k.typ, "Set"+a.acc)
		get := c.p.Method(k.pkg, k.typ, a.acc)
		if set == nil || get == nil || len(set.Params) != 2 {
			continue
		}
		e := c.engine()
		st := newState()
		args := params(set)
		before := e.leaves(st, e.load(st, args[0], ty), ty, "", nil, false)
		own, ok := c.eval(e, get, args[:1], st.clone())
		if !ok || len(own) != 1 || !okRet(own[0]) {
			continue
		}
		outs, ok := c.eval(e, set, args, st)
		if !ok {
			continue
		}
		for _, o := range outs {
			if !feasible(o) || !c.ob(okRet(o), "setter returns", k.typ+" "+a.name, fnPos(set), "the setter panics") {
				continue
			}
			g, ok := c.eval(e, get, args[:1], o.st.clone())
			if !ok {
				continue
			}
			for _, x := range g {
				c.ob(okRet(x) && eqT(x.st.facts, x.ret[0], args[1]), "setter sets its attribute", k.typ+" "+a.name, fnPos(set), "after Set%s(v), %s() is %v", a.acc, a.acc, x.ret)
			}
			after := e.leaves(o.st, e.load(o.st, args[0], ty), ty, "", nil, false)
			for i := range after {
				if before[i].val == own[0].ret[0] {
					continue
				}
				c.ob(eqT(o.st.facts, after[i].val, before[i].val), "setter changes nothing else", k.typ+" "+a.name, fnPos(set), "%s becomes %v", after[i].path, after[i].val)
			}
		}
	}
}

func init() {
	expl := " decoder and encoder are evaluated over the value graph for a symbolic record; every attribute must equal the layout entry and every byte the stored attribute"
	checks["C01"] = checkDef{run: func(c *Check) { c.checkCodec(boardCodec()); c.boardExtras() }, min: 60, rule: "record layout table (boardheader_t):" + expl}
	checks["C02"] = checkDef{run: func(c *Check) { c.checkCodec(dirCodec()) }, min: 30, rule: "record layout table (fileheader_t):" + expl}
	checks["C03"] = checkDef{run: func(c *Check) { c.checkCodec(passwdCodec()) }, min: 100, rule: "record layout table (userec_t):" + expl}
	checks["C04"] = checkDef{run: func(c *Check) { c.checkCodec(userinfoCodec()) }, min: 1100, rule: "record layout table (userinfo_t):" + expl}
	checks["C06"] = checkDef{run: func(c *Check) { c.checkCodec(formosaCodec()) }, min: 7, rule: "record layout table (FormosaBBS file header):" + expl}
}

// boardExtras: derived accessors of a board.
func (c *Check) boardExtras() {
	ty := c.p.Type("pttbbs", "BoardHeader")
	dec := c.p.Func("pttbbs", "UnmarshalBoardHeader")
	bm := c.needM("pttbbs", "BoardHeader", "BM")
	cls := c.needM("pttbbs", "BoardHeader", "ClassID")
	if ty == nil || dec == nil || bm == nil || cls == nil {
		return
	}
	e := c.engine()
	st := newState()
	args := params(dec)
	d := e.readSlice(st, args[0], types.Typ[types.Uint8])
	st.facts = st.facts.add(Ge0(Sub(e.sliceLen(args[0]), Int(256))))
	outs, ok := c.eval(e, dec, args, st)
	if !ok {
		return
	}
	for _, o := range outs {
		r := simp(o.ret[0], o.st.facts)
		if !feasible(o) || r.Op != "ref" {
			continue
		}
		raw := SubSeq(d, Int(62), Int(39))
		for _, txt := range [][]*Term{{Cstr(raw), dec5(Cstr(raw))}} {
			bo, ok := c.eval(e, bm, []*Term{r}, o.st.clone())
			if !ok {
				continue
			}
			for _, x := range bo {
				if !feasible(x) || !c.ob(okRet(x), "accessor returns", "BM()", fnPos(bm), "panics") {
					continue
				}
				good := false
				var got *Term
				for _, t := range txt {
					empty := x.st.facts.add(Eq0(SeqLen(t)))
					full := x.st.facts.add(Not(Eq0(SeqLen(t)))).add(Ge0(Sub(SeqLen(t), Int(1))))
					got = simp(e.readSlice(x.st, simp(x.ret[0], full), types.Typ[types.String]), full)
					ne := simp(e.sliceLen(simp(x.ret[0], empty)), empty)
					if (contradictory(empty) || ne == Int(0)) && (contradictory(full) || isSplit(got, t, "/")) {
						good = true
					}
				}
				c.ob(good, "moderators are the '/'-separated names", "BM()", fnPos(bm), "BM() is %v", got)
			}
		}
		co, ok := c.eval(e, cls, []*Term{r}, o.st.clone())
		if !ok {
			continue
		}
		want := decTerm(Wrap(types.Typ[types.Int32], leRead(d, 132, 4)))
		for _, x := range co {
			c.ob(okRet(x) && eqT(x.st.facts, x.ret[0], want), "class id is the decimal parent class", "ClassID()", fnPos(cls), "ClassID() is %v", x.ret)
		}
	}
}

// isSplit: t is the list of the pieces of x separated by sep.
func isSplit(t, x *Term, sep string) bool {
	for t.Op == "content" {
		t = t.Args[0]
	}
	return t.Op == "split" && t.Args[0] == x && t.Args[1].Op == "str" && t.Args[1].S == sep
}
