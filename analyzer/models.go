package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard-library functions the repository relies on. A model
// states the effect of the call on the abstract state; everything without a
// model is an observable event with unknown results.

type cc struct {
	e        *Engine
	fr       *frame
	in       ssa.Instruction
	c        *ssa.CallCommon
	st       *State
	args     []*Term
	sig      *types.Signature
	name     string
	deferred bool
}

func (c *cc) bytes(i int) *Term { return c.e.readSlice(c.st, c.args[i], types.Typ[types.Uint8]) }
func (c *cc) list(i int, el types.Type) *Term {
	return c.e.readSlice(c.st, c.args[i], el)
}
func (c *cc) event() []Out {
	return c.e.event(c.fr, c.in, c.c, "call", c.name, c.args, c.st, c.deferred)
}
func (c *cc) ret(ts ...*Term) []Out { return one(c.st, ts...) }
func (c *cc) fact(t *Term)          { c.st.facts = c.st.facts.add(t) }

var errT = types.Universe.Lookup("error").Type()
var strT = types.Typ[types.String]
var intT = types.Typ[types.Int]
var boolT = types.Typ[types.Bool]
var byteT = types.Typ[types.Uint8]

var models map[string]func(*cc) []Out

// pure functions whose value only depends on the (content of the) arguments
var purePrefixes = []string{"strings.", "bytes.", "strconv.", "unicode.", "unicode/utf8.", "path.", "path/filepath.", "math.", "math/bits.",
	"(*regexp.Regexp).", "regexp.", "time.Parse", "(time.Time).", "(time.Duration).", "(time.Month).", "time.Duration", "errors.Unwrap", "hash/crc32.", "crypto/subtle.", "net/url.", "encoding/hex.", "encoding/base64.", "unicode/utf16.", "(strings.", "html.", "slices.Contains", "slices.Index", "encoding/json.Marshal", "encoding/json.Valid", "flag."}

func isPure(name string) bool {
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			switch name {
			case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
				return false
			}
			return true
		}
	}
	return false
}

// pureCall is an uninterpreted function of the argument contents.
func (e *Engine) pureCall(sig *types.Signature, name string, args []*Term, st *State) []*Term {
	var ps []*Term
	var pt []types.Type
	if sig.Recv() != nil {
		pt = append(pt, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pt = append(pt, sig.Params().At(i).Type())
	}
	for i, a := range args {
		var ty types.Type
		if i < len(pt) {
			ty = pt[i]
		}
		ps = append(ps, e.snapshot(st, a, ty))
	}
	var ret []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		ty := sig.Results().At(i).Type()
		s := name
		if i > 0 {
			s = fmt.Sprintf("%s.%d", name, i)
		}
		t := mk("fn", ty, s, 0, ps...)
		if sl, ok := under(ty).(*types.Slice); ok && isByte(sl.Elem()) {
			t = e.newBytes(mk("fnb", strT, s, 0, ps...), nil)
		}
		ret = append(ret, t)
	}
	return ret
}

func trimOp(op string, x, cut *Term) *Term {
	if n := SeqLen(x); n.isInt() && n.N == 1 && cut.Op == "str" && cut.S == "\x00" {
		return Cstr(x)
	}
	if h := hashPrefix(x); h != nil && cut.Op == "str" && cut.S == "\x00" && op != "triml" {
		return h
	}
	if x.Op == "str" && cut.Op == "str" {
		switch op {
		case "trim":
			return Str(strings.Trim(x.S, cut.S))
		case "triml":
			return Str(strings.TrimLeft(x.S, cut.S))
		case "trimr":
			return Str(strings.TrimRight(x.S, cut.S))
		}
	}
	return mk(op, strT, "", 0, x, cut)
}

// splitElem is element i of the pieces of x separated by sep.
func splitElem(x, i *Term) *Term {
	if i.isInt() && i.N == 0 && x.Args[1].Op == "str" && x.Args[1].S == "\x00" {
		return Cstr(x.Args[0])
	}
	if i.isInt() && i.N == 0 && x.Args[1].Op == "str" && len(x.Args[1].S) == 1 {
		return Before(x.Args[0], x.Args[1].S[0])
	}
	return mk("sel", strT, "", 0, x, i)
}

// Before is the part of x before the first byte b, all of x if there is none.
func Before(x *Term, b byte) *Term {
	i := Idx(x, Int(int64(b)))
	return Ite(Ge0(i), SubSeq(x, Int(0), i), x)
}

// HasByte tells whether x contains the byte.
func HasByte(x *Term, b byte) *Term { return Ge0(Idx(x, Int(int64(b)))) }

func hasAny(x *Term, set string) *Term {
	bs := []byte(set)
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	r := False
	for i := len(bs) - 1; i >= 0; i-- {
		r = Or2(HasByte(x, bs[i]), r)
	}
	return r
}

func asciiSet(t *Term) bool {
	if t.Op != "str" {
		return false
	}
	for i := 0; i < len(t.S); i++ {
		if t.S[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (e *Engine) splitModel(c *cc, x, sep *Term, byteElems bool) []Out {
	if x.Op == "str" && sep.Op == "str" && !byteElems {
		var l []*Term
		for _, p := range strings.Split(x.S, sep.S) {
			l = append(l, Str(p))
		}
		return c.ret(e.newList(mk("list", nil, "", 0, l...), Int(int64(len(l))), strT, c.in))
	}
	var el types.Type = strT
	if byteElems {
		el = types.NewSlice(byteT)
	}
	sp := splitSeq(x, sep)
	if sep.Op == "str" && sep.S != "" {
		c.fact(Ge0(Sub(ListLen(sp), Int(1))))
		if sp.Op == "catl" {
			c.fact(Ge0(Sub(ListLen(sp.Args[1]), Int(1))))
		}
	}
	return c.ret(e.newList(sp, ListLen(sp), el, c.in))
}

// splitSeq is the list of the pieces of x.
func splitSeq(x, sep *Term) *Term {
	if x.Op == "cat" && x.Args[0].Op == "str" && sep.Op == "str" && len(sep.S) == 1 && strings.Contains(x.Args[0].S, sep.S) {
		// the pieces of a known beginning
		var l []*Term
		ps := strings.Split(x.Args[0].S, sep.S)
		for _, p := range ps[:len(ps)-1] {
			l = append(l, Str(p))
		}
		return mk("catl", nil, "", 0, mk("list", nil, "", 0, l...), splitSeq(Cat(append([]*Term{Str(ps[len(ps)-1])}, x.Args[1:]...)...), sep))
	}
	return mk("split", nil, "", 0, x, sep)
}

// SeqCat of a Sprintf-style format
func (e *Engine) format(st *State, f *Term, args []*Term) *Term {
	if f.Op != "str" {
		return mk("fmtv", strT, "dyn", 0, append([]*Term{f}, args...)...)
	}
	var parts []*Term
	s := f.S
	k := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			parts = append(parts, Str(s))
			break
		}
		parts = append(parts, Str(s[:i]))
		s = s[i:]
		if strings.HasPrefix(s, "%%") {
			parts = append(parts, Str("%"))
			s = s[2:]
			continue
		}
		j := 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.*", s[j]) >= 0 {
			if s[j] == '*' && k < len(args) {
				// a width given as an argument
				w := args[k]
				if w.Op == "iface" {
					w = w.Args[0]
				}
				if !w.isInt() {
					return mk("fmtv", strT, "dyn", 0, append([]*Term{f}, args...)...)
				}
				ws := fmt.Sprint(w.N)
				s = s[:j] + ws + s[j+1:]
				j += len(ws)
				k++
				continue
			}
			j++
		}
		if j >= len(s) {
			parts = append(parts, Str(s))
			break
		}
		verb := s[:j+1]
		s = s[j+1:]
		if k >= len(args) {
			parts = append(parts, Str("%!"+verb))
			continue
		}
		parts = append(parts, e.fmtArg(st, verb, args[k]))
		k++
	}
	return Cat(parts...)
}

func (e *Engine) fmtArg(st *State, verb string, a *Term) *Term {
	if a.Op == "ite" {
		return Ite(a.Args[0], e.fmtArg(st, verb, a.Args[1]), e.fmtArg(st, verb, a.Args[2]))
	}
	if a.Op == "iface" {
		v := a.Args[0]
		stringer := hasMethod(a.Ty, "String") || hasMethod(a.Ty, "Error")
		switch {
		case isString(a.Ty) && (verb == "%s" || verb == "%v") && !stringer:
			return v
		case isIntType(a.Ty) && (verb == "%d" || verb == "%v" && !stringer):
			return decTerm(v)
		case isIntType(a.Ty) && verb == "%c":
			if v.isInt() {
				return Str(string(rune(v.N)))
			}
			return mk("chr", strT, "", 0, v)
		case isIntType(a.Ty) && v.isInt() && !stringer && len(verb) <= 5:
			return Str(fmt.Sprintf(verb, v.N))
		}
		if sl, ok := under(a.Ty).(*types.Slice); ok && isByte(sl.Elem()) && verb == "%s" {
			return e.readSlice(st, v, byteT)
		}
		return mk("fmtv", strT, verb, 0, e.snapshot(st, v, a.Ty))
	}
	if verb == "%v" || verb == "%s" || verb == "%w" {
		if isErrorType(a.Ty) {
			return mk("errstr", strT, "", 0, a)
		}
	}
	return mk("fmtv", strT, verb, 0, a)
}

func hasMethod(t types.Type, n string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == n {
			return true
		}
	}
	return false
}

func decTerm(v *Term) *Term {
	if v.isInt() {
		return Str(strconv.FormatInt(v.N, 10))
	}
	return mk("dec", strT, "", 0, v)
}

func (c *cc) varargs(i int) []*Term {
	l := c.list(i, types.NewInterfaceType(nil, nil))
	if l.Op == "list" {
		return l.Args
	}
	if l.Op == "nil" {
		return nil
	}
	return []*Term{l}
}

func isNotExistTarget(t *Term) bool {
	return t.Op == "errglob" && (t.S == "os.ErrNotExist" || t.S == "io/fs.ErrNotExist")
}
func isExistTarget(t *Term) bool {
	return t.Op == "errglob" && (t.S == "os.ErrExist" || t.S == "io/fs.ErrExist")
}

func errIs(err, target *Term, unwrap bool) *Term {
	return dist(err, func(x *Term) *Term {
		switch x.Op {
		case "nil":
			return Bool(target == Nil)
		case "errorf":
			if unwrap {
				return Or2(Eq(x, target), errorfWraps(x, target))
			}
			return Eq(x, target)
		case "errnew":
			return Eq(x, target)
		case "errglob":
			if target.Op == "errglob" {
				return Bool(x == target)
			}
		}
		return mk("errIs", boolT, "", 0, x, target)
	})
}

func errorfWraps(x, target *Term) *Term {
	r := False
	// wrapped operands are kept behind the text parts, marked by N
	for i := int64(1); i < int64(len(x.Args)); i++ {
		r = Or2(r, errIsAny(x.Args[i], target))
	}
	return r
}

func errIsAny(x, target *Term) *Term {
	if isNotExistTarget(target) {
		return isNotExist(x)
	}
	return errIs(x, target, true)
}

func isNotExist(x *Term) *Term {
	return dist(x, func(x *Term) *Term {
		switch x.Op {
		case "nil", "errnew":
			return False
		case "errglob":
			return Bool(isNotExistTarget(x))
		}
		return mk("isnotexist", boolT, "", 0, x)
	})
}

func isExist(x *Term) *Term {
	return dist(x, func(x *Term) *Term {
		switch x.Op {
		case "nil", "errnew":
			return False
		case "errglob":
			return Bool(isExistTarget(x))
		}
		return mk("isexist", boolT, "", 0, x)
	})
}

func leRead(x *Term, off, n int) *Term {
	r := Int(0)
	for k := 0; k < n; k++ {
		r = Add(r, Scale(At(x, Int(int64(off+k))), 1<<uint(8*k)))
	}
	return r
}
func beRead(x *Term, off, n int) *Term {
	r := Int(0)
	for k := 0; k < n; k++ {
		r = Add(r, Scale(At(x, Int(int64(off+k))), 1<<uint(8*(n-1-k))))
	}
	return r
}

func (e *Engine) sbGet(st *State, p *Term) *Term {
	v := e.load(st, p, nil)
	return sbSeq(v)
}

func sbSeq(v *Term) *Term {
	return dist(v, func(v *Term) *Term {
		switch v.Op {
		case "sb":
			return v.Args[0]
		case "zero":
			return Str("")
		}
		return mk("strf", strT, "", 0, v)
	})
}

func (e *Engine) sbSet(st *State, p, s *Term, ty types.Type) {
	e.store(st, p, mk("sb", ty, "", 0, s), ty)
}

func init() {
	models = map[string]func(*cc) []Out{}
	add := func(f func(*cc) []Out, names ...string) {
		for _, n := range names {
			models[n] = f
		}
	}
	// silent: no observable effect that any property is about
	silent := func(c *cc) []Out {
		if c.e.visible[c.name] {
			c.event()
		}
		var rs []*Term
		for i := 0; i < c.sig.Results().Len(); i++ {
			rs = append(rs, Fresh("any", c.sig.Results().At(i).Type()))
		}
		return c.ret(rs...)
	}
	add(silent, "log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print", "log.Output", "log.SetFlags", "log.SetOutput", "log.SetPrefix",
		"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock",
		"runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "time.Sleep", "math/rand.Seed")
	add(func(c *cc) []Out {
		args := mk("fn", types.NewSlice(strT), "flag.Args", 0)
		return c.ret(c.e.sliceLen(args))
	}, "flag.NArg")
	add(func(c *cc) []Out {
		// the word at that place, nothing behind the last one
		l := Content(mk("fn", types.NewSlice(strT), "flag.Args", 0))
		i := c.args[0]
		return c.ret(Ite(And2(Ge0(i), Ge0(Sub(Sub(SeqLen(l), i), Int(1)))), mk("sel", strT, "", 0, l, i), Str("")))
	}, "flag.Arg")
	die := func(c *cc) []Out {
		c.event()
		return []Out{{kind: oPanic, st: c.st, guard: True, instr: c.in}}
	}
	add(die, "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf", "log.Panicln", "syscall.Exit", "runtime.Goexit")

	// time
	add(func(c *cc) []Out {
		return c.ret(mk("fn", strT, c.name, 0, c.args[0], c.args[1]))
	}, "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue", "(net/http.Header).Get", "(net/url.Values).Get")
	add(func(c *cc) []Out { return c.ret(Fresh("now", c.sig.Results().At(0).Type())) }, "time.Now")
	add(func(c *cc) []Out {
		return c.ret(mk("tunix", c.sig.Results().At(0).Type(), "", 0, c.args[0], c.args[1]))
	}, "time.Unix")
	add(func(c *cc) []Out {
		return c.ret(dist(c.args[0], func(t *Term) *Term {
			if t.Op == "tunix" && t.Args[1] == Int(0) {
				return t.Args[0]
			}
			if t.Op == "zero" {
				return Int(-62135596800)
			}
			return mk("tounix", types.Typ[types.Int64], "", 0, t)
		}))
	}, "(time.Time).Unix")
	add(func(c *cc) []Out {
		return c.ret(dist(c.args[0], func(t *Term) *Term {
			switch t.Op {
			case "zero":
				return True
			case "now":
				return False
			case "tunix":
				if lo, _ := rangeOf(t.Args[0]); lo > -62135596800 {
					return False
				}
			}
			return mk("tiszero", boolT, "", 0, t)
		}))
	}, "(time.Time).IsZero")
	add(func(c *cc) []Out {
		return c.ret(mk("rand", intT, "", func() int64 { freshCnt++; return freshCnt }(), c.args[0]))
	}, "math/rand.Intn", "math/rand/v2.IntN")

	// errors
	add(func(c *cc) []Out { return c.ret(mk("errnew", errT, "", 0, c.args[0])) }, "errors.New")
	add(func(c *cc) []Out {
		va := c.varargs(1)
		text := c.e.format(c.st, c.args[0], va)
		args := []*Term{text}
		if c.args[0].Op == "str" && strings.Contains(c.args[0].S, "%w") {
			// operands of %w
			k := 0
			f := c.args[0].S
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
					j++
				}
				if j < len(f) && f[j] == '%' {
					i = j
					continue
				}
				if j < len(f) && f[j] == 'w' && k < len(va) {
					args = append(args, va[k])
				}
				k++
				i = j
			}
		}
		return c.ret(mk("errorf", errT, "", 0, args...))
	}, "fmt.Errorf")
	add(func(c *cc) []Out {
		t := c.args[1]
		if isNotExistTarget(t) {
			return c.ret(dist(c.args[0], func(x *Term) *Term {
				if x.Op == "errorf" {
					return errorfWraps(x, t)
				}
				return isNotExist(x)
			}))
		}
		if isExistTarget(t) {
			return c.ret(isExist(c.args[0]))
		}
		return c.ret(errIs(c.args[0], t, true))
	}, "errors.Is")
	add(func(c *cc) []Out {
		return c.ret(dist(c.args[0], func(x *Term) *Term {
			if x.Op == "errorf" {
				return False // does not look through wrapping
			}
			return isNotExist(x)
		}))
	}, "os.IsNotExist")
	add(func(c *cc) []Out {
		return c.ret(dist(c.args[0], func(x *Term) *Term {
			if x.Op == "errorf" {
				return False
			}
			return isExist(x)
		}))
	}, "os.IsExist")

	// formatting
	add(func(c *cc) []Out { return c.ret(c.e.format(c.st, c.args[0], c.varargs(1))) }, "fmt.Sprintf")
	add(func(c *cc) []Out {
		va := c.varargs(0)
		if len(va) == 1 {
			return c.ret(c.e.fmtArg(c.st, "%v", va[0]))
		}
		// Sprint adds spaces between operands when neither is a string
		all := true
		var ps []*Term
		for _, a := range va {
			if a.Op != "iface" || !isString(a.Ty) {
				all = false
			}
			ps = append(ps, c.e.fmtArg(c.st, "%v", a))
		}
		if all {
			return c.ret(Cat(ps...))
		}
		return c.ret(mk("fmtv", strT, "Sprint", 0, ps...))
	}, "fmt.Sprint")
	add(func(c *cc) []Out { return c.ret(decTerm(c.args[0])) }, "strconv.Itoa")
	add(func(c *cc) []Out {
		if c.args[1] == Int(10) {
			return c.ret(decTerm(c.args[0]))
		}
		return nil2(c)
	}, "strconv.FormatInt", "strconv.FormatUint")
	add(func(c *cc) []Out {
		if c.args[0].Op == "str" {
			if n, err := strconv.Atoi(c.args[0].S); err == nil {
				return c.ret(Int(int64(n)), Nil)
			}
		}
		return c.ret(mk("atoi", intT, "", 0, c.args[0]), mk("atoierr", errT, "", 0, c.args[0]))
	}, "strconv.Atoi")

	// byte order
	for _, o := range []struct {
		recv string
		big  bool
	}{{"littleEndian", false}, {"bigEndian", true}} {
		for _, w := range []int{16, 32, 64} {
			n := w / 8
			big := o.big
			add(func(c *cc) []Out {
				c.e.oblige(c.fr, c.in, "index", Le(Int(int64(n)), c.e.sliceLen(c.args[len(c.args)-1])), c.st)
				x := c.bytes(len(c.args) - 1)
				if big {
					return c.ret(beRead(x, 0, n))
				}
				if n == 8 {
					return c.ret(mk("u64", types.Typ[types.Uint64], "", 0, x))
				}
				return c.ret(leRead(x, 0, n))
			}, fmt.Sprintf("(encoding/binary.%s).Uint%d", o.recv, w))
			add(func(c *cc) []Out {
				b, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
				c.e.oblige(c.fr, c.in, "index", Le(Int(int64(n)), c.e.sliceLen(b)), c.st)
				for k := 0; k < n; k++ {
					by := k
					if big {
						by = n - 1 - k
					}
					c.e.store(c.st, c.e.elemRef(b, Int(int64(k)), byteT), ByteOf(v, by), byteT)
				}
				return c.ret()
			}, fmt.Sprintf("(encoding/binary.%s).PutUint%d", o.recv, w))
			add(func(c *cc) []Out {
				b, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
				var cs []*Term
				for k := 0; k < n; k++ {
					by := k
					if big {
						by = n - 1 - k
					}
					cs = append(cs, ByteOf(v, by))
				}
				return c.ret(c.e.newBytes(Cat(c.e.readSlice(c.st, b, byteT), Cells(cs)), c.in))
			}, fmt.Sprintf("(encoding/binary.%s).AppendUint%d", o.recv, w))
		}
	}

	// strings and bytes
	for _, pk := range []string{"strings", "bytes"} {
		isB := pk == "bytes"
		arg := func(c *cc, i int) *Term {
			if isB {
				return c.bytes(i)
			}
			return c.args[i]
		}
		wrap := func(c *cc, t *Term) []Out {
			if isB {
				return c.ret(c.e.newBytes(t, c.in))
			}
			return c.ret(t)
		}
		add(func(c *cc) []Out { return c.ret(Idx(arg(c, 0), c.args[1])) }, pk+".IndexByte")
		add(func(c *cc) []Out { return c.e.splitModel(c, arg(c, 0), arg(c, 1), isB) }, pk+".Split")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), arg(c, 1)
			if x.Op == "str" && p.Op == "str" {
				return c.ret(Bool(strings.Contains(x.S, p.S)))
			}
			if p.Op == "str" && len(p.S) == 1 {
				return c.ret(HasByte(x, p.S[0]))
			}
			return c.ret(mk("hassub", boolT, "", 0, x, p))
		}, pk+".Contains")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), c.args[1]
			if x.Op == "str" && p.Op == "str" {
				return c.ret(Bool(strings.ContainsAny(x.S, p.S)))
			}
			if asciiSet(p) {
				return c.ret(hasAny(x, p.S))
			}
			if p.Op == "str" {
				// the characters of one byte, and the others
				one := strings.Map(func(r rune) rune {
					if r < 0x80 {
						return r
					}
					return -1
				}, p.S)
				rest := strings.Map(func(r rune) rune {
					if r < 0x80 {
						return -1
					}
					return r
				}, p.S)
				if one != "" && rest != "" {
					return c.ret(Or2(hasAny(x, one), mk("fn", boolT, pk+".ContainsAny", 0, x, Str(rest))))
				}
			}
			return nil2(c)
		}, pk+".ContainsAny")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), c.args[1]
			if p.isInt() && p.N >= 0 && p.N < 0x80 {
				return c.ret(HasByte(x, byte(p.N)))
			}
			return nil2(c)
		}, pk+".ContainsRune")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), c.args[1]
			if p.isInt() && p.N >= 0 && p.N < 0x80 {
				return c.ret(Idx(x, p))
			}
			return nil2(c)
		}, pk+".IndexRune")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), arg(c, 1)
			if p.Op == "str" && len(p.S) == 1 {
				return c.ret(Idx(x, Int(int64(p.S[0]))))
			}
			return nil2(c)
		}, pk+".Index")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), c.args[1]
			if asciiSet(p) && len(p.S) == 1 {
				return c.ret(Idx(x, Int(int64(p.S[0]))))
			}
			if asciiSet(p) {
				t := mk("idxany", intT, "", 0, x, p)
				return c.ret(Ite(hasAny(x, p.S), t, Int(-1)))
			}
			return nil2(c)
		}, pk+".IndexAny")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), arg(c, 1)
			if p.Op == "str" && len(p.S) == 1 && !isB {
				i := Idx(x, Int(int64(p.S[0])))
				f := Ge0(i)
				return c.ret(Before(x, p.S[0]), Ite(f, SubSeq(x, Add(i, Int(1)), Sub(Sub(SeqLen(x), i), Int(1))), Str("")), f)
			}
			return nil2(c)
		}, pk+".Cut")
		add(func(c *cc) []Out {
			if c.args[2] == Int(-1) {
				return c.e.splitModel(c, arg(c, 0), arg(c, 1), isB)
			}
			if p := arg(c, 1); c.args[2] == Int(2) && p.Op == "str" && len(p.S) == 1 {
				x := arg(c, 0)
				sp := mk("split", nil, "", 2, x, p)
				el := types.Type(strT)
				if isB {
					el = types.NewSlice(byteT)
				}
				i := Idx(x, Int(int64(p.S[0])))
				n := Ite(Ge0(i), Int(2), Int(1))
				return c.ret(c.e.newList(sp, n, el, c.in))
			}
			if k, p := c.args[2], arg(c, 1); k.isInt() && k.N > 2 && p.Op == "str" && p.S != "" {
				// no more than k pieces, the last of them the rest
				sp := mk("split", nil, "", k.N, arg(c, 0), p)
				l := splitSeq(arg(c, 0), p)
				all := ListLen(l)
				c.fact(Ge0(Sub(all, Int(1))))
				if l.Op == "catl" {
					c.fact(Ge0(Sub(ListLen(l.Args[1]), Int(1))))
				}
				el := types.Type(strT)
				if isB {
					el = types.NewSlice(byteT)
				}
				return c.ret(c.e.newList(sp, Ite(Ge0(Sub(k, all)), all, k), el, c.in))
			}
			return nil2(c)
		}, pk+".SplitN")
		sub := func(c *cc, op string, cut *Term) []Out {
			x := arg(c, 0)
			return wrap(c, trimOp(op, x, cut))
		}
		add(func(c *cc) []Out { return sub(c, "trim", c.args[1]) }, pk+".Trim")
		add(func(c *cc) []Out { return sub(c, "trimr", c.args[1]) }, pk+".TrimRight")
		add(func(c *cc) []Out { return sub(c, "triml", c.args[1]) }, pk+".TrimLeft")
		add(func(c *cc) []Out {
			x := arg(c, 0)
			if x.Op == "str" {
				return wrap(c, Str(strings.TrimSpace(x.S)))
			}
			return wrap(c, mk("trim", strT, "space", 0, x))
		}, pk+".TrimSpace")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), arg(c, 1)
			if x.Op == "str" && p.Op == "str" {
				return c.ret(Bool(strings.HasPrefix(x.S, p.S)))
			}
			if p.Op == "str" {
				return c.ret(HasPrefixT(x, p.S))
			}
			return c.ret(mk("hasprefix", boolT, "", 0, x, p))
		}, pk+".HasPrefix")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), arg(c, 1)
			if x.Op == "str" && p.Op == "str" {
				return c.ret(Bool(strings.HasSuffix(x.S, p.S)))
			}
			return c.ret(mk("hassuffix", boolT, "", 0, x, p))
		}, pk+".HasSuffix")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), arg(c, 1)
			if x.Op == "str" && p.Op == "str" {
				return wrap(c, Str(strings.TrimPrefix(x.S, p.S)))
			}
			if p.Op == "str" && !isB {
				h := HasPrefixT(x, p.S)
				return c.ret(Ite(h, SubSeq(x, Int(int64(len(p.S))), Sub(SeqLen(x), Int(int64(len(p.S))))), x))
			}
			return wrap(c, mk("trimprefix", strT, "", 0, x, p))
		}, pk+".TrimPrefix")
		add(func(c *cc) []Out {
			x, p := arg(c, 0), arg(c, 1)
			return c.ret(Eq(x, p))
		}, pk+".Equal")
	}
	add(func(c *cc) []Out { return c.ret(Eq(c.bytes(0), c.bytes(1))) }, "bytes.Equal")
	add(func(c *cc) []Out { return c.ret(Ite(Eq(c.bytes(0), c.bytes(1)), Int(1), Int(0))) }, "crypto/subtle.ConstantTimeCompare")
	add(func(c *cc) []Out {
		a, b := c.bytes(0), c.bytes(1)
		t := mk("fn", intT, "cmp", 0, a, b)
		c.fact(Ite(Eq(a, b), True, Not(Eq0(t))))
		return c.ret(Ite(Eq(a, b), Int(0), t))
	}, "bytes.Compare", "strings.Compare")
	add(func(c *cc) []Out {
		l := c.list(0, strT)
		if l.Op == "list" {
			var ps []*Term
			for i, x := range l.Args {
				if i > 0 {
					ps = append(ps, c.args[1])
				}
				ps = append(ps, x)
			}
			return c.ret(Cat(ps...))
		}
		if k := c.e.sliceLen(c.args[0]); k.isInt() && k.N > 0 && k.N <= 8 {
			var ps []*Term
			for i := int64(0); i < k.N; i++ {
				if i > 0 {
					ps = append(ps, c.args[1])
				}
				ps = append(ps, ElemAt(l, Int(i), strT))
			}
			return c.ret(Cat(ps...))
		}
		return c.ret(mk("join", strT, "", 0, l, c.args[1]))
	}, "strings.Join")

	for _, t := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		elem := func(c *cc) types.Type { return c.sig.Recv().Type().(*types.Pointer).Elem() }
		add(func(c *cc) []Out {
			c.e.sbSet(c.st, c.args[0], Cat(c.e.sbGet(c.st, c.args[0]), c.args[1]), elem(c))
			return c.ret(SeqLen(c.args[1]), Nil)
		}, t+".WriteString")
		add(func(c *cc) []Out {
			x := c.bytes(1)
			c.e.sbSet(c.st, c.args[0], Cat(c.e.sbGet(c.st, c.args[0]), x), elem(c))
			return c.ret(SeqLen(x), Nil)
		}, t+".Write")
		add(func(c *cc) []Out {
			c.e.sbSet(c.st, c.args[0], Cat(c.e.sbGet(c.st, c.args[0]), mkCell(c.args[1])), elem(c))
			return c.ret(Nil)
		}, t+".WriteByte")
		add(func(c *cc) []Out {
			s := mk("chr", strT, "", 0, c.args[1])
			if c.args[1].isInt() {
				s = Str(string(rune(c.args[1].N)))
			}
			c.e.sbSet(c.st, c.args[0], Cat(c.e.sbGet(c.st, c.args[0]), s), elem(c))
			return c.ret(SeqLen(s), Nil)
		}, t+".WriteRune")
		add(func(c *cc) []Out { return c.ret(c.e.sbGet(c.st, c.args[0])) }, t+".String")
		add(func(c *cc) []Out { return c.ret(c.e.newBytes(c.e.sbGet(c.st, c.args[0]), c.in)) }, t+".Bytes")
		add(func(c *cc) []Out { return c.ret(SeqLen(c.e.sbGet(c.st, c.args[0]))) }, t+".Len")
		add(func(c *cc) []Out { c.e.sbSet(c.st, c.args[0], Str(""), elem(c)); return c.ret() }, t+".Reset")
		add(func(c *cc) []Out { return c.ret() }, t+".Grow")
	}

	// Big5
	add(func(c *cc) []Out { return c.ret(mk("big5dec", c.sig.Results().At(0).Type(), "", 0, c.args[0])) }, "invoke (golang.org/x/text/encoding.Encoding).NewDecoder")
	add(func(c *cc) []Out { return c.ret(mk("big5enc", c.sig.Results().At(0).Type(), "", 0, c.args[0])) }, "invoke (golang.org/x/text/encoding.Encoding).NewEncoder")
	add(func(c *cc) []Out {
		return c.ret(mk("replunsup", c.sig.Results().At(0).Type(), "", 0, c.args[0]))
	}, "golang.org/x/text/encoding.ReplaceUnsupported")
	xform := func(c *cc, x *Term) (*Term, *Term) {
		t := c.args[0]
		for t.Op == "iface" {
			t = t.Args[0]
		}
		isBig5 := func(t *Term) bool {
			return len(t.Args) > 0 && strings.HasSuffix(t.Args[0].S, "traditionalchinese.Big5")
		}
		switch {
		case t.Op == "big5dec" && isBig5(t):
			return mk("dec5", strT, "", 0, x), mk("nil", nil, "", 0)
		case t.Op == "replunsup" && t.Args[0].Op == "big5enc" && isBig5(t.Args[0]):
			return mk("enc5", strT, "", 0, x), mk("xerr", errT, "", 0, t, x)
		case t.Op == "big5enc" && isBig5(t):
			return mk("enc5stop", strT, "", 0, x), mk("xerr", errT, "", 0, t, x)
		}
		return mk("xform", strT, "", 0, t, x), mk("xerr", errT, "", 0, t, x)
	}
	add(func(c *cc) []Out {
		r, err := xform(c, c.args[1])
		return c.ret(r, mk("xn", intT, "", 0, r), err)
	}, "golang.org/x/text/transform.String")
	add(func(c *cc) []Out {
		r, err := xform(c, c.bytes(1))
		return c.ret(c.e.newBytes(r, c.in), mk("xn", intT, "", 0, r), err)
	}, "golang.org/x/text/transform.Bytes")
	coder := func(str bool) func(c *cc) []Out {
		return func(c *cc) []Out {
			var x *Term
			if str {
				x = c.args[1]
			} else {
				x = c.bytes(1)
			}
			r, err := xform(c, x)
			if str {
				return c.ret(r, err)
			}
			return c.ret(c.e.newBytes(r, c.in), err)
		}
	}
	add(coder(true), "(*golang.org/x/text/encoding.Encoder).String", "(*golang.org/x/text/encoding.Decoder).String")
	add(coder(false), "(*golang.org/x/text/encoding.Encoder).Bytes", "(*golang.org/x/text/encoding.Decoder).Bytes")

	// reading
	rd := func(c *cc, buf int, full bool) []Out {
		n := c.e.sliceLen(c.args[buf])
		ts := argTypes(c.c, c.sig)
		ev := c.e.newEvent(c.fr, c.in, "call", c.name, c.args, ts, c.st, c.deferred)
		ev.Res = []*Term{resTerm(ev, 0, intT), resTerm(ev, 1, errT)}
		c.st.push(ev)
		data := mk("rd", nil, "", int64(ev.ID), n)
		b := c.e.asSlice(c.args[buf], byteT)
		if b.Op == "slice" {
			c.e.writeSliceN(c.st, b, data, n, n, byteT)
		} else {
			c.e.havocSlice(c.st, b, byteT)
		}
		c.fact(Ge0(ev.Res[0]))
		c.fact(Le(ev.Res[0], n))
		if full {
			c.fact(Ite(Eq(ev.Res[1], Nil), Eq0(Sub(ev.Res[0], n)), True))
		}
		return c.ret(ev.Res...)
	}
	add(func(c *cc) []Out { return rd(c, 1, true) }, "io.ReadFull")
	add(func(c *cc) []Out { return rd(c, 1, true) }, "(*os.File).ReadAt")
	add(func(c *cc) []Out { return rd(c, 1, false) }, "(*os.File).Read", "(*bufio.Reader).Read")
	add(func(c *cc) []Out { return rd(c, 1, c.args[2] == c.e.sliceLen(c.args[1])) }, "io.ReadAtLeast")
	slurp := func(c *cc) []Out {
		ts := argTypes(c.c, c.sig)
		ev := c.e.newEvent(c.fr, c.in, "call", c.name, c.args, ts, c.st, c.deferred)
		err := resTerm(ev, 1, errT)
		data := mk("rd", nil, "all", int64(ev.ID), mk("rdlen", intT, "", int64(ev.ID)*8+1))
		sl := c.e.newBytes(data, c.in)
		ev.Res = []*Term{sl, err}
		c.st.push(ev)
		return c.ret(sl, err)
	}
	add(slurp, "os.ReadFile", "io/ioutil.ReadFile", "io/ioutil.ReadAll", "io.ReadAll")
	add(func(c *cc) []Out {
		outs := c.event()
		c.fact(Ge0(outs[0].ret[0]))
		return outs
	}, "(*os.File).Seek", "io.CopyBuffer", "io.Copy", "io.CopyN")
	add(func(c *cc) []Out {
		outs := c.event()
		c.fact(Ge0(outs[0].ret[0]))
		c.fact(Le(outs[0].ret[0], c.e.sliceLen(c.args[1])))
		return outs
	}, "(*os.File).Write", "(*bufio.Writer).Write")
	add(func(c *cc) []Out { return c.ret(mk("fsize", types.Typ[types.Int64], "", 0, c.args[0])) }, "invoke (io/fs.FileInfo).Size", "invoke (os.FileInfo).Size")
	add(func(c *cc) []Out { return c.ret(mk("fisdir", boolT, "", 0, c.args[0])) }, "invoke (io/fs.FileInfo).IsDir", "invoke (os.FileInfo).IsDir")
	add(func(c *cc) []Out {
		// a Scanner keeps its reader; Scan delivers a line into it
		o := c.e.newObj(c.sig.Results().At(0).Type().(*types.Pointer).Elem(), false, -1, mk("scanner", nil, "", 0, c.args[0]), c.in)
		ts := argTypes(c.c, c.sig)
		ev := c.e.newEvent(c.fr, c.in, "call", c.name, c.args, ts, c.st, c.deferred)
		r := refOf(o)
		ev.Res = []*Term{r}
		c.st.push(ev)
		return c.ret(r)
	}, "bufio.NewScanner")
	add(func(c *cc) []Out {
		ts := argTypes(c.c, c.sig)
		ev := c.e.newEvent(c.fr, c.in, "call", c.name, c.args, ts, c.st, c.deferred)
		ok := resTerm(ev, 0, boolT)
		ev.Res = []*Term{ok}
		c.st.push(ev)
		c.e.store(c.st, c.args[0], mk("scanned", nil, "", int64(ev.ID)), nil)
		return c.ret(ok)
	}, "(*bufio.Scanner).Scan")
	cur := func(c *cc) *Term {
		v := c.e.load(c.st, c.args[0], nil)
		return mk("line", strT, "", 0, v)
	}
	add(func(c *cc) []Out { return c.ret(cur(c)) }, "(*bufio.Scanner).Text")
	add(func(c *cc) []Out { return c.ret(c.e.newBytes(cur(c), c.in)) }, "(*bufio.Scanner).Bytes")
	add(func(c *cc) []Out {
		ts := argTypes(c.c, c.sig)
		ev := c.e.newEvent(c.fr, c.in, "call", c.name, c.args, ts, c.st, c.deferred)
		// the same answer until the next Scan
		ev.Res = []*Term{mk("scanerr", errT, "", 0, c.e.load(c.st, c.args[0], nil))}
		c.st.push(ev)
		return c.ret(ev.Res...)
	}, "(*bufio.Scanner).Err")
	add(func(c *cc) []Out {
		ts := argTypes(c.c, c.sig)
		ev := c.e.newEvent(c.fr, c.in, "call", c.name, c.args, ts, c.st, c.deferred)
		c.st.push(ev)
		return c.ret()
	}, "(*bufio.Scanner).Buffer", "(*bufio.Scanner).Split")
	add(func(c *cc) []Out {
		return c.ret(mk("strreader", c.sig.Results().At(0).Type(), "", 0, c.args[0]))
	}, "strings.NewReader", "bytes.NewBufferString")
	add(func(c *cc) []Out {
		return c.ret(mk("strreader", c.sig.Results().At(0).Type(), "", 0, c.bytes(0)))
	}, "bytes.NewReader", "bytes.NewBuffer")

	// regular expressions
	add(func(c *cc) []Out {
		if x := c.args[0]; x.Op != "str" {
			c.e.oblige(c.fr, c.in, "argument of regexp.MustCompile", False, c.st)
		} else if _, err := regexp.Compile(x.S); err != nil {
			c.e.oblige(c.fr, c.in, "argument of regexp.MustCompile", False, c.st)
		}
		return c.ret(mk("regexp", c.sig.Results().At(0).Type(), "", 0, c.args[0]))
	}, "regexp.MustCompile")
	add(func(c *cc) []Out {
		// nil when there is no match, otherwise 1 + number of groups elements
		re, x := c.args[0], c.args[1]
		m := mk("match", types.NewSlice(strT), "", 0, re, x)
		if re.Op == "regexp" && re.Args[0].Op == "str" {
			g := groupCount(re.Args[0].S)
			c.fact(Ite(Eq(m, Nil), Eq0(mk("len", intT, "", 0, m)), Eq0(Sub(mk("len", intT, "", 0, m), Int(int64(1+g))))))
			groupLengths(c, re.Args[0].S, m)
		}
		return c.ret(m)
	}, "(*regexp.Regexp).FindStringSubmatch")
}

// groupLengths states what a match m of a constant pattern says of lengths:
// the match is made of the parts of the pattern, one after the other, so it is
// at least as long as the groups among them and the shortest of each other part.
func groupLengths(c *cc, pattern string, m *Term) {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return
	}
	parts := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		parts = re.Sub
	}
	group := func(i int) *Term { return SeqLen(ElemAt(Content(m), Int(int64(i)), strT)) }
	none := Eq(m, Nil)
	rest := group(0)
	for _, p := range parts {
		n := Int(int64(minLength(p)))
		if p.Op == syntax.OpCapture {
			c.fact(Ite(none, True, Ge0(Sub(group(p.Cap), n))))
			n = group(p.Cap)
		}
		rest = Sub(rest, n)
	}
	c.fact(Ite(none, True, Ge0(rest)))
}

// minLength is a lower bound of the bytes that re matches.
func minLength(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minLength(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * minLength(re.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range re.Sub {
			n += minLength(s)
		}
		return n
	case syntax.OpAlternate:
		n := minLength(re.Sub[0])
		for _, s := range re.Sub[1:] {
			n = min(n, minLength(s))
		}
		return n
	}
	return 0
}

func groupCount(re string) int {
	n := 0
	inCls := false
	for i := 0; i < len(re); i++ {
		switch re[i] {
		case '\\':
			i++
		case '[':
			inCls = true
		case ']':
			inCls = false
		case '(':
			if inCls {
				continue
			}
			if i+1 < len(re) && re[i+1] == '?' && !strings.HasPrefix(re[i:], "(?P<") {
				continue
			}
			n++
		}
	}
	return n
}

func nil2(c *cc) []Out {
	return one(c.st, c.e.pureCall(c.sig, c.name, c.args, c.st)...)
}
