package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C28
//
// Labels of values:
//   S       holds a secret (password, password hash, signing key)
//   K:k     a map (or form) whose entry k holds a secret; K:* some entry
//   RAW     the bytes of a whole user record
//   REC     a user record or request, printed in full when it is an argument of a print
//   CREC    a container that holds a user record behind a pointer
//   W       a writer to the outside: a response, standard output or error

type labels map[string]bool

type taintHit struct {
	ins  ssa.Instruction
	fn   *ssa.Function
	what string
}

type taintRes struct {
	val  map[any]labels // ssa.Value, or heldIn (content of a local)
	ret  []labels
	hits []taintHit
}

type taint struct {
	p       *Program
	c       *Check
	memo    map[[3]any]*taintRes
	fields  map[fieldKey]labels // struct fields that hold labelled values
	globals map[*ssa.Global]labels
	rets    map[*ssa.Function][]labels // labels of results that do not come from arguments
	changed bool
	impls   map[*types.Func][]*ssa.Function
	passLo  int64
	passHi  int64
	sinks   map[ssa.Instruction]bool
}

func hasLabels(l labels, ks ...string) bool {
	for _, k := range ks {
		if l[k] {
			return true
		}
	}
	return false
}

func secretKey(k string) bool {
	k = strings.ToLower(k)
	return strings.Contains(k, "pass") || strings.Contains(k, "pwd") || strings.Contains(k, "secret") || strings.Contains(k, "hash")
}

func isRaw(k string) bool { return k == "RAW" || strings.HasPrefix(k, "RAW@") }

func secretIn(l labels) bool {
	for k := range l {
		if k == "S" || isRaw(k) || strings.HasPrefix(k, "K:") {
			return true
		}
	}
	return false
}

func (t *taint) isUserec(ty types.Type) bool {
	u := t.p.Type("pttbbs", "Userec")
	r := t.p.Type("", "UserRecord")
	return u != nil && types.Identical(ty, u) || r != nil && types.Identical(ty, r)
}

func isRequest(ty types.Type) bool {
	return strings.TrimPrefix(ty.String(), "*") == "net/http.Request"
}

// recordByValue: printing a value of the type at the top level prints a whole record.
func (t *taint) recordByValue(ty types.Type, top bool, d int) bool {
	if d > 6 {
		return false
	}
	if t.isUserec(ty) {
		_, isI := ty.Underlying().(*types.Interface)
		return !isI || top
	}
	if isRequest(ty) {
		_, ptr := ty.(*types.Pointer)
		return !ptr || top
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		return top && t.recordByValue(u.Elem(), true, d+1)
	case *types.Slice:
		return t.recordByValue(u.Elem(), false, d+1)
	case *types.Array:
		return t.recordByValue(u.Elem(), false, d+1)
	case *types.Map:
		return t.recordByValue(u.Elem(), false, d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if t.fieldSecret(ty, i) || t.recordByValue(u.Field(i).Type(), false, d+1) {
				return true
			}
		}
	}
	return false
}

func (t *taint) fieldSecret(st types.Type, i int) bool {
	l := t.fields[fieldKey{st, i}]
	return secretIn(l)
}

// recordAnywhere: an encoder that follows pointers writes a whole record.
func (t *taint) recordAnywhere(ty types.Type, d int) bool {
	if d > 6 {
		return false
	}
	if t.isUserec(ty) || isRequest(ty) {
		return true
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		return t.recordAnywhere(u.Elem(), d+1)
	case *types.Slice:
		return t.recordAnywhere(u.Elem(), d+1)
	case *types.Array:
		return t.recordAnywhere(u.Elem(), d+1)
	case *types.Map:
		return t.recordAnywhere(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && (t.fieldSecret(ty, i) || t.recordAnywhere(u.Field(i).Type(), d+1)) {
				return true
			}
		}
	}
	return false
}

func (t *taint) implementers(m *types.Func) []*ssa.Function {
	if o, ok := t.impls[m]; ok {
		return o
	}
	var out []*ssa.Function
	sig := m.Type().(*types.Signature)
	ifc, ok := sig.Recv().Type().Underlying().(*types.Interface)
	if ok {
		for _, path := range sortedKeysS(t.p.ByPkg) {
			sp := t.p.ByPkg[path]
			for _, n := range sortedKeysS(sp.Members) {
				ty, ok := sp.Members[n].(*ssa.Type)
				if !ok {
					continue
				}
				if _, isI := ty.Type().Underlying().(*types.Interface); isI {
					continue
				}
				pt := types.NewPointer(ty.Type())
				if !types.Implements(pt, ifc) {
					continue
				}
				if sel := t.p.SSA.MethodSets.MethodSet(pt).Lookup(m.Pkg(), m.Name()); sel != nil {
					if f := t.p.SSA.MethodValue(sel); f != nil && f.Blocks != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	t.impls[m] = out
	return out
}

func constStr(v ssa.Value) (string, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	return "", false
}

func constI(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		n, ok := constant.Int64Val(k.Value)
		return n, ok
	}
	return 0, false
}

type taintRun struct {
	*taint
	fn      *ssa.Function
	res     *taintRes
	changed bool
	direct  bool
	hitSeen map[[2]any]bool
}

// run follows labels through one function. seed is the labelled parameter or
// free variable, or nil for the function's own sources.
func (t *taint) run(fn *ssa.Function, seed ssa.Value, lab string) *taintRes {
	key := [3]any{fn, seed, lab}
	if m := t.memo[key]; m != nil {
		return m
	}
	res := &taintRes{val: map[any]labels{}, ret: make([]labels, fn.Signature.Results().Len())}
	for i := range res.ret {
		res.ret[i] = labels{}
	}
	t.memo[key] = res
	r := &taintRun{taint: t, fn: fn, res: res, direct: seed == nil, hitSeen: map[[2]any]bool{}}
	if seed != nil {
		r.add(seed, lab)
	}
	for n := 0; n < 60; n++ {
		r.changed = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				r.step(ins)
			}
		}
		if !r.changed {
			break
		}
	}
	return res
}

func (r *taintRun) get(v any) labels {
	if v == nil {
		return nil
	}
	if vv, ok := v.(ssa.Value); ok {
		switch x := vv.(type) {
		case *ssa.Const:
			if s, ok := constStr(x); ok && strings.Contains(s, "PRIVATE KEY") && r.direct {
				return labels{"S": true}
			}
			return nil
		case *ssa.Global:
			return r.globals[x]
		}
	}
	return r.res.val[v]
}

func (r *taintRun) add(v any, ks ...string) {
	l := r.res.val[v]
	for _, k := range ks {
		if !l[k] {
			if l == nil {
				l = labels{}
				r.res.val[v] = l
			}
			l[k] = true
			r.changed = true
		}
	}
}

func (r *taintRun) addAll(v any, l labels) {
	for k := range l {
		r.add(v, k)
	}
}

// pour marks the storage a value lives in: aliases backwards to the roots.
func (r *taintRun) pour(v ssa.Value, ks labels, d int) {
	if len(ks) == 0 || d > 12 {
		return
	}
	switch x := v.(type) {
	case *ssa.Global:
		l := r.globals[x]
		if l == nil {
			l = labels{}
			r.globals[x] = l
		}
		for k := range ks {
			if !l[k] {
				l[k] = true
				r.taint.changed = true
				r.changed = true
			}
		}
	case *ssa.Slice:
		r.addAll(v, ks)
		r.pour(x.X, ks, d+1)
	case *ssa.Phi:
		if r.subset(v, ks) {
			return
		}
		r.addAll(v, ks)
		for _, e := range x.Edges {
			r.pour(e, ks, d+1)
		}
	case *ssa.UnOp:
		r.addAll(v, ks)
		if x.Op == token.MUL {
			r.store(x.X, ks, d+1)
		}
	case *ssa.ChangeType:
		r.addAll(v, ks)
		r.pour(x.X, ks, d+1)
	case *ssa.MakeInterface:
		r.addAll(v, ks)
		r.pour(x.X, ks, d+1)
	case *ssa.FieldAddr:
		r.store(x, ks, d+1)
	case *ssa.Alloc:
		r.addAll(heldIn{x}, ks)
		r.addAll(v, ks)
	default:
		r.addAll(v, ks)
	}
}

func (r *taintRun) subset(v any, ks labels) bool {
	l := r.get(v)
	for k := range ks {
		if !l[k] {
			return false
		}
	}
	return true
}

// store puts labels at an address.
func (r *taintRun) store(addr ssa.Value, ks labels, d int) {
	if len(ks) == 0 {
		return
	}
	switch a := addr.(type) {
	case *ssa.Alloc:
		r.addAll(heldIn{a}, ks)
	case *ssa.Global:
		r.pour(a, ks, d)
	case *ssa.FieldAddr:
		k := fieldKey{structOfPtr(a.X.Type()), a.Field}
		l := r.fields[k]
		if l == nil {
			l = labels{}
			r.fields[k] = l
		}
		for x := range ks {
			if !l[x] {
				l[x] = true
				r.taint.changed = true
				r.changed = true
			}
		}
	case *ssa.IndexAddr:
		l := labels{}
		va := false
		if al, ok := a.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
			va = true
		}
		for k := range ks {
			switch {
			case k == "REC" && !va:
				l["CREC"] = true
			case k == "W":
			default:
				l[k] = true
			}
		}
		r.pour(a.X, l, d+1)
	case *ssa.Phi:
		for _, e := range a.Edges {
			if d < 10 {
				r.store(e, ks, d+1)
			}
		}
	default:
		r.addAll(addr, ks)
	}
}

func content(l labels) labels {
	out := labels{}
	for k := range l {
		if k == "CREC" {
			continue
		}
		if strings.HasPrefix(k, "K:") {
			k = "S"
		}
		out[k] = true
	}
	return out
}

func (r *taintRun) hit(ins ssa.Instruction, what string) {
	k := [2]any{ins, what}
	if !r.hitSeen[k] {
		r.hitSeen[k] = true
		r.res.hits = append(r.res.hits, taintHit{ins, r.fn, what})
	}
}

func (r *taintRun) merge(o *taintRes) {
	for _, h := range o.hits {
		k := [2]any{h.ins, h.what}
		if !r.hitSeen[k] {
			r.hitSeen[k] = true
			r.res.hits = append(r.res.hits, h)
		}
	}
}

func (r *taintRun) step(ins ssa.Instruction) {
	// writers by type
	if v, ok := ins.(ssa.Value); ok && r.direct && v.Type() != nil {
		if v.Type().String() == "net/http.ResponseWriter" {
			r.add(v, "W")
		}
	}
	switch x := ins.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			r.addAll(x, r.get(e))
		}
	case *ssa.ChangeType:
		r.addAll(x, r.get(x.X))
	case *ssa.ChangeInterface:
		r.addAll(x, r.get(x.X))
		if r.direct && r.isUserec(x.X.Type()) {
			r.add(x, "REC")
		}
	case *ssa.Convert:
		r.addAll(x, r.get(x.X))
	case *ssa.MakeInterface:
		r.addAll(x, r.get(x.X))
		if r.direct {
			ty := x.X.Type()
			if r.recordByValue(ty, true, 0) && !types.Identical(x.Type().Underlying(), ty.Underlying()) {
				if _, isIface := x.Type().Underlying().(*types.Interface); isIface {
					r.add(x, "REC")
				}
			} else if r.recordAnywhere(ty, 0) {
				r.add(x, "CREC")
			}
		}
	case *ssa.TypeAssert:
		r.addAll(x, r.get(x.X))
	case *ssa.Extract:
		if l := r.get(tupleKey{x.Tuple, x.Index}); l != nil {
			r.addAll(x, l)
		}
		switch x.Tuple.(type) {
		case *ssa.TypeAssert, *ssa.Lookup:
			if x.Index == 0 {
				r.addAll(x, r.get(x.Tuple))
			}
		case *ssa.Next:
			r.addAll(x, content(r.get(x.Tuple)))
		}
	case *ssa.Slice:
		l := r.get(x.X)
		if al, ok := x.X.(*ssa.Alloc); ok {
			r.addAll(x, r.get(heldIn{al}))
		}
		for k := range l {
			at, raw := rawAt(k)
			if !raw {
				r.add(x, k)
				continue
			}
			lo, ok1 := constI(x.Low)
			if x.Low == nil {
				lo, ok1 = 0, true
			}
			hi, ok2 := constI(x.High)
			lo, hi = lo+at, hi+at
			switch {
			case ok1 && x.High == nil && lo == 0:
				r.add(x, "RAW")
			case ok1 && x.High == nil && lo < r.passHi:
				r.add(x, "RAW@"+strconv.FormatInt(lo, 10))
			case ok1 && ok2 && (hi <= r.passLo || lo >= r.passHi):
			case ok1 && ok2 && hi-lo > 64:
				r.add(x, "RAW")
			case ok1 && x.High == nil && lo >= r.passHi:
			default:
				r.add(x, "S")
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				r.addAll(x, r.get(x.X))
				r.addAll(x, r.get(x.Y))
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			r.addAll(x, r.get(heldIn{a}))
		case *ssa.Global:
			r.addAll(x, r.globals[a])
			if r.direct && (a.String() == "os.Stdout" || a.String() == "os.Stderr") {
				r.add(x, "W")
			}
		case *ssa.FieldAddr:
			if r.direct {
				r.addAll(x, r.fields[fieldKey{structOfPtr(a.X.Type()), a.Field}])
				if l := requestField(structOfPtr(a.X.Type()), a.Field); l != "" {
					r.add(x, l)
				}
			}
			r.addAll(x, content(r.get(a.X)))
		case *ssa.IndexAddr:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
				return // single bytes and numbers are not followed
			}
			r.addAll(x, content(r.get(a.X)))
			if al, ok := a.X.(*ssa.Alloc); ok {
				r.addAll(x, content(r.get(heldIn{al})))
			}
		default:
			r.addAll(x, content(r.get(x.X)))
		}
	case *ssa.Field:
		if r.direct {
			r.addAll(x, r.fields[fieldKey{x.X.Type(), x.Field}])
		}
		if hasLabels(r.get(x.X), "S") {
			r.add(x, "S")
		}
	case *ssa.FieldAddr:
		if hasLabels(r.get(x.X), "S") {
			r.add(x, "S")
		}
	case *ssa.Index:
		r.addAll(x, content(r.get(x.X)))
	case *ssa.Lookup:
		r.lookup(x, x.X, x.Index)
	case *ssa.Range:
		r.addAll(x, r.get(x.X))
	case *ssa.Next:
		r.addAll(x, r.get(x.Iter))
	case *ssa.MapUpdate:
		l := labels{}
		key := "*"
		if k, ok := constStr(x.Key); ok {
			key = k
		}
		for k := range r.get(x.Value) {
			switch {
			case k == "REC" || k == "CREC":
				l["CREC"] = true
			case k == "W":
			default:
				l["K:"+key] = true
			}
		}
		if hasLabels(r.get(x.Key), "S") {
			l["K:*"] = true
		}
		r.pour(x.Map, l, 0)
	case *ssa.Store:
		r.store(x.Addr, r.get(x.Val), 0)
	case *ssa.MakeClosure:
		cf := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			for k := range r.get(b) {
				r.merge(r.run(cf, cf.FreeVars[i], k))
			}
			if al, ok := b.(*ssa.Alloc); ok {
				for k := range r.get(heldIn{al}) {
					r.merge(r.run(cf, cf.FreeVars[i], k))
				}
			}
		}
	case *ssa.Panic:
		if secretIn(r.get(x.X)) || hasLabels(r.get(x.X), "REC") {
			r.hit(x, "a panic prints it")
		}
	case *ssa.Return:
		for i, v := range x.Results {
			for k := range r.get(v) {
				if !r.res.ret[i][k] && k != "REC" {
					r.res.ret[i][k] = true
					r.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		r.call(x)
	}
}

type tupleKey struct {
	v ssa.Value
	i int
}

func requestField(st types.Type, i int) string {
	if st.String() != "net/http.Request" && st.String() != "net/url.URL" {
		return ""
	}
	switch n := structOf(st).Field(i).Name(); n {
	case "Form", "PostForm":
		return "K:password"
	case "Body", "RequestURI", "RawQuery", "MultipartForm":
		return "S"
	}
	return ""
}

func (r *taintRun) lookup(x ssa.Value, m, key ssa.Value) {
	l := r.get(m)
	for k := range l {
		switch {
		case k == "S" || isRaw(k):
			r.add(x, "S")
		case k == "CREC":
			if r.isUserec(x.Type()) {
				r.add(x, "CREC")
			}
		case strings.HasPrefix(k, "K:"):
			ks, isC := constStr(key)
			if !isC || k == "K:*" || k == "K:"+ks || k == "K:password" && secretKey(ks) {
				r.add(x, "S")
			}
		}
	}
}

func (r *taintRun) setRes(call *ssa.Call, i int, ks labels) {
	if call == nil || len(ks) == 0 {
		return
	}
	if call.Call.Signature().Results().Len() == 1 {
		r.addAll(call, ks)
		return
	}
	r.addAll(tupleKey{call, i}, ks)
}

func (r *taintRun) call(x ssa.CallInstruction) {
	cc := x.Common()
	call, _ := x.(*ssa.Call)
	res := cc.Signature().Results()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if call != nil {
				r.addAll(call, r.get(cc.Args[0]))
				if len(cc.Args) > 1 {
					r.addAll(call, r.get(cc.Args[1]))
				}
			}
		case "copy":
			l := labels{}
			for k := range r.get(cc.Args[1]) {
				l[k] = true
			}
			if cc.Args[1] != nil {
				r.pour(cc.Args[0], l, 0)
			}
		case "print", "println":
			for _, a := range cc.Args {
				if secretIn(r.get(a)) {
					r.hit(x, b.Name())
				}
			}
		}
		return
	}
	args := cc.Args
	name := ""
	var callees []*ssa.Function
	var recv ssa.Value
	ext := (*ssa.Function)(nil)
	if cc.IsInvoke() {
		name = cc.Method.Name()
		callees = r.implementers(cc.Method)
		recv = cc.Value
	} else if f := cc.StaticCallee(); f != nil {
		name = f.Name()
		if f.Signature.Recv() != nil && len(args) > 0 {
			recv = args[0]
		}
		if pk := rootPkg(f); pk != nil && isMinePath(pk.Pkg.Path()) && f.Blocks != nil {
			callees = []*ssa.Function{f}
		} else {
			ext = f
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		callees = []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	// the sources
	if r.direct {
		r.sources(x, call, name, recv)
	}
	// the sinks
	r.sink(x, name, recv, ext, cc)
	for _, f := range callees {
		off := 0
		if cc.IsInvoke() {
			off = 1
			for k := range r.get(recv) {
				if k != "REC" && k != "CREC" && len(f.Params) > 0 {
					r.apply(call, r.run(f, f.Params[0], k))
				}
			}
		}
		for i, a := range args {
			if i+off >= len(f.Params) {
				break
			}
			for k := range r.get(a) {
				r.apply(call, r.run(f, f.Params[i+off], k))
			}
		}
		if r.direct {
			for i, l := range r.rets[f] {
				r.setRes(call, i, l)
			}
		}
	}
	if len(callees) > 0 {
		return
	}
	// external functions
	if cc.IsInvoke() {
		// methods of a labelled value (error texts, readers)
		for k := range r.get(recv) {
			if k == "S" || isRaw(k) || strings.HasPrefix(k, "K:") {
				for i := 0; i < res.Len(); i++ {
					r.setRes(call, i, labels{"S": true})
				}
				// readers fill their argument
				for _, a := range args {
					if _, ok := a.Type().Underlying().(*types.Slice); ok {
						r.pour(a, labels{"S": true}, 0)
					}
				}
			}
		}
		// writers keep what they are given
		if strings.HasPrefix(name, "Write") && len(args) > 0 && secretIn(r.get(args[0])) {
			r.pour(recv, labels{"S": true}, 0)
		}
		return
	}
	if ext == nil {
		return
	}
	full := ext.String()
	pkg := ""
	if ext.Pkg != nil {
		pkg = ext.Pkg.Pkg.Path()
	}
	var all labels = labels{}
	for i, a := range args {
		for k := range r.get(a) {
			if i == 0 && recv != nil && (strings.HasSuffix(full, ").Get") || strings.HasSuffix(full, ").Has")) && strings.HasPrefix(k, "K:") {
				continue
			}
			if full == "(*github.com/golang-jwt/jwt.Token).SignedString" && i == 1 {
				continue
			}
			all[k] = true
		}
		if a.Type() != nil && r.direct && (pkg == "encoding/json" || pkg == "encoding/xml" || pkg == "encoding/gob" || strings.HasPrefix(pkg, "net/http/httputil")) {
			if r.recordAnywhere(a.Type(), 0) {
				all["S"] = true
			}
		}
		// structs with a secret field handed over by reference
		if p, ok := a.Type().Underlying().(*types.Pointer); ok && r.direct {
			if st, ok := p.Elem().Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if r.fieldSecret(p.Elem(), j) {
						all["S"] = true
					}
				}
			}
		}
		if mi, ok := a.(*ssa.MakeInterface); ok && r.direct {
			if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
				if st, ok := p.Elem().Underlying().(*types.Struct); ok {
					for j := 0; j < st.NumFields(); j++ {
						if r.fieldSecret(p.Elem(), j) {
							all["S"] = true
						}
					}
				}
			}
		}
	}
	if strings.HasSuffix(full, "url.Values).Get") && call != nil && len(args) > 1 {
		r.lookup(call, args[0], args[1])
	}
	secret := secretIn(all)
	deep := pkg == "encoding/json" || pkg == "encoding/xml" || pkg == "encoding/gob"
	if hasLabels(all, "REC") && (pkg == "fmt" || deep) || deep && hasLabels(all, "CREC") {
		secret = true
	}
	if secret {
		carries := recv != nil && secretIn(r.get(recv))
		switch pkg {
		case "fmt", "strings", "bytes", "strconv", "errors", "encoding/json", "encoding/xml", "encoding/hex", "encoding/base64", "encoding/gob", "net/url", "io", "bufio", "html", "regexp", "path", "path/filepath", "unicode/utf8", "net/http/httputil", "golang.org/x/text/transform", "golang.org/x/text/encoding", "slices", "maps", "context", "text/template", "net/http":
			carries = true
		}
		if strings.Contains(pkg, "jwt") || strings.Contains(pkg, "crypto/") {
			carries = carries || strings.HasPrefix(name, "Parse") || strings.HasPrefix(name, "New") || all["S"] && name == "SignedString"
		}
		if carries {
			for i := 0; i < res.Len(); i++ {
				if isErrorType(res.At(i).Type()) && pkg != "fmt" && pkg != "errors" {
					continue
				}
				if !holdsText(res.At(i).Type()) {
					continue
				}
				r.setRes(call, i, labels{"S": true})
			}
		}
		// builders and buffers keep what they are given; decoders fill their targets
		if recv != nil && (strings.HasPrefix(name, "Write") || name == "Encode") {
			r.pour(recv, labels{"S": true}, 0)
		}
		if (pkg == "fmt" && strings.HasPrefix(name, "Fprint") || pkg == "io" && strings.HasPrefix(name, "Write")) && len(args) > 0 {
			if !hasLabels(r.get(args[0]), "W") {
				r.pour(args[0], labels{"S": true}, 0)
			}
		}
		if name == "Decode" || name == "Unmarshal" || strings.HasPrefix(name, "Sscan") || name == "ReadFull" || name == "Read" {
			for i, a := range args {
				if i > 0 && !secretIn(r.get(a)) {
					r.pour(a, labels{"S": true}, 0)
				}
			}
		}
	}
	// writers made from writers to the outside
	if hasLabels(all, "W") && call != nil && (strings.HasPrefix(name, "New") || strings.HasPrefix(name, "MultiWriter")) {
		r.add(call, "W")
	}
}

func holdsText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return true
}

func (r *taintRun) apply(call *ssa.Call, o *taintRes) {
	r.merge(o)
	for i, l := range o.ret {
		r.setRes(call, i, l)
	}
}

func (r *taintRun) sources(x ssa.CallInstruction, call *ssa.Call, name string, recv ssa.Value) {
	if call == nil {
		return
	}
	cc := x.Common()
	rt := ""
	if recv != nil {
		rt = recv.Type().String()
	}
	switch name {
	case "FormValue", "PostFormValue":
		if rt == "*net/http.Request" {
			k, ok := constStr(cc.Args[len(cc.Args)-1])
			if !ok || secretKey(k) {
				r.add(call, "S")
			}
		}
	case "BasicAuth":
		r.add(tupleKey{call, 1}, "S")
	case "HashedPassword":
		r.add(call, "S")
	case "Query":
		if rt == "*net/url.URL" {
			r.add(call, "K:password")
		}
	case "String", "RequestURI":
		if rt == "*net/url.URL" {
			r.add(call, "S")
		}
	case "Encode":
		if strings.HasSuffix(rt, "url.Values") && secretIn(r.get(recv)) {
			r.add(call, "S")
		}
	}
	if f := cc.StaticCallee(); f != nil {
		// decoding or encoding whole user records
		if pk := rootPkg(f); pk != nil && isMinePath(pk.Pkg.Path()) {
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if !r.isUserec(derefType(res.At(i).Type())) {
					continue
				}
				for _, a := range cc.Args {
					if isBytesT(a.Type()) && !r.get(a)["RAW"] {
						r.pour(a, labels{"RAW": true}, 0)
					}
				}
			}
			if recv != nil && r.isUserec(derefType(recv.Type())) && strings.HasPrefix(name, "Marshal") && res.Len() > 0 && isBytesT(res.At(0).Type()) {
				r.setRes(call, 0, labels{"RAW": true})
			}
			if fnKey(f) == "bbs/crypt.Fcrypt" {
				r.setRes(call, 0, labels{"S": true})
			}
		}
	}
}

func (r *taintRun) sink(x ssa.CallInstruction, name string, recv ssa.Value, ext *ssa.Function, cc *ssa.CallCommon) {
	args := cc.Args
	full := ""
	if ext != nil {
		full = ext.String()
	}
	where := ""
	deep := false
	switch {
	case strings.HasPrefix(full, "log.") || strings.HasPrefix(full, "(*log.Logger)."), strings.HasPrefix(full, "log/slog.") || strings.HasPrefix(full, "(*log/slog.Logger)."):
		where = "the log"
	case strings.HasPrefix(full, "fmt.Print"):
		where = "standard output"
	case strings.HasPrefix(full, "fmt.Fprint"), full == "io.WriteString", full == "io.Copy":
		if len(args) > 0 && r.outside(args[0]) {
			where = "an output"
			args = args[1:]
		}
	case full == "net/http.Error" || full == "net/http.Redirect":
		where = "the response"
		args = args[1:]
	case strings.HasPrefix(full, "(net/http.Header).") && (name == "Set" || name == "Add"):
		where = "a header"
		args = args[1:]
	case full == "net/http.SetCookie":
		where = "a cookie"
	case full == "os.Exit":
	case recv != nil && (strings.HasPrefix(name, "Write") || name == "Encode" || name == "Execute"):
		if cc.IsInvoke() {
			if r.outside(recv) {
				where = "the response"
			}
		} else if hasLabels(r.get(recv), "W") {
			where = "an output"
			args = args[1:]
		}
		deep = name == "Encode"
	}
	if where == "" {
		return
	}
	if r.direct {
		r.sinks[x] = true
	}
	for _, a := range args {
		l := r.get(a)
		if secretIn(l) || hasLabels(l, "REC") || deep && hasLabels(l, "CREC") {
			kind := "a password, password hash or signing key"
			if !secretIn(l) {
				kind = "a whole user record or request"
			}
			r.hit(x, kind+" reaches "+where)
		}
		if ty := a.Type(); r.direct {
			if _, isI := ty.Underlying().(*types.Interface); isI && r.isUserec(ty) {
				r.hit(x, "a whole user record reaches "+where)
			}
		}
	}
}

// outside: the writer may be a response or standard output.
func (r *taintRun) outside(w ssa.Value) bool {
	if hasLabels(r.get(w), "W") || w.Type().String() == "net/http.ResponseWriter" {
		return true
	}
	for {
		switch x := w.(type) {
		case *ssa.MakeInterface:
			w = x.X
			continue
		case *ssa.ChangeInterface:
			w = x.X
			continue
		}
		break
	}
	return hasLabels(r.get(w), "W") || w.Type().String() == "net/http.ResponseWriter"
}

// callees lists a function, its closures and the functions of the module they
// call directly.
func callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || rootPkg(f) == nil || !isMinePath(rootPkg(f).Pkg.Path()) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
				}
			}
		}
	}
	walk(fn)
	return out
}

// rawAt tells whether a label is that of the bytes of a user record, from
// which one on.
func rawAt(k string) (int64, bool) {
	if k == "RAW" {
		return 0, true
	}
	if strings.HasPrefix(k, "RAW@") {
		n, err := strconv.ParseInt(k[4:], 10, 64)
		return n, err == nil
	}
	return 0, false
}

func runC28(c *Check) {
	t := &taint{p: c.p, c: c, fields: map[fieldKey]labels{}, globals: map[*ssa.Global]labels{}, rets: map[*ssa.Function][]labels{}, impls: map[*types.Func][]*ssa.Function{}, sinks: map[ssa.Instruction]bool{}}
	for _, a := range passwdCodec().attrs {
		if a.acc == "HashedPassword" {
			t.passLo, t.passHi = int64(a.off), int64(a.off+a.w)
		}
	}
	c.ob(t.passHi > t.passLo, "anchor", "the stored hash's place in a user record", token.NoPos, "unknown")
	// fields that hold the stored hash
	n := 0
	for _, fn := range c.p.Funcs {
		if fn.Name() != "HashedPassword" {
			continue
		}
		if fn.Signature.Recv() == nil {
			continue
		}
		// of the record, in the method, its closures and the functions it calls
		rec := structOfPtr(fn.Signature.Recv().Type())
		for _, g := range callees(fn) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if fa, ok := ins.(*ssa.FieldAddr); ok && types.Identical(structOfPtr(fa.X.Type()), rec) {
						t.fields[fieldKey{structOfPtr(fa.X.Type()), fa.Field}] = labels{"S": true}
						n++
					}
				}
			}
		}
	}
	c.ob(n > 0, "anchor", "the field of the stored hash", token.NoPos, "no method HashedPassword reads a field")
	var hits []taintHit
	for round := 0; round < 12; round++ {
		t.memo = map[[3]any]*taintRes{}
		t.changed = false
		hits = nil
		seen := map[[2]any]bool{}
		addHits := func(o *taintRes) {
			for _, h := range o.hits {
				k := [2]any{h.ins, h.what}
				if !seen[k] {
					seen[k] = true
					hits = append(hits, h)
				}
			}
		}
		for _, fn := range c.p.Funcs {
			c.funcs[fn] = true
			o := t.run(fn, nil, "")
			addHits(o)
			old := t.rets[fn]
			for i, l := range o.ret {
				for k := range l {
					if old == nil || !old[i][k] {
						t.changed = true
					}
				}
			}
			t.rets[fn] = o.ret
			// parameters that are passwords, hashes or keys
			for i, p := range fn.Params {
				sec := false
				nm := strings.ToLower(p.Name())
				if b, ok := p.Type().Underlying().(*types.Basic); (ok && b.Info()&types.IsString != 0) || isBytesT(p.Type()) {
					sec = nm == "password" || nm == "passwd" || nm == "pwd"
					if fn.Name() == "VerifyPassword" && fn.Signature.Recv() != nil && i == 1 {
						sec = true
					}
					if fnKey(fn) == "bbs/crypt.Fcrypt" {
						sec = true
					}
				}
				if sec {
					addHits(t.run(fn, p, "S"))
				}
			}
		}
		if !t.changed {
			break
		}
	}
	bad := map[ssa.Instruction]bool{}
	sort.SliceStable(hits, func(i, j int) bool { return hits[i].ins.Pos() < hits[j].ins.Pos() })
	for _, h := range hits {
		bad[h.ins] = true
		c.ob(false, "no secret reaches an output", fnKey(h.ins.Parent()), h.ins.Pos(), "%s", h.what)
	}
	var ss []ssa.Instruction
	for s := range t.sinks {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].Pos() < ss[j].Pos() })
	per := map[*ssa.Function]int{}
	for _, s := range ss {
		if !bad[s] {
			per[s.Parent()]++
			c.ob(true, "no secret reaches an output", fnKey(s.Parent()), s.Pos(), "")
		}
	}
	c.notes = append(c.notes, "output sites examined: "+itoa(len(ss)))
	c.ob(len(ss) >= 60, "coverage", "output sites", token.NoPos, "only %d output sites found", len(ss))
}

func itoa(n int) string { return Int(int64(n)).String() }

func init() {
	checks["C28"] = checkDef{run: runC28, min: 30, rule: "interprocedural taint analysis over every function of the repository: request passwords, password arguments, stored hashes, whole user records and requests, user record bytes (except ranges without the hash), results of Fcrypt and private key text are followed through calls, interface dispatch, containers (by constant key), struct fields, errors, formatting and encoders to every log, print, response and standard output site"}
}
