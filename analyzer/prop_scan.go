package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C29

// terminators end the process or the goroutine.
func terminator(full string) bool {
	switch full {
	case "os.Exit", "syscall.Exit", "syscall.Kill", "runtime.Goexit", "runtime.Breakpoint", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return strings.HasPrefix(full, "(*log.Logger).Fatal") || strings.HasPrefix(full, "(*log.Logger).Panic") || full == "(*os.Process).Kill" || full == "(*os.Process).Signal"
}

func (c *Check) libFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.p.Funcs {
		if r := rootPkg(fn); r != nil && libPkgs[relPkg(r.Pkg.Path())] {
			out = append(out, fn)
		}
	}
	return out
}

func rootPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
	}
	return nil
}

func init() {
	checks["C29"] = checkDef{run: runC29, min: 150, rule: "every instruction of every function, closure and initialiser of the library packages: no explicit panic, no use (call, defer, go or as a value) of a function that ends the process or the goroutine, no Must* helper on anything but a constant that is well formed"}
	checks["C21"] = checkDef{run: runC21, min: 60, rule: "for every package-level variable of the library packages: all values that refer to its storage are followed through the whole program (calls, closures, returns, struct fields); outside initialisation every write happens under a lock (must-held-lock dataflow) that every other access holds too; no method of a database or driver other than Open writes through its receiver"}
	checks["C22"] = checkDef{run: runC22, min: 60, rule: "value-graph of bbs.Open: when the driver implements ConnectorFactory the connector that is opened and kept in the database is the result of NewConnector; every driver the library registers implements it and returns an object it just made that refers to nothing shared; no operation of a connector or database but Open stores into its receiver; no operation of a connector depends on or changes a package-level variable that changes after start-up; no library function changes the working directory or environment of the process"}
}

func runC29(c *Check) {
	for _, fn := range c.libFuncs() {
		c.funcs[fn] = true
		bad := 0
		flag := func(pos token.Pos, what string) {
			bad++
			c.ob(false, "never terminates", fnKey(fn), pos, "%s", what)
		}
		for _, b := range fn.Blocks {
			if b == fn.Recover {
				continue
			}
			for _, ins := range b.Instrs {
				if p, ok := ins.(*ssa.Panic); ok {
					flag(p.Pos(), "an explicit panic")
				}
				var ops [12]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if terminator(f.String()) {
						flag(ins.Pos(), "uses "+f.String())
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					f := ci.Common().StaticCallee()
					if b, isB := ci.Common().Value.(*ssa.Builtin); isB && b.Name() == "panic" {
						flag(ins.Pos(), "an explicit panic")
					}
					if f != nil && f.Pkg != nil && !isMinePath(f.Pkg.Pkg.Path()) && strings.HasPrefix(f.Name(), "Must") {
						good := false
						if f.Pkg.Pkg.Path() == "regexp" && len(ci.Common().Args) == 1 {
							if k, ok := ci.Common().Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
								_, err := regexp.Compile(constant.StringVal(k.Value))
								good = err == nil
							}
						}
						if !good {
							flag(ins.Pos(), f.String()+" panics on a value that is not a well-formed constant")
						}
					}
				}
			}
		}
		if bad == 0 {
			c.ob(true, "never terminates", fnKey(fn), fnPos(fn), "")
		}
	}
}

// ---------------------------------------------------------------- C21

type access struct {
	ins   ssa.Instruction
	fn    *ssa.Function
	write bool
	what  string
}

// refFlow follows references to a piece of storage.
type refFlow struct {
	p        *Program
	memo     map[[2]any]*flowRes
	callers  map[*ssa.Function][]ssa.CallInstruction
	taken    map[*ssa.Function]bool
	fieldIn  map[fieldKey]bool // fields that hold a reference to the storage
	fieldNew bool
	// a buffer made of a slice appends to that slice
	ownBuffers bool
}

type fieldKey struct {
	st  types.Type
	idx int
}

type flowRes struct {
	vals map[ssa.Value]bool
	ret  bool
	acc  []access
	done bool
}

func newRefFlow(p *Program) *refFlow {
	r := &refFlow{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := ins.(ssa.CallInstruction); ok {
					callee = ci.Common().StaticCallee()
					if callee != nil {
						r.callers[callee] = append(r.callers[callee], ci)
					}
				}
				var ops [12]*ssa.Value
				for i, op := range ins.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if _, isCall := ins.(ssa.CallInstruction); isCall && i == 0 && f == callee {
							continue
						}
						if _, isMC := ins.(*ssa.MakeClosure); isMC && i == 0 {
							continue
						}
						r.taken[f] = true
					}
				}
			}
		}
	}
	return r
}

// refType tells whether values of the type refer to storage.
func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	}
	return false
}

// safeType: values of the type may be used by several goroutines at once.
func safeType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "log", "net/http", "reflect", "os":
		return true
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "regexp.Regexp", "errors.errorString", "time.Location", "strings.Replacer", "go/token.FileSet":
		return true
	}
	return false
}

// extCall classifies what an external function does with a reference it is given.
func extWrites(f *ssa.Function, i int, a ssa.Value) bool {
	if f != nil && f.Origin() != nil {
		f = f.Origin()
	}
	if f == nil || f.Pkg == nil {
		return false
	}
	path, name := f.Pkg.Pkg.Path(), f.Name()
	if safeType(a.Type()) {
		return false
	}
	method := f.Signature.Recv() != nil
	has := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	}
	switch path {
	case "fmt", "errors", "log", "unicode/utf8", "strings", "strconv", "math/bits", "reflect", "encoding/json", "path/filepath", "path", "hash/fnv", "time":
		switch {
		case has("Append") && !method, path == "unicode/utf8" && has("Encode"):
			return i == 0
		case has("Unmarshal") && path == "encoding/json" && !method:
			return i == 1
		}
		return has("Sscan", "Unmarshal") || name == "Compact" || name == "Indent"
	case "sort", "slices":
		return !has("Search", "Is", "SliceIsSorted", "Index", "Contains", "Clone", "Equal", "Compare", "BinarySearch", "Max", "Min", "Concat", "All", "Values", "Backward", "Chunk", "Repeat", "Clip", "Grow")
	case "maps":
		return i == 0 && (name == "Copy" || name == "Insert" || name == "DeleteFunc")
	}
	switch a.Type().Underlying().(type) {
	case *types.Slice:
		switch {
		case path == "io" && has("Read"), path == "encoding/binary" && has("Put", "Append", "Encode"),
			strings.Contains(name, "Read") && method && i > 0, path == "crypto/rand", path == "encoding/hex" && i == 0 && has("Encode", "Decode", "Append"),
			path == "encoding/base64" && i == 1 && has("Encode", "Decode", "Append") && name != "EncodeToString":
			return true
		case method && (name == "Transform" || name == "XORKeyStream") && i == 1:
			return true
		}
		return false
	case *types.Pointer, *types.Interface:
		// the callee may change what it is given
		return true
	}
	return false
}

// invWrites: calling the method of an interface of another module with the
// slice as its i-th argument writes to the slice.
func invWrites(m *types.Func, i int) bool {
	if m.Pkg() == nil || isMinePath(m.Pkg().Path()) {
		return false
	}
	switch m.Name() {
	case "Read", "ReadAt", "ReadFull", "ReadFrom":
		return true
	case "Transform", "XORKeyStream", "CryptBlocks", "Encrypt", "Decrypt", "Sum":
		return i == 0
	}
	return strings.HasPrefix(m.Name(), "Put") && i == 0
}

func (r *refFlow) flow(fn *ssa.Function, key [2]any, seeds []ssa.Value) *flowRes {
	if m := r.memo[key]; m != nil {
		return m
	}
	res := &flowRes{vals: map[ssa.Value]bool{}}
	r.memo[key] = res
	seen := map[[3]any]bool{}
	acc := func(ins ssa.Instruction, w bool, what string) {
		k := [3]any{ins, w, what}
		if !seen[k] {
			seen[k] = true
			res.acc = append(res.acc, access{ins, fn, w, what})
		}
	}
	merge := func(o *flowRes) {
		for _, a := range o.acc {
			k := [3]any{a.ins, a.write, a.what}
			if !seen[k] {
				seen[k] = true
				res.acc = append(res.acc, a)
			}
		}
	}
	for _, s := range seeds {
		res.vals[s] = true
	}
	add := func(v ssa.Value) bool {
		if v == nil || res.vals[v] {
			return false
		}
		res.vals[v] = true
		return true
	}
	is := func(v ssa.Value) bool { return v != nil && res.vals[v] }
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ch := false
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if is(x.X) {
						ch = add(x)
					}
				case *ssa.IndexAddr:
					if is(x.X) {
						ch = add(x)
					}
				case *ssa.Field:
					if is(x.X) && refType(x.Type()) {
						ch = add(x)
					}
				case *ssa.Index:
					if is(x.X) && refType(x.Type()) {
						ch = add(x)
					}
				case *ssa.Slice:
					if is(x.X) {
						ch = add(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if is(e) {
							ch = add(x)
						}
					}
				case *ssa.ChangeType:
					if is(x.X) {
						ch = add(x)
					}
				case *ssa.ChangeInterface:
					if is(x.X) {
						ch = add(x)
					}
				case *ssa.MakeInterface:
					if is(x.X) && refType(x.X.Type()) {
						ch = add(x)
					}
				case *ssa.TypeAssert:
					if is(x.X) {
						ch = add(x)
					}
				case *ssa.Convert:
					// string<->slice conversions copy
					if is(x.X) && refType(x.Type()) {
						if _, str := x.X.Type().Underlying().(*types.Basic); !str || x.X.Type().Underlying() == types.Typ[types.UnsafePointer] {
							ch = add(x)
						}
					}
					if is(x.X) && x.Type().Underlying() == types.Typ[types.UnsafePointer] {
						ch = add(x)
					}
				case *ssa.SliceToArrayPointer:
					if is(x.X) {
						ch = add(x)
					}
				case *ssa.Extract:
					if is(x.Tuple) && refType(x.Type()) {
						ch = add(x)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if is(x.X) {
							acc(x, false, "read")
							if refType(x.Type()) && !safeType(x.Type()) {
								ch = add(x)
							}
						}
						// loads from fields that hold a reference
						if fa, ok := x.X.(*ssa.FieldAddr); ok && r.fieldIn[fieldKey{structOfPtr(fa.X.Type()), fa.Field}] && refType(x.Type()) {
							ch = add(x) || ch
						}
						if al, ok := x.X.(*ssa.Alloc); ok && res.vals[heldIn{al}] && refType(x.Type()) {
							ch = add(x) || ch
						}
						if fv, ok := x.X.(*ssa.FreeVar); ok && res.vals[heldFree{fv}] && refType(x.Type()) {
							ch = add(x) || ch
						}
					}
				case *ssa.Lookup:
					if is(x.X) {
						acc(x, false, "read")
						if refType(x.Type()) && !x.CommaOk || x.CommaOk {
							ch = add(x)
						}
					}
				case *ssa.Range:
					if is(x.X) {
						acc(x, false, "read")
						ch = add(x)
					}
				case *ssa.Next:
					if is(x.Iter) {
						acc(x, false, "read")
						ch = add(x)
					}
				case *ssa.Store:
					if is(x.Addr) {
						acc(x, true, "write")
					}
					if is(x.Val) && refType(x.Val.Type()) {
						switch a := x.Addr.(type) {
						case *ssa.Alloc:
							ch = add(heldIn{a})
						case *ssa.FreeVar:
							ch = add(heldFree{a})
						case *ssa.FieldAddr:
							k := fieldKey{structOfPtr(a.X.Type()), a.Field}
							if !r.fieldIn[k] {
								if _, isI := x.Val.Type().Underlying().(*types.Interface); !isI {
									r.fieldIn[k] = true
									r.fieldNew = true
								}
							}
						}
					}
				case *ssa.MapUpdate:
					if is(x.Map) {
						acc(x, true, "write")
					}
				case *ssa.Send:
				case *ssa.MakeClosure:
					cf := x.Fn.(*ssa.Function)
					for i, bd := range x.Bindings {
						var seed ssa.Value
						if is(bd) {
							seed = cf.FreeVars[i]
						}
						// a variable that holds the reference
						switch v := bd.(type) {
						case *ssa.Alloc:
							if res.vals[heldIn{v}] && seed == nil {
								seed = heldFree{cf.FreeVars[i]}
							}
						case *ssa.FreeVar:
							if res.vals[heldFree{v}] && seed == nil {
								seed = heldFree{cf.FreeVars[i]}
							}
						}
						if seed != nil {
							o := r.flow(cf, [2]any{cf, seed}, []ssa.Value{seed})
							merge(o)
							if o.ret && refResult(cf) {
								ch = add(closureOf{x}) || ch
							}
						}
					}
				case ssa.CallInstruction:
					ch = r.call(fn, x, res, acc, merge, add, is)
				case *ssa.Return:
					for _, v := range x.Results {
						if is(v) && refType(v.Type()) {
							res.ret = true
						}
					}
				}
				changed = changed || ch
			}
		}
	}
	res.done = true
	return res
}

// heldIn marks a local variable that holds a reference.
type heldIn struct{ *ssa.Alloc }

// heldFree marks a captured variable that holds a reference.
type heldFree struct{ *ssa.FreeVar }

// closureOf marks a closure the calls of which return a reference.
type closureOf struct{ *ssa.MakeClosure }

func refResult(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if refType(r.At(i).Type()) {
			return true
		}
	}
	return false
}

func structOfPtr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (r *refFlow) call(fn *ssa.Function, x ssa.CallInstruction, res *flowRes, acc func(ssa.Instruction, bool, string), merge func(*flowRes), add func(ssa.Value) bool, is func(ssa.Value) bool) bool {
	cc := x.Common()
	v, _ := x.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if len(cc.Args) > 0 && is(cc.Args[0]) {
				acc(x, true, "append into its spare capacity")
				if v != nil {
					return add(v)
				}
			}
			if len(cc.Args) > 1 && is(cc.Args[1]) {
				acc(x, false, "read")
				if sl, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && refType(sl.Elem()) && v != nil {
					return add(v)
				}
			}
		case "copy":
			if is(cc.Args[0]) {
				acc(x, true, "copy into it")
			}
			if is(cc.Args[1]) {
				acc(x, false, "read")
			}
		case "delete", "clear":
			if is(cc.Args[0]) {
				acc(x, true, b.Name())
			}
		case "len", "cap":
			if is(cc.Args[0]) {
				acc(x, false, "read")
			}
		}
		return false
	}
	if cc.IsInvoke() {
		for i, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Slice); ok && is(a) && invWrites(cc.Method, i) {
				acc(x, true, "passed to "+cc.Method.FullName())
			}
		}
		return false
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	clo := false
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && v != nil && res.vals[closureOf{mc}] {
		clo = add(v)
	}
	if f.Blocks == nil || rootPkg(f) == nil || !isMinePath(rootPkg(f).Pkg.Path()) {
		ch := false
		for i, a := range cc.Args {
			if !is(a) {
				continue
			}
			if pk := f.Pkg; pk != nil && (pk.Pkg.Path() == "sync" || pk.Pkg.Path() == "sync/atomic") {
				continue
			}
			w := extWrites(f, i, a)
			if r.ownBuffers && isBuffer(a.Type()) {
				w = i == 0 && f.Signature.Recv() != nil && strings.HasPrefix(f.Name(), "Write") || f.Name() == "ReadFrom"
			}
			if mi, ok := a.(*ssa.MakeInterface); ok && (safeType(mi.X.Type()) || isImmutable(mi.X.Type())) {
				w = false
			}
			acc(x, w, "passed to "+f.String())
			// results of external functions may refer to their arguments
			if v != nil && (sameRef(a.Type(), v.Type()) || r.ownBuffers && f.String() == "bytes.NewBuffer") {
				ch = add(v) || ch
			}
		}
		return ch
	}
	ch := clo
	for i, a := range cc.Args {
		if i >= len(f.Params) || !is(a) || !refType(a.Type()) {
			continue
		}
		o := r.flow(f, [2]any{f, f.Params[i]}, []ssa.Value{f.Params[i]})
		merge(o)
		if o.ret && v != nil {
			ch = add(v) || ch
		}
	}
	return ch
}

func isBuffer(t types.Type) bool { return t.String() == "*bytes.Buffer" }

func isImmutable(t types.Type) bool {
	_, b := t.Underlying().(*types.Basic)
	return b
}

func sameRef(a, b types.Type) bool {
	_, s1 := a.Underlying().(*types.Slice)
	_, s2 := b.Underlying().(*types.Slice)
	return s1 && s2
}

// lockset: the locks (and finished sync.Once initialisations) that are
// certainly held. Mode 2 is exclusive, 1 is shared.
type lockset map[string]int

func (l lockset) clone() lockset {
	n := lockset{}
	for k, v := range l {
		n[k] = v
	}
	return n
}

func meetL(a, b lockset) lockset {
	n := lockset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w < v {
				v = w
			}
			n[k] = v
		}
	}
	return n
}

type lockFlow struct {
	r     *refFlow
	entry map[*ssa.Function]lockset
	at    map[ssa.Instruction]lockset
	exit  map[*ssa.Function]lockset
}

func lockName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return x.String()
	case *ssa.Parameter:
		if f := x.Parent(); f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == x {
			return "receiver " + x.Type().String()
		}
	case *ssa.FieldAddr:
		if n := lockName(x.X); n != "" {
			return n + "." + structOf(structOfPtr(x.X.Type())).Field(x.Field).Name()
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if n := lockName(x.X); n != "" {
				return "*" + n
			}
		}
	}
	return ""
}

func (l *lockFlow) step(s lockset, ins ssa.Instruction) lockset {
	ci, ok := ins.(*ssa.Call)
	if !ok {
		return s
	}
	f := ci.Call.StaticCallee()
	if f == nil {
		return s
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && len(ci.Call.Args) > 0 {
		n := lockName(ci.Call.Args[0])
		if n == "" {
			return s
		}
		s = s.clone()
		switch f.Name() {
		case "Lock":
			s[n] = 2
		case "RLock":
			s[n] = 1
		case "Unlock", "RUnlock":
			delete(s, n)
		case "Do":
			s["once "+n] = 1
		}
		return s
	}
	if ex, ok := l.exit[f]; ok && f.Blocks != nil {
		// locks taken (or finished) by a helper; locks it released
		s = s.clone()
		for k := range s {
			if _, still := ex[k]; !still && !strings.HasPrefix(k, "once ") && l.releases(f, k) {
				delete(s, k)
			}
		}
		for k, v := range ex {
			s[k] = v
		}
	}
	return s
}

func (l *lockFlow) releases(f *ssa.Function, n string) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				g := ci.Common().StaticCallee()
				if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" && strings.HasSuffix(g.Name(), "nlock") && lockName(ci.Common().Args[0]) == n {
					return true
				}
			}
		}
	}
	return false
}

func newLockFlow(r *refFlow) *lockFlow {
	l := &lockFlow{r: r, entry: map[*ssa.Function]lockset{}, at: map[ssa.Instruction]lockset{}, exit: map[*ssa.Function]lockset{}}
	// a few rounds: the entry sets shrink, the exit sets of helpers settle
	for round := 0; round < 6; round++ {
		for _, fn := range r.p.Funcs {
			l.function(fn)
		}
		for _, fn := range r.p.Funcs {
			var e lockset
			first := true
			open := fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() || r.taken[fn]
			for _, ci := range r.callers[fn] {
				at := l.at[ci]
				if _, isCall := ci.(*ssa.Call); !isCall {
					at = lockset{} // go, defer
				}
				if first {
					e, first = at.clone(), false
				} else {
					e = meetL(e, at)
				}
			}
			if open || first {
				e = lockset{}
			}
			// the body of a sync.Once
			if on := onceOf(fn, r); on != "" {
				e["once "+on] = 2
			}
			l.entry[fn] = e
		}
	}
	return l
}

// onceOf names the sync.Once whose Do is the only user of the function.
func onceOf(fn *ssa.Function, r *refFlow) string {
	name := ""
	for _, g := range r.p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f != nil && f.String() == "(*sync.Once).Do" && len(ci.Common().Args) == 2 {
					a := ci.Common().Args[1]
					if mc, ok := a.(*ssa.MakeClosure); ok {
						a = mc.Fn
					}
					if a == fn {
						n := lockName(ci.Common().Args[0])
						if name != "" && name != n {
							return ""
						}
						name = n
					}
				}
			}
		}
	}
	if len(r.callers[fn]) > 0 {
		return ""
	}
	return name
}

func (l *lockFlow) function(fn *ssa.Function) {
	in := map[*ssa.BasicBlock]lockset{}
	e := l.entry[fn]
	if e == nil {
		e = lockset{}
	}
	in[fn.Blocks[0]] = e
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	var exit lockset
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[0]
		work = work[1:]
		s := in[b]
		for _, ins := range b.Instrs {
			l.at[ins] = s
			s = l.step(s, ins)
		}
		for _, t := range b.Succs {
			o, ok := in[t]
			m := s
			if ok {
				m = meetL(o, s)
			}
			if !ok || len(m) != len(o) || !sameL(m, o) {
				in[t] = m.clone()
				work = append(work, t)
			}
		}
	}
	// the exit set, deferred unlocks applied
	first := true
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if _, ok := in[b]; !ok {
				continue
			}
			s := in[b].clone()
			for _, ins := range b.Instrs {
				s = l.step(s, ins)
			}
			if first {
				exit, first = s.clone(), false
			} else {
				exit = meetL(exit, s)
			}
		}
	}
	if exit == nil {
		exit = lockset{}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				f := d.Call.StaticCallee()
				if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && strings.HasSuffix(f.Name(), "nlock") {
					delete(exit, lockName(d.Call.Args[0]))
				} else if f != nil && f.Blocks != nil {
					for k := range exit {
						if l.releases(f, k) {
							delete(exit, k)
						}
					}
				}
			}
		}
	}
	l.exit[fn] = exit
}

func sameL(a, b lockset) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// initOnly lists the functions that run only while the program starts.
func (r *refFlow) initOnly() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	isInit := func(fn *ssa.Function) bool {
		return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
	}
	for _, fn := range r.p.Funcs {
		if isInit(fn) {
			out[fn] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range r.p.Funcs {
			if out[fn] || r.taken[fn] || len(r.callers[fn]) == 0 || fn.Object() != nil && fn.Object().Exported() || fn.Parent() != nil && !out[fn.Parent()] {
				continue
			}
			all := true
			for _, ci := range r.callers[fn] {
				if !out[ci.Parent()] {
					all = false
				}
			}
			if all {
				out[fn] = true
				changed = true
			}
		}
	}
	return out
}

// globalAccesses lists the accesses to the storage of a global.
func (r *refFlow) globalAccesses(g *ssa.Global) []access {
	r.fieldIn = map[fieldKey]bool{}
	retOf := map[*ssa.Function]bool{}
	// functions that mention the global
	var out []access
	for round := 0; round < 10; round++ {
		r.memo = map[[2]any]*flowRes{}
		r.fieldNew = false
		out = nil
		seen := map[[3]any]bool{}
		again := false
		for _, fn := range r.p.Funcs {
			var seeds []ssa.Value
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					var ops [12]*ssa.Value
					for _, op := range ins.Operands(ops[:0]) {
						if op != nil && *op == g {
							seeds = append(seeds, g)
						}
					}
					if ci, ok := ins.(*ssa.Call); ok {
						if f := ci.Call.StaticCallee(); f != nil && retOf[f] && refType(ci.Type()) {
							seeds = append(seeds, ci)
						}
					}
					if ld, ok := ins.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok && r.fieldIn[fieldKey{structOfPtr(fa.X.Type()), fa.Field}] {
							seeds = append(seeds, ld)
						}
					}
				}
			}
			if len(seeds) == 0 {
				continue
			}
			o := r.flow(fn, [2]any{fn, g}, seeds)
			if o.ret && !retOf[fn] {
				retOf[fn] = true
				again = true
			}
			for _, a := range o.acc {
				k := [3]any{a.ins, a.write, a.what}
				if !seen[k] {
					seen[k] = true
					out = append(out, a)
				}
			}
		}
		if !again && !r.fieldNew {
			break
		}
	}
	return out
}

func runC21(c *Check) {
	r := newRefFlow(c.p)
	l := newLockFlow(r)
	ini := r.initOnly()
	nglob := 0
	for _, path := range sortedKeysS(c.p.ByPkg) {
		if !libPkgs[path] {
			continue
		}
		sp := c.p.ByPkg[path]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok || strings.HasPrefix(n, "init$") || n == "_" {
				continue
			}
			gt := g.Type().Underlying().(*types.Pointer).Elem()
			if safeType(gt) {
				if _, ptr := gt.Underlying().(*types.Pointer); !ptr {
					continue
				}
			}
			nglob++
			gname := strings.TrimPrefix(relPkg(path)+"."+n, ".")
			accs := r.globalAccesses(g)
			var common lockset
			var ws []access
			for _, a := range accs {
				c.funcs[a.fn] = true
				if a.write && !ini[a.fn] {
					ws = append(ws, a)
					if common == nil {
						common = l.at[a.ins].clone()
					} else {
						common = meetL(common, l.at[a.ins])
					}
				}
			}
			c.ob(true, "variable followed", gname, g.Pos(), "")
			for _, a := range ws {
				held := l.at[a.ins]
				excl := false
				for _, m := range held {
					excl = excl || m == 2
				}
				c.ob(excl, "writes hold a lock", gname+" in "+fnKey(a.fn), a.ins.Pos(), "%s is changed after start-up (%s) without an exclusive lock", gname, a.what)
			}
			if len(ws) == 0 {
				continue
			}
			for _, a := range accs {
				if ini[a.fn] {
					continue
				}
				held := l.at[a.ins]
				good := false
				for k, m := range common {
					if m == 2 && held[k] > 0 {
						good = true
					}
				}
				c.ob(good, "all accesses hold the lock of the writers", gname+" in "+fnKey(a.fn), a.ins.Pos(), "%s is changed after start-up, but this access (%s) does not hold the lock its writers hold", gname, a.what)
			}
		}
	}
	c.ob(nglob >= 12, "coverage", "package-level variables", token.NoPos, "only %d package-level variables found", nglob)
	// receivers
	conn := c.p.Type("", "Connector").Underlying().(*types.Interface)
	for _, path := range sortedKeysS(c.p.ByPkg) {
		if !libPkgs[path] {
			continue
		}
		for n, m := range c.p.ByPkg[path].Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			pt := types.NewPointer(t.Type())
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if !types.Implements(pt, conn) && !(path == "" && n == "DB") {
				continue
			}
			for _, fn := range c.exported(libPkgs) {
				rv := fn.Signature.Recv()
				if rv == nil || !types.Identical(derefType(rv.Type()), t.Type()) || fn.Name() == "Open" {
					continue
				}
				r.memo = map[[2]any]*flowRes{}
				r.fieldIn = map[fieldKey]bool{}
				o := r.flow(fn, [2]any{fn, fn.Params[0]}, []ssa.Value{fn.Params[0]})
				bad := 0
				for _, a := range o.acc {
					c.funcs[a.fn] = true
					excl := false
					for _, m := range l.at[a.ins] {
						excl = excl || m == 2
					}
					if a.write && !excl {
						bad++
						c.ob(false, "operations do not change their database or driver", fnKey(fn), a.ins.Pos(), "writes through the receiver in %s: %s", fnKey(a.fn), a.what)
					}
				}
				if bad == 0 {
					c.ob(true, "operations do not change their database or driver", fnKey(fn), fnPos(fn), "")
				}
			}
		}
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func sortedKeysS[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---------------------------------------------------------------- C22

// processWide: functions that change what the paths or the environment mean for
// the whole process.
func processWide(name string) bool {
	switch name {
	case "os.Chdir", "(*os.File).Chdir", "os.Setenv", "os.Unsetenv", "os.Clearenv", "syscall.Chdir", "syscall.Fchdir", "syscall.Chroot", "syscall.Setenv", "syscall.Unsetenv", "syscall.Clearenv":
		return true
	}
	return strings.HasPrefix(name, "golang.org/x/sys/unix.") && (strings.HasSuffix(name, ".Chdir") || strings.HasSuffix(name, ".Fchdir") || strings.HasSuffix(name, ".Chroot"))
}

func runC22(c *Check) {
	for _, fn := range c.libFuncs() {
		bad := ""
		var pos token.Pos
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && processWide(f.String()) {
						bad, pos = f.String(), ins.Pos()
					}
				}
			}
		}
		if bad != "" {
			c.ob(false, "the home of a database is its own", fnKey(fn), pos, "%s changes the whole process", bad)
		}
	}
	open := c.need("", "Open")
	fac, _ := c.p.Type("", "ConnectorFactory"), 0
	connT := c.p.Type("", "Connector")
	if open == nil || fac == nil || connT == nil {
		c.ob(false, "anchor", "ConnectorFactory", token.NoPos, "drivers have no way to give every database its own connector")
		return
	}
	// Open never configures the connector that is shared by all databases
	e := c.engine()
	args := params(open)
	if outs, ok := c.eval(e, open, args, newState()); ok {
		good := 0
		for _, o := range outs {
			if !feasible(o) || !okRet(o) {
				continue
			}
			okf, _ := splitRet(open, o)
			var opens []*Event
			for _, ev := range outEvents(o) {
				if methodOf(ev) == "Open" {
					opens = append(opens, ev)
				}
			}
			for _, ev := range opens {
				f := ev.Facts
				if okf != nil {
					f = okf
				}
				shared := simp(ev.Args[0], f)
				factory := mentionsOp(shared, "inv:NewConnector", "inv", "NewConnector")
				refused := false
				for _, x := range f.list() {
					if x.Op == "not" && strings.HasPrefix(x.Args[0].Op+x.Args[0].S, "typeis") && strings.Contains(x.Args[0].String(), "ConnectorFactory") {
						refused = true
					}
				}
				c.ob(factory || refused, "Open opens a connector of its own", fnKey(open), ev.Instr.Pos(), "the connector %v is registered once and opened for every database, although its driver can make a new one", clip(shared.String(), 300))
			}
			if okf == nil {
				continue
			}
			good++
			if c.ob(len(opens) == 1, "the database uses the connector that was opened", fnKey(open), fnPos(open), "%d connectors are opened", len(opens)) {
				st := o.st.clone()
				st.facts = okf
				db := simp(o.ret[0], okf)
				got := c.connectorOf(e, st, c.needM("", "DB", "ReadUserRecords"), db)
				c.ob(got != nil && eqT(okf, got, opens[0].Args[0]), "the database uses the connector that was opened", fnKey(open), fnPos(open), "the database keeps %v, opened was %v", got, opens[0].Args[0])
			}
			for id, v := range o.st.mem {
				if ob := e.objs[id]; ob.glob != nil && v != any(ob.init) {
					c.ob(false, "Open changes no shared state", fnKey(open)+" "+ob.glob.Name(), fnPos(open), "Open changes %s", ob.glob)
				}
			}
		}
		c.ob(good > 0, "the database uses the connector that was opened", fnKey(open), fnPos(open), "no outcome succeeds")
	}
	// every registered driver of the library makes new connectors
	reg := c.need("", "Register")
	r := newRefFlow(c.p)
	ifc := fac.Underlying().(*types.Interface)
	conn := connT.Underlying().(*types.Interface)
	regd := 0
	for _, ci := range r.callers[reg] {
		fn := ci.Parent()
		if pk := rootPkg(fn); pk == nil || !libPkgs[relPkg(pk.Pkg.Path())] {
			continue
		}
		mi, ok := ci.Common().Args[1].(*ssa.MakeInterface)
		if !c.ob(ok, "a driver makes new connectors", fnKey(fn), ci.Pos(), "the registered driver's type is not known") {
			continue
		}
		regd++
		ty := mi.X.Type()
		if !c.ob(types.Implements(ty, ifc), "a driver makes new connectors", ty.String(), ci.Pos(), "%s is registered once and keeps settings, but cannot make a connector for each database", ty) {
			continue
		}
		n := c.p.SSA.MethodValue(c.p.SSA.MethodSets.MethodSet(ty).Lookup(fac.(*types.Named).Obj().Pkg(), "NewConnector"))
		e := c.engine()
		outs, ok := c.eval(e, n, params(n), newState())
		for _, o := range outs {
			if !feasible(o) || !okRet(o) {
				continue
			}
			v := unwrapArg(simp(o.ret[0], o.st.facts))
			fresh := v.Op == "ref" && len(v.Args) == 0 && e.objs[v.N].local && e.objs[v.N].glob == nil
			c.ob(fresh, "a new connector shares nothing", fnKey(n), fnPos(n), "NewConnector returns %v, not a new connector", v)
			if fresh {
				reachable(e, o.st, v, map[*Term]bool{}, func(x *Term) {
					if x.Op == "glob" || x.Op == "lmem" || isParam(x) && refType(x.Ty) {
						c.ob(false, "a new connector shares nothing", fnKey(n), fnPos(n), "the new connector refers to %v", x)
					}
				})
			}
		}
	}
	c.ob(regd > 0, "a driver makes new connectors", "registered drivers", token.NoPos, "no driver is registered by the library")
	// a connector's settings change in Open only, and only its own
	l := newLockFlow(r)
	_ = l
	for _, fn := range c.exported(libPkgs) {
		rv := fn.Signature.Recv()
		if rv == nil || !types.Implements(rv.Type(), conn) && derefType(rv.Type()) != c.p.Type("", "DB") {
			continue
		}
		if fn.Name() != "Open" {
			r.memo = map[[2]any]*flowRes{}
			r.fieldIn = map[fieldKey]bool{}
			bad := 0
			for _, a := range r.flow(fn, [2]any{fn, fn.Params[0]}, []ssa.Value{fn.Params[0]}).acc {
				c.funcs[a.fn] = true
				if fl, ok := a.ins.(*ssa.Store); ok && a.write {
					if fa, ok := fl.Addr.(*ssa.FieldAddr); ok {
						fv := structOf(structOfPtr(fa.X.Type())).Field(fa.Field)
						bad++
						c.ob(false, "settings change in Open only", fnKey(fn), a.ins.Pos(), "%s is changed in %s", fv.Name(), fnKey(a.fn))
					} else if a.write {
						bad++
						c.ob(false, "settings change in Open only", fnKey(fn), a.ins.Pos(), "the receiver is changed in %s", fnKey(a.fn))
					}
				}
			}
			if bad == 0 {
				c.ob(true, "settings change in Open only", fnKey(fn), fnPos(fn), "")
			}
		}
		if derefType(rv.Type()) == c.p.Type("", "DB") {
			continue
		}
		// what an operation does depends on its own connector only
		e := c.engine()
		outs, err := e.Call(fn, params(fn), newState())
		c.used(e)
		if err != nil {
			c.ob(false, "analysis", fnKey(fn), fnPos(fn), "undecided: %v", err)
			continue
		}
		for _, o := range outs {
			if !feasible(o) {
				continue
			}
			hit := map[string]bool{}
			look := func(t *Term) {
				if t == nil {
					return
				}
				walk(t, func(x *Term) bool {
					if (x.Op == "glob" || x.Op == "lmem" && strings.Contains(x.S, modPath)) && strings.Contains(x.S, modPath) {
						hit[x.S] = true
					}
					return true
				})
			}
			for _, t := range o.ret {
				look(t)
			}
			for _, ev := range outEvents(o) {
				for _, t := range ev.Args {
					look(t)
				}
			}
			for id, v := range o.st.mem {
				if ob := e.objs[id]; ob.glob != nil && v != any(ob.init) {
					hit["(changed) "+ob.glob.String()] = true
				}
			}
			for _, g := range sortedKeysS(hit) {
				c.ob(false, "an operation uses its own connector only", fnKey(fn), fnPos(fn), "depends on the shared variable %s", g)
			}
			c.ob(true, "an operation uses its own connector only", fnKey(fn), fnPos(fn), "")
		}
	}
}

func mentionsOp(t *Term, ops ...string) bool {
	hit := false
	walk(t, func(x *Term) bool {
		for _, o := range ops {
			if x.Op == o || x.S == o {
				hit = true
			}
		}
		return !hit
	})
	return hit
}
