package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- typed values

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isByte(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func structOf(t types.Type) *types.Struct {
	s, _ := under(t).(*types.Struct)
	return s
}

func namedPkg(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func zeroOf(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Kind() == types.UnsafePointer:
			return Nil
		}
		return mk("zero", t, "", 0)
	case *types.Struct:
		if p := namedPkg(t); p != "" && !isMinePath(p) {
			return mk("zero", t, "", 0)
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return mk("struct", t, "", 0, fs...)
	case *types.Array:
		if isByte(u.Elem()) {
			return mk("zeros", nil, "", 0, Int(u.Len()))
		}
		if u.Len() <= 4096 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, zeroOf(u.Elem()))
			}
			return mk("list", nil, "", 0, fs...)
		}
		return mk("zero", t, "", 0)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zeroOf(u.At(i).Type()))
		}
		return mk("struct", nil, "", 0, fs...)
	}
	return Nil
}

// Fld is field i of the struct value x.
func Fld(x *Term, i int, ty types.Type, name string) *Term {
	switch x.Op {
	case "struct":
		if i < len(x.Args) {
			return x.Args[i]
		}
	case "ite":
		return Ite(x.Args[0], Fld(x.Args[1], i, ty, name), Fld(x.Args[2], i, ty, name))
	case "zero":
		if s := structOf(x.Ty); s != nil {
			return zeroOf(s.Field(i).Type())
		}
	}
	return mk("fld", ty, name, int64(i), x)
}

// ElemAt is element i of the typed sequence x.
func ElemAt(x, i *Term, ty types.Type) *Term {
	if isByte(ty) {
		return At(x, i)
	}
	if i.Op == "ite" {
		return Ite(i.Args[0], ElemAt(x, i.Args[1], ty), ElemAt(x, i.Args[2], ty))
	}
	switch x.Op {
	case "list":
		if i.isInt() && i.N >= 0 && i.N < int64(len(x.Args)) {
			return x.Args[i.N]
		}
	case "ite":
		return Ite(x.Args[0], ElemAt(x.Args[1], i, ty), ElemAt(x.Args[2], i, ty))
	case "sub":
		return ElemAt(x.Args[0], Add(x.Args[1], i), ty)
	case "upd":
		if e := Eq0(Sub(x.Args[1], i)); e == True {
			return x.Args[2]
		} else if e == False {
			return ElemAt(x.Args[0], i, ty)
		}
	case "catl":
		rest := i
		for _, p := range x.Args {
			n := ListLen(p)
			d := Sub(rest, n)
			if lo, _ := rangeOf(d); lo >= 0 {
				rest = d
				continue
			}
			if _, hi := rangeOf(d); hi < 0 {
				return ElemAt(p, rest, ty)
			}
			break
		}
	case "zeros", "zero":
		return zeroOf(ty)
	case "split":
		if x.N > 2 {
			if i.isInt() && i.N >= 0 && i.N < x.N-1 {
				return ElemAt(splitSeq(x.Args[0], x.Args[1]), i, ty)
			}
			return mk("sel", ty, "", 0, x, i)
		}
		p := splitElem(x, i)
		if x.N == 2 && i == Int(1) && x.Args[1].Op == "str" && len(x.Args[1].S) == 1 {
			// all after the first separator
			y := x.Args[0]
			k := Idx(y, Int(int64(x.Args[1].S[0])))
			p = SubSeq(y, Add(k, Int(1)), Sub(Sub(SeqLen(y), k), Int(1)))
		}
		if isString(ty) {
			return p
		}
		return mk("asbytes", ty, "", 0, p)
	}
	return mk("sel", ty, "", 0, x, i)
}

func ListLen(x *Term) *Term {
	switch x.Op {
	case "list":
		return Int(int64(len(x.Args)))
	case "sub":
		return x.Args[2]
	case "catl":
		n := Int(0)
		for _, a := range x.Args {
			n = Add(n, ListLen(a))
		}
		return n
	case "content":
		return SeqLen(x.Args[0])
	case "zeros":
		return x.Args[0]
	case "upd":
		return ListLen(x.Args[0])
	case "ite":
		return Ite(x.Args[0], ListLen(x.Args[1]), ListLen(x.Args[2]))
	case "nil":
		return Int(0)
	}
	return mk("len", types.Typ[types.Int], "", 0, x)
}

func SubList(x, off, n *Term) *Term {
	if off.isInt() && off.N == 0 && n == ListLen(x) {
		return x
	}
	if n.isInt() && n.N == 0 {
		return mk("list", nil, "", 0)
	}
	if x.Op == "list" && off.isInt() && n.isInt() && off.N >= 0 && n.N >= 0 && off.N+n.N <= int64(len(x.Args)) {
		return mk("list", nil, "", 0, x.Args[off.N:off.N+n.N]...)
	}
	if x.Op == "sub" {
		return SubList(x.Args[0], Add(x.Args[1], off), n)
	}
	if x.Op == "zeros" {
		return mk("zeros", nil, "", 0, n)
	}
	if x.Op == "catl" && off.isInt() && off.N == 0 {
		// a known prefix
		rest := n
		for i, p := range x.Args {
			d := Sub(rest, ListLen(p))
			if d.isInt() && d.N == 0 {
				return CatList(x.Args[:i+1]...)
			}
			if lo, _ := rangeOf(d); lo >= 0 {
				rest = d
				continue
			}
			break
		}
	}
	return mk("sub", nil, "", 0, x, off, n)
}

func CatList(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.Op == "catl" {
			out = append(out, p.Args...)
			continue
		}
		if p.Op == "list" && len(p.Args) == 0 || p.Op == "nil" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].Op == "list" && p.Op == "list" {
			out[n-1] = mk("list", nil, "", 0, append(append([]*Term{}, out[n-1].Args...), p.Args...)...)
			continue
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return mk("list", nil, "", 0)
	case 1:
		return out[0]
	}
	return mk("catl", nil, "", 0, out...)
}

// Content is the sequence held by a slice value that comes from outside.
func Content(t *Term) *Term {
	switch t.Op {
	case "ite":
		return Ite(t.Args[0], Content(t.Args[1]), Content(t.Args[2]))
	case "nil":
		return Str("")
	case "sel":
		// elements of split byte strings behave like the split string
		if sl, ok := under(t.Ty).(*types.Slice); ok && isByte(sl.Elem()) && t.Args[0].Op == "content" {
			return mk("sel", types.Typ[types.String], t.S, t.N, t.Args...)
		}
	case "asbytes":
		return t.Args[0]
	}
	return mk("content", nil, "", 0, t)
}

// ---------------------------------------------------------------- objects

func (e *Engine) newObj(ty types.Type, arr bool, n int64, init *Term, site ssa.Instruction) *Obj {
	o := &Obj{id: len(e.objs), ty: ty, arr: arr, n: n, init: init, site: site, local: true}
	e.objs = append(e.objs, o)
	return o
}

func refOf(o *Obj) *Term { return mk("ref", nil, "", int64(o.id)) }

func refField(p *Term, k int, name string) *Term {
	return mk("ref", nil, "", p.N, append(append([]*Term{}, p.Args...), mk("f", nil, name, int64(k)))...)
}
func refIndex(p *Term, i *Term) *Term {
	return mk("ref", nil, "", p.N, append(append([]*Term{}, p.Args...), mk("i", nil, "", 0, i))...)
}

// headerOf is a slice value seen as a reflect.SliceHeader.
func headerOf(v *Term, hdr types.Type) *Term {
	if v.Op == "uslice" {
		return mk("struct", hdr, "", 0, v.Args...)
	}
	var e *Engine
	return mk("struct", hdr, "", 0, mk("sdata", types.Typ[types.Uintptr], "", 0, v), e.sliceLen(v), e.sliceCap(v))
}

// objFor materialises the object behind a symbolic pointer.
func (e *Engine) objFor(ptr *Term, elem types.Type) *Obj {
	if o := e.byKey[ptr]; o != nil {
		return o
	}
	o := e.newObj(elem, false, -1, mk("deref", elem, "", 0, ptr), nil)
	o.local = false
	o.key = ptr
	e.byKey[ptr] = o
	return o
}

// arrFor materialises the array behind a symbolic slice.
func (e *Engine) arrFor(s *Term, elem types.Type) *Obj {
	if o := e.byKey[s]; o != nil {
		return o
	}
	o := e.newObj(elem, true, -1, Content(s), nil)
	o.local = false
	o.key = s
	e.byKey[s] = o
	return o
}

// dist maps f over the leaves of a gated value.
func dist(t *Term, f func(*Term) *Term) *Term {
	if t.Op == "ite" {
		return Ite(t.Args[0], dist(t.Args[1], f), dist(t.Args[2], f))
	}
	return f(t)
}

// asPtr turns a pointer value into refs (gates kept).
func (e *Engine) asPtr(t *Term, elem types.Type) *Term {
	return dist(t, func(t *Term) *Term {
		switch t.Op {
		case "ref", "nil", "undef":
			return t
		}
		return refOf(e.objFor(t, elem))
	})
}

// asSlice turns a slice value into "slice" terms (gates kept); nil stays nil.
func (e *Engine) asSlice(t *Term, elem types.Type) *Term {
	return dist(t, func(t *Term) *Term {
		switch t.Op {
		case "slice", "nil", "undef":
			return t
		}
		o := e.arrFor(t, elem)
		return mk("slice", nil, "", 0, refOf(o), Int(0), SeqLen(t), mk("cap", types.Typ[types.Int], "", 0, t))
	})
}

func (e *Engine) sliceLen(t *Term) *Term {
	return dist(t, func(t *Term) *Term {
		switch t.Op {
		case "slice":
			return t.Args[2]
		case "nil":
			return Int(0)
		}
		return SeqLen(t)
	})
}

func (e *Engine) sliceCap(t *Term) *Term {
	return dist(t, func(t *Term) *Term {
		switch t.Op {
		case "slice":
			return t.Args[3]
		case "nil":
			return Int(0)
		}
		return mk("cap", types.Typ[types.Int], "", 0, t)
	})
}

// root content of an object
func (e *Engine) get(st *State, id int) any {
	if v, ok := st.mem[id]; ok {
		return v
	}
	o := e.objs[id]
	if o.arr {
		init := o.init
		if init == nil {
			if o.n >= 0 {
				init = mk("zeros", nil, "", 0, Int(o.n))
			} else {
				init = mk("zeros", nil, "", 0, mk("rdlen", types.Typ[types.Int], "obj", int64(o.id)))
			}
		}
		return &ArrV{owner: -1, base: init, cells: map[int64]*Term{}}
	}
	if o.init != nil {
		return o.init
	}
	z := zeroOf(o.ty)
	return z
}

func (e *Engine) arrElem(a *ArrV, i *Term, elem types.Type) *Term {
	if i.Op == "ite" {
		return Ite(i.Args[0], e.arrElem(a, i.Args[1], elem), e.arrElem(a, i.Args[2], elem))
	}
	if i.isInt() {
		if v, ok := a.cells[i.N]; ok {
			return v
		}
	} else if len(a.cells) > 0 {
		// may hit an overwritten cell
		lo, hi := rangeOf(i)
		hit := false
		for k := range a.cells {
			if k >= lo && k <= hi {
				hit = true
			}
		}
		if hit {
			return ElemAt(e.arrBaseTerm(a, elem), i, elem)
		}
	}
	return ElemAt(a.base, i, elem)
}

// arrBaseTerm folds the cells into a term.
func (e *Engine) arrBaseTerm(a *ArrV, elem types.Type) *Term {
	if len(a.cells) == 0 {
		return a.base
	}
	n := ListLen(a.base)
	if isByte(elem) {
		n = SeqLen(a.base)
	}
	if n.isInt() && n.N <= 8192 {
		return e.readArr(a, Int(0), n, elem)
	}
	t := a.base
	for _, k := range sortedKeys(a.cells) {
		t = mk("upd", nil, "", 0, t, Int(k), a.cells[k])
	}
	return t
}

func sortedKeys(m map[int64]*Term) []int64 {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// readArr is the sequence of n elements from off.
func (e *Engine) readArr(a *ArrV, off, n *Term, elem types.Type) *Term {
	bytes := isByte(elem)
	if n.isInt() && n.N == 0 {
		if bytes {
			return Str("")
		}
		return mk("list", nil, "", 0)
	}
	sub := func(o, l *Term) *Term {
		if bytes {
			return SubSeq(a.base, o, l)
		}
		return SubList(a.base, o, l)
	}
	cat := Cat
	if !bytes {
		cat = CatList
	}
	if len(a.cells) == 0 {
		return sub(off, n)
	}
	if off.isInt() && n.isInt() {
		var parts []*Term
		i := off.N
		end := off.N + n.N
		for _, k := range sortedKeys(a.cells) {
			if k < i || k >= end {
				continue
			}
			if k > i {
				parts = append(parts, sub(Int(i), Int(k-i)))
			}
			if bytes {
				parts = append(parts, mkCell(a.cells[k]))
			} else {
				parts = append(parts, mk("list", nil, "", 0, a.cells[k]))
			}
			i = k + 1
		}
		if i < end {
			parts = append(parts, sub(Int(i), Int(end-i)))
		}
		return catCells(parts, cat, bytes)
	}
	var full *Term
	bl := ListLen(a.base)
	if bytes {
		bl = SeqLen(a.base)
	}
	if bl.isInt() && bl.N <= 8192 {
		full = e.readArr(a, Int(0), bl, elem)
	} else {
		full = a.base
		for _, k := range sortedKeys(a.cells) {
			full = mk("upd", nil, "", 0, full, Int(k), a.cells[k])
		}
	}
	if bytes {
		return SubSeq(full, off, n)
	}
	return SubList(full, off, n)
}

func mkCell(v *Term) *Term {
	if v.isInt() {
		return Str(string([]byte{byte(v.N)}))
	}
	return mk("cells", nil, "", 0, v)
}

// catCells fuses runs of single cells before concatenating.
func catCells(parts []*Term, cat func(...*Term) *Term, bytes bool) *Term {
	if !bytes {
		return cat(parts...)
	}
	var out []*Term
	var run []*Term
	flush := func() {
		if len(run) > 0 {
			out = append(out, Cells(run))
			run = nil
		}
	}
	for _, p := range parts {
		switch {
		case p.Op == "cells":
			run = append(run, p.Args...)
		case p.Op == "str" && len(p.S) == 1:
			run = append(run, Int(int64(p.S[0])))
		default:
			flush()
			out = append(out, p)
		}
	}
	flush()
	return cat(out...)
}

// elemType of the thing at the end of a path
func stepType(ty types.Type, p *Term) types.Type {
	switch p.Op {
	case "f":
		if s := structOf(ty); s != nil && int(p.N) < s.NumFields() {
			return s.Field(int(p.N)).Type()
		}
	case "i":
		switch u := under(ty).(type) {
		case *types.Array:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		}
	}
	return nil
}

func getPath(v *Term, ty types.Type, path []*Term) *Term {
	for _, p := range path {
		if p.Op == "h" {
			v, ty = headerOf(v, p.Ty), p.Ty
			continue
		}
		nt := stepType(ty, p)
		if p.Op == "f" {
			v = Fld(v, int(p.N), nt, p.S)
		} else {
			v = ElemAt(v, p.Args[0], nt)
		}
		ty = nt
	}
	return v
}

func setPath(v *Term, ty types.Type, path []*Term, val *Term) *Term {
	if len(path) == 0 {
		return val
	}
	p := path[0]
	if p.Op == "h" {
		h := setPath(headerOf(v, p.Ty), p.Ty, path[1:], val)
		return mk("uslice", ty, "", 0, Fld(h, 0, nil, "Data"), Fld(h, 1, nil, "Len"), Fld(h, 2, nil, "Cap"))
	}
	nt := stepType(ty, p)
	if p.Op == "f" {
		s := structOf(ty)
		if s == nil {
			return mk("updf", ty, p.S, p.N, v, val)
		}
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = Fld(v, i, s.Field(i).Type(), s.Field(i).Name())
		}
		fs[p.N] = setPath(fs[p.N], nt, path[1:], val)
		return mk("struct", ty, "", 0, fs...)
	}
	i := p.Args[0]
	old := ElemAt(v, i, nt)
	nv := setPath(old, nt, path[1:], val)
	n := int64(-1)
	if a, ok := under(ty).(*types.Array); ok {
		n = a.Len()
	}
	if i.isInt() && n >= 0 && n <= 8192 && i.N >= 0 && i.N < n {
		cs := make([]*Term, n)
		for k := range cs {
			cs[k] = ElemAt(v, Int(int64(k)), nt)
		}
		cs[i.N] = nv
		if isByte(nt) {
			return Cells(cs)
		}
		return mk("list", nil, "", 0, cs...)
	}
	return mk("upd", nil, "", 0, v, i, nv)
}

// load reads through a pointer value.
func (e *Engine) load(st *State, ptr *Term, ty types.Type) *Term {
	ptr = e.asPtr(ptr, ty)
	return dist(ptr, func(p *Term) *Term {
		if p.Op != "ref" {
			return Bot
		}
		o := e.objs[p.N]
		v := e.get(st, o.id)
		if a, ok := v.(*ArrV); ok {
			if len(p.Args) == 0 {
				n := Int(o.n)
				if o.n < 0 {
					n = SeqLen(a.base)
				}
				return e.readArr(a, Int(0), n, o.ty)
			}
			if p.Args[0].Op != "i" {
				panic(engineErr{"field of array object"})
			}
			return getPath(e.arrElem(a, p.Args[0].Args[0], o.ty), o.ty, p.Args[1:])
		}
		return getPath(v.(*Term), o.ty, p.Args)
	})
}

// store writes through a pointer value (gates become conditional updates).
func (e *Engine) store(st *State, ptr, val *Term, ty types.Type) {
	ptr = e.asPtr(ptr, ty)
	e.storeG(st, ptr, val, True)
}

func (e *Engine) storeG(st *State, ptr, val, gate *Term) {
	if ptr.Op == "ite" {
		e.storeG(st, ptr.Args[1], val, Ite(gate, ptr.Args[0], False))
		e.storeG(st, ptr.Args[2], val, Ite(gate, Not(ptr.Args[0]), False))
		return
	}
	if ptr.Op != "ref" {
		return
	}
	o := e.objs[ptr.N]
	v := e.get(st, o.id)
	if a, ok := v.(*ArrV); ok {
		if len(ptr.Args) == 0 {
			// whole array
			nv := val
			if gate != True {
				nv = Ite(gate, val, e.readArr(a, Int(0), SeqLen(a.base), o.ty))
			}
			st.mem[o.id] = &ArrV{owner: st.id, base: nv, cells: map[int64]*Term{}}
			return
		}
		i := ptr.Args[0].Args[0]
		old := e.arrElem(a, i, o.ty)
		nv := setPath(old, o.ty, ptr.Args[1:], val)
		if gate != True {
			nv = Ite(gate, nv, old)
		}
		e.setArr(st, o, i, nv)
		return
	}
	x := v.(*Term)
	nv := setPath(x, o.ty, ptr.Args, val)
	if gate != True {
		nv = Ite(gate, nv, x)
	}
	st.mem[o.id] = nv
}

func (e *Engine) ownArr(st *State, o *Obj) *ArrV {
	a := e.get(st, o.id).(*ArrV)
	if a.owner != st.id {
		c := make(map[int64]*Term, len(a.cells)+1)
		for k, v := range a.cells {
			c[k] = v
		}
		a = &ArrV{owner: st.id, base: a.base, cells: c}
		st.mem[o.id] = a
	}
	return a
}

func (e *Engine) setArr(st *State, o *Obj, i, v *Term) {
	a := e.ownArr(st, o)
	if i.isInt() {
		a.cells[i.N] = v
		return
	}
	base := e.arrBaseTerm(a, o.ty)
	a.base = mk("upd", nil, "", 0, base, i, v)
	a.cells = map[int64]*Term{}
}

// readSlice is the content of a slice value: a byte sequence or a typed list.
func (e *Engine) readSlice(st *State, s *Term, elem types.Type) *Term {
	if isString(s.Ty) || s.Op == "str" {
		return s
	}
	s = e.asSlice(s, elem)
	return dist(s, func(s *Term) *Term {
		switch s.Op {
		case "nil", "undef":
			if isByte(elem) {
				return Str("")
			}
			return mk("list", nil, "", 0)
		}
		r := s.Args[0]
		if r.Op == "ite" {
			return Ite(r.Args[0], e.readSlice(st, mk("slice", nil, "", 0, r.Args[1], s.Args[1], s.Args[2], s.Args[3]), elem),
				e.readSlice(st, mk("slice", nil, "", 0, r.Args[2], s.Args[1], s.Args[2], s.Args[3]), elem))
		}
		o := e.objs[r.N]
		v := e.get(st, o.id)
		if a, ok := v.(*ArrV); ok && len(r.Args) == 0 {
			return e.readArr(a, s.Args[1], s.Args[2], elem)
		}
		x := e.load(st, r, nil)
		if isByte(elem) {
			return SubSeq(x, s.Args[1], s.Args[2])
		}
		return SubList(x, s.Args[1], s.Args[2])
	})
}

// elemRef is the address of element i of a slice value.
func (e *Engine) elemRef(s, i *Term, elem types.Type) *Term {
	s = e.asSlice(s, elem)
	return dist(s, func(s *Term) *Term {
		if s.Op != "slice" {
			return Bot
		}
		return dist(s.Args[0], func(r *Term) *Term {
			return refIndex(r, Add(s.Args[1], i))
		})
	})
}

// newBytes allocates a byte array with the given content and returns the slice.
func (e *Engine) newBytes(seq *Term, site ssa.Instruction) *Term {
	n := SeqLen(seq)
	k := int64(-1)
	if n.isInt() {
		k = n.N
	}
	o := e.newObj(types.Typ[types.Uint8], true, k, seq, site)
	return mk("slice", nil, "", 0, refOf(o), Int(0), n, n)
}

func (e *Engine) newList(list, n *Term, elem types.Type, site ssa.Instruction) *Term {
	k := int64(-1)
	if n.isInt() {
		k = n.N
	}
	o := e.newObj(elem, true, k, list, site)
	return mk("slice", nil, "", 0, refOf(o), Int(0), n, n)
}

// writeSlice overwrites len(seq) elements from the start of dst, bounded by len(dst); the number written is min.
func (e *Engine) writeSlice(st *State, dst, seq, slen *Term, elem types.Type) {
	dst = e.asSlice(dst, elem)
	if dst.Op == "ite" {
		// conditional destination: havoc both
		for _, d := range []*Term{dst.Args[1], dst.Args[2]} {
			e.havocSlice(st, d, elem)
		}
		return
	}
	if dst.Op != "slice" {
		return
	}
	r, off, dl := dst.Args[0], dst.Args[1], dst.Args[2]
	if r.Op != "ref" {
		e.havocSlice(st, dst, elem)
		return
	}
	at := func(i *Term) *Term { return ElemAt(seq, i, elem) }
	o := e.objs[r.N]
	if _, ok := e.get(st, o.id).(*ArrV); !ok || len(r.Args) > 0 {
		if dl.isInt() && dl.N <= 8192 {
			for i := int64(0); i < dl.N; i++ {
				p := refIndex(r, Add(off, Int(i)))
				old := e.load(st, p, elem)
				e.store(st, p, Ite(Lt(Int(i), slen), at(Int(i)), old), elem)
			}
			return
		}
		e.havocSlice(st, dst, elem)
		return
	}
	a := e.ownArr(st, o)
	// full overwrite of a whole array
	if off.isInt() && off.N == 0 && slen == dl && SeqLen(a.base) == dl && !(dl.isInt() && dl.N <= 4096) {
		a.base, a.cells = seq, map[int64]*Term{}
		return
	}
	var bound int64 = -1
	if dl.isInt() {
		bound = dl.N
	}
	if slen.isInt() && (bound < 0 || slen.N < bound) {
		bound = slen.N
		// writes at most slen elements; need i < len(dst)
	}
	if bound >= 0 && bound <= 16384 {
		for i := int64(0); i < bound; i++ {
			ix := Add(off, Int(i))
			old := e.arrElem(a, ix, elem)
			g := Lt(Int(i), slen)
			if !dl.isInt() {
				g = Ite(g, Lt(Int(i), dl), False)
			}
			v := Ite(g, at(Int(i)), old)
			if v != old {
				e.setArr(st, o, ix, v)
				a = e.ownArr(st, o)
			}
		}
		return
	}
	base := e.arrBaseTerm(a, elem)
	n := minTerm(slen, dl)
	a.base = Splice(base, off, n, seq, elem)
	a.cells = map[int64]*Term{}
}

func minTerm(a, b *Term) *Term {
	if a == b {
		return a
	}
	return Ite(Le(a, b), a, b)
}

// Splice is base with the n elements from off replaced by the first n of seq.
func Splice(base, off, n, seq *Term, elem types.Type) *Term {
	if isByte(elem) {
		bl := SeqLen(base)
		return Cat(SubSeq(base, Int(0), off), SubSeq(seq, Int(0), n), SubSeq(base, Add(off, n), Sub(Sub(bl, off), n)))
	}
	bl := ListLen(base)
	return CatList(SubList(base, Int(0), off), SubList(seq, Int(0), n), SubList(base, Add(off, n), Sub(Sub(bl, off), n)))
}

func (e *Engine) havocSlice(st *State, s *Term, elem types.Type) {
	s = e.asSlice(s, elem)
	if s.Op == "ite" {
		e.havocSlice(st, s.Args[1], elem)
		e.havocSlice(st, s.Args[2], elem)
		return
	}
	if s.Op == "slice" {
		e.havocRef(st, s.Args[0], "havoc")
	}
}

func (e *Engine) havocRef(st *State, r *Term, why string) {
	if r.Op == "ite" {
		e.havocRef(st, r.Args[1], why)
		e.havocRef(st, r.Args[2], why)
		return
	}
	if r.Op != "ref" {
		return
	}
	o := e.objs[r.N]
	if o.arr {
		freshCnt++
		st.mem[o.id] = &ArrV{owner: st.id, base: mk("lmem", nil, why, freshCnt, e.arrLenTerm(st, o)), cells: map[int64]*Term{}}
		return
	}
	ty := o.ty
	for _, p := range r.Args {
		ty = stepType(ty, p)
	}
	freshCnt++
	e.store(st, r, mk("lmem", ty, why, freshCnt), ty)
}

func (e *Engine) arrLenTerm(st *State, o *Obj) *Term {
	if o.n >= 0 {
		return Int(o.n)
	}
	a := e.get(st, o.id).(*ArrV)
	if isByte(o.ty) {
		return SeqLen(a.base)
	}
	return ListLen(a.base)
}

type engineErr struct{ msg string }

func (e engineErr) Error() string { return e.msg }

func unsupported(f string, a ...any) { panic(engineErr{fmt.Sprintf(f, a...)}) }
