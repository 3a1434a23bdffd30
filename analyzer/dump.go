package main

import (
	"fmt"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func dumpMain(p *Program, args []string) {
	if len(args) > 0 && args[0] == "-all" {
		allFuncs(p)
		return
	}
	dump(p, args)
}

func (p *Program) find(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if fnKey(f) == name || strings.TrimPrefix(fnKey(f), "bbs/") == name {
			return f
		}
	}
	return nil
}

func dump(p *Program, names []string) {
	for _, n := range names {
		e := NewEngine(p)
		fn := p.find(n)
		if fn == nil {
			fmt.Println("no function", n)
			for _, f := range p.Funcs {
				if strings.Contains(fnKey(f), n) {
					fmt.Println("   ", fnKey(f))
				}
			}
			continue
		}
		t0 := time.Now()
		st := newState()
		var args []*Term
		for _, a := range fn.Params {
			args = append(args, mk("param", a.Type(), a.Name(), 0))
		}
		e.nonNil = func(t *Term) bool { return t.Op == "param" }
		outs, err := e.Call(fn, args, st)
		fmt.Println("==", fnKey(fn), err, len(outs), "outcomes", e.steps, "steps", time.Since(t0))
		for i, o := range outs {
			fmt.Println("-- outcome", i, o.kind, "guard", o.guard)
			for j, r := range o.ret {
				fmt.Println("   ret", j, r)
				for r.Op == "ite" {
					if r.Args[1].Op == "nil" {
						r = r.Args[2]
					} else {
						r = r.Args[1]
					}
				}
				if r.Op == "ref" {
					printVal(e, o.st, r)
				}
				if r.Op == "slice" {
					fmt.Println("      ", e.readSlice(o.st, r, e.objs[r.Args[0].N].ty))
				}
			}
			for _, a := range args {
				if ob := e.byKey[a]; ob != nil {
					if v, ok := o.st.mem[ob.id]; ok {
						fmt.Println("   mem", a, v)
					}
				}
			}
			for _, f := range o.st.facts.list() {
				fmt.Println("   fact", f)
			}
			printItems(items(o.st.trace, nil), "   ")
		}
		for _, l := range e.loops {
			fmt.Println("  LOOP", l.ID, l.Fn.Name())
			printItems([]any{l}, "    ")
			for _, m := range l.Mod {
				fmt.Println("     mod", m.Obj, m.Init, m.Val)
			}
			for i, t := range l.Iters {
				for k, v := range t.Mem {
					switch x := v.(type) {
					case *ArrV:
						fmt.Println("     mem", i, k, x.base, x.cells)
					default:
						fmt.Println("     mem", i, k, v)
					}
				}
				for _, n := range t.Next {
					if n.Op == "slice" && n.Args[0].Op == "ref" {
						fmt.Println("     content", i, e.readSlice(t.St, n, e.objs[n.Args[0].N].ty))
					}
				}
			}
		}
		for _, o := range e.obls {
			if !o.Ok {
				fmt.Println("  OBL", o.Kind, p.Pos(o.Instr.Pos()), o.Detail)
			}
		}
		if len(e.Unknown) > 0 {
			fmt.Println("unknown", e.Unknown)
		}
	}
}

func printItems(its []any, ind string) {
	for _, it := range its {
		switch x := it.(type) {
		case *Event:
			d := ""
			if x.Deferred {
				d = " (deferred)"
			}
			fmt.Println(ind+"event", x.ID, x.Kind, x.Name, x.Content, d)
		case *LoopItem:
			fmt.Println(ind+"loop", x.ID)
			for _, p := range x.Phis {
				fmt.Println(ind+"  phi", p.Instr.Comment, p.Init, p.Val, p.Exact)
			}
			for i, t := range x.Iters {
				fmt.Println(ind+"  iter", i)
				printItems(t.Items, ind+"    ")
				for _, n := range t.Next {
					fmt.Println(ind+"    next", n)
				}
			}
		}
	}
}

func printVal(e *Engine, st *State, r *Term) {
	v := e.load(st, r, nil)
	if v.Op == "struct" && v.Ty != nil {
		s := structOf(v.Ty)
		for i, a := range v.Args {
			fmt.Println("        ", s.Field(i).Name(), "=", a)
		}
		return
	}
	fmt.Println("       ", v)
}

func allFuncs(p *Program) {
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		e := NewEngine(p)
		t0 := time.Now()
		st := newState()
		var args []*Term
		for _, a := range fn.Params {
			args = append(args, mk("param", a.Type(), a.Name(), 0))
		}
		e.nonNil = func(t *Term) bool { return t.Op == "param" }
		outs, err := e.Call(fn, args, st)
		bad := 0
		for _, o := range e.obls {
			if !o.Ok {
				bad++
			}
		}
		d := time.Since(t0)
		fmt.Println(fnKey(fn), "outs", len(outs), "steps", e.steps, "obls", len(e.obls), "bad", bad, "err", err, d.Milliseconds(), "ms", e.Unknown)
	}
}
