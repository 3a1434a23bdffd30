package main

import (
	"golang.org/x/tools/go/ssa"
)

// Control-flow structure: natural loops and, per loop region, immediate
// post-dominators of the acyclic graph left when inner loops are collapsed
// into their headers and back and exit edges go to a virtual end.

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loop
	exits  []*ssa.BasicBlock // targets outside the body
}

type cfg struct {
	fn     *ssa.Function
	loops  map[*ssa.BasicBlock]*loop // by header
	inner  map[*ssa.BasicBlock]*loop // innermost loop of a block
	pdom   map[*loop]map[*ssa.BasicBlock]*ssa.BasicBlock
	irred  bool
	onlyIn map[*ssa.BasicBlock]bool
}

func buildCFG(fn *ssa.Function) *cfg {
	c := &cfg{fn: fn, loops: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}, pdom: map[*loop]map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				var add func(*ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	for _, l := range c.loops {
		seen := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			if !l.body[b] {
				continue
			}
			for _, s := range b.Succs {
				if !l.body[s] && !seen[s] {
					seen[s] = true
					l.exits = append(l.exits, s)
				}
			}
			if o := c.inner[b]; o == nil || len(l.body) < len(o.body) {
				c.inner[b] = l
			}
		}
	}
	for _, l := range c.loops {
		for _, m := range c.loops {
			if m != l && m.body[l.header] && len(m.body) > len(l.body) {
				if l.parent == nil || len(m.body) < len(l.parent.body) {
					l.parent = m
				}
			}
		}
	}
	// irreducible regions: a retreating edge whose target does not dominate
	state := map[*ssa.BasicBlock]int{}
	var dfs func(*ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				if !s.Dominates(b) {
					c.irred = true
				}
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return c
}

// region successors of b inside loop lp (nil: whole function); nil target is the end.
func (c *cfg) succs(lp *loop, b *ssa.BasicBlock) []*ssa.BasicBlock {
	var raw []*ssa.BasicBlock
	if l := c.loops[b]; l != nil && l != lp {
		raw = l.exits
	} else {
		raw = b.Succs
	}
	var out []*ssa.BasicBlock
	end := false
	for _, s := range raw {
		if lp != nil && (s == lp.header || !lp.body[s]) {
			end = true
			continue
		}
		out = append(out, s)
	}
	if end || len(raw) == 0 {
		out = append(out, nil)
	}
	return out
}

// ipdom is the immediate post-dominator of b in the region of lp; nil is the end.
func (c *cfg) ipdom(lp *loop, b *ssa.BasicBlock) *ssa.BasicBlock {
	m := c.pdom[lp]
	if m == nil {
		m = c.computePdom(lp)
		c.pdom[lp] = m
	}
	return m[b]
}

func (c *cfg) computePdom(lp *loop) map[*ssa.BasicBlock]*ssa.BasicBlock {
	// nodes in reverse topological order
	var entry *ssa.BasicBlock
	if lp != nil {
		entry = lp.header
	} else {
		entry = c.fn.Blocks[0]
	}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(*ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range c.succs(lp, b) {
			if s != nil && !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b) // post-order: successors first
	}
	dfs(entry)
	// set of post-dominators as chains (tree with depth)
	ip := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	depth := map[*ssa.BasicBlock]int{nil: 0}
	for _, b := range order {
		first := true
		var cur *ssa.BasicBlock
		for _, s := range c.succs(lp, b) {
			if first {
				cur, first = s, false
				continue
			}
			x, y := cur, s
			for x != y {
				if depth[x] >= depth[y] {
					x = ip[x]
				} else {
					y = ip[y]
				}
			}
			cur = x
		}
		ip[b] = cur
		depth[b] = depth[cur] + 1
	}
	return ip
}
