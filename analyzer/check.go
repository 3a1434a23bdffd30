package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects the obligations of one property. An obligation is one
// instance of a rule at one construct of the repository; it is keyed by rule
// and construct, never by line.
type Check struct {
	innerTree  bool
	trees      map[*types.TypeName]bool
	lastEngine *Engine
	prep       func(*Engine) // prepares the next engines
	id         string
	p          *Program
	obs        map[string]*Ob
	order      []string
	funcs      map[*ssa.Function]bool
	paths      int
	notes      []string
}

type Ob struct {
	Rule, Construct string
	Ok              bool
	Detail          []string
	Pos             string
	N               int
}

type checkDef struct {
	run  func(*Check)
	rule string // what is decided, for the evidence
	min  int    // least number of obligations confirmed by hand
}

var checks = map[string]checkDef{}

func (c *Check) ob(ok bool, rule, construct string, pos token.Pos, detail string, a ...any) bool {
	k := rule + "|" + construct
	o := c.obs[k]
	if o == nil {
		o = &Ob{Rule: rule, Construct: construct, Ok: true}
		if c.p != nil {
			o.Pos = c.p.Pos(pos)
		}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	o.N++
	if !ok {
		o.Ok = false
		if c.p != nil && pos.IsValid() {
			o.Pos = c.p.Pos(pos)
		}
		if len(o.Detail) < 5 {
			o.Detail = append(o.Detail, clip(fmt.Sprintf(detail, a...), 1500))
		}
	}
	return ok
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// used records the functions an engine evaluated.
func (c *Check) used(e *Engine) {
	for f := range e.Visited {
		c.funcs[f] = true
	}
}

type knownFinding struct{ prop, key, text string }

func loadKnown() ([]knownFinding, error) {
	f, err := os.Open(filepath.Join(*verifDir, "known-findings.txt"))
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=<rule>|<construct> -- text
		l = strings.TrimPrefix(l, "known: ")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " -- ")
		if i < 0 || j < i {
			return nil, fmt.Errorf("known-findings.txt: bad line %q", l)
		}
		out = append(out, knownFinding{strings.TrimPrefix(l[:i], "property="), l[i+5 : j], l[j+4:]})
	}
	return out, sc.Err()
}

func runCheck(id string, p *Program, loadErr error) (good bool) {
	t0 := time.Now()
	c := &Check{id: id, p: p, obs: map[string]*Ob{}, funcs: map[*ssa.Function]bool{}}
	def, ok := checks[id]
	switch {
	case !ok:
		c.ob(false, "check", id, token.NoPos, "no check for this property")
	case loadErr != nil:
		c.ob(false, "load", "the repository", token.NoPos, "%v", loadErr)
	default:
		func() {
			defer func() {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					c.ob(false, "analysis", "undecided", token.NoPos, "the analysis could not decide: %v\n%s", r, clip(st, 3000))
				}
			}()
			def.run(c)
		}()
		c.ob(len(c.obs) >= def.min, "coverage", "instances of the rule", token.NoPos, "only %d obligations were found, %d are expected: the code the rule is about was not found", len(c.obs), def.min)
	}
	known, err := loadKnown()
	if err != nil {
		c.ob(false, "check", "known findings", token.NoPos, "%v", err)
	}
	var viol, kn []*Ob
	n, done := 0, 0
	rules := map[string][2]int{}
	for _, k := range c.order {
		o := c.obs[k]
		n++
		r := rules[o.Rule]
		r[0]++
		if o.Ok {
			done++
			r[1]++
		} else {
			isKnown := false
			for _, f := range known {
				if f.prop == id && f.key == k {
					isKnown = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
				}
			}
			if isKnown {
				kn = append(kn, o)
			} else {
				viol = append(viol, o)
			}
		}
		rules[o.Rule] = r
		if *verbose {
			fmt.Printf("  %v %s: %s (%d)\n", o.Ok, o.Rule, o.Construct, o.N)
		}
	}
	replay := filepath.Join(*verifDir, "evidence", "replay-"+id+".txt")
	os.MkdirAll(filepath.Dir(replay), 0755)
	os.Remove(replay)
	if len(viol) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d violated obligations\nrerun: cd %s && ./check.sh %s\n\n", id, len(viol), *verifDir, id)
		for _, o := range viol {
			fmt.Fprintf(&sb, "%s: rule %q broken at %s\n", o.Pos, o.Rule, o.Construct)
			for _, d := range o.Detail {
				fmt.Fprintf(&sb, "    %s\n", strings.ReplaceAll(d, "\n", "\n    "))
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
		fmt.Print(clip(sb.String(), 20000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	}
	var rl []string
	for r, x := range rules {
		rl = append(rl, fmt.Sprintf("%s: %d/%d", r, x[1], x[0]))
	}
	sort.Strings(rl)
	var fl []string
	for f := range c.funcs {
		fl = append(fl, fnKey(f))
	}
	sort.Strings(fl)
	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violated; %d functions analysed, %.1f s\n", id, n, done, len(kn), len(viol), len(fl), time.Since(t0).Seconds())
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	vs := []string{}
	for _, o := range viol {
		vs = append(vs, o.Rule+" | "+o.Construct+" | "+o.Pos)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"explanation":         def.rule,
			"obligations":         n,
			"discharged":          done,
			"known_findings":      len(kn),
			"obligations_by_rule": rl,
			"functions_analysed":  len(fl),
			"functions":           fl,
			"notes":               append([]string{}, c.notes...),
			"violated_constructs": vs,
		},
		"assumptions": []string{
			"the analyser models the Go language and the standard-library calls it names in models.go faithfully",
			"the SSA form built by golang.org/x/tools/go/ssa is the program",
		},
		"violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verifDir, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return false
	}
	return len(viol) == 0
}
