package main

// Check framework: obligations, violations, known findings, evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Key string // rule|construct, stable under edits elsewhere
	Pos string
	Msg string
}

type Ctx struct {
	P    *Prog
	ID   string
	Tier string

	viol    map[string]Finding
	known   map[string]bool
	rules   map[string]string          // rule -> text
	inst    map[string]map[string]bool // rule -> constructs
	floors  map[string]int
	assume  []string
	fns     map[*ssa.Function]bool
	paths   int
	blocks  int
	calls   int
	inlined int
	samples []string
	notes   []string
}

// Rule declares a rule and its text
func (c *Ctx) Rule(name, text string, floor int) {
	c.rules[name] = text
	c.floors[name] = floor
	if c.inst[name] == nil {
		c.inst[name] = map[string]bool{}
	}
}

// Site counts an obligation
func (c *Ctx) Site(rule, construct string) {
	if c.inst[rule] == nil {
		c.inst[rule] = map[string]bool{}
	}
	if !c.inst[rule][construct] {
		c.inst[rule][construct] = true
		if len(c.samples) < 400 {
			c.samples = append(c.samples, rule+": "+construct)
		}
	}
}

// Bad reports a violation
func (c *Ctx) Bad(rule, construct, pos, f string, a ...interface{}) {
	c.Site(rule, construct)
	k := rule + "|" + construct
	if _, ok := c.viol[k]; ok {
		return
	}
	c.viol[k] = Finding{Key: k, Pos: pos, Msg: fmt.Sprintf(f, a...)}
}

// Expect is Site plus Bad when the condition fails
func (c *Ctx) Expect(ok bool, rule, construct, pos, f string, a ...interface{}) bool {
	c.Site(rule, construct)
	if !ok {
		c.Bad(rule, construct, pos, f, a...)
	}
	return ok
}

// Sub runs another rule set and takes over what it says about some rules
// (all undecided questions included)
func (c *Ctx) Sub(run func(c *Ctx), rules map[string]string) {
	d := &Ctx{P: c.P, ID: c.ID, Tier: c.Tier, viol: map[string]Finding{}, rules: map[string]string{}, inst: map[string]map[string]bool{},
		floors: map[string]int{}, fns: c.fns}
	run(d)
	for r, as := range rules {
		if _, ok := c.rules[as]; !ok {
			c.Rule(as, d.rules[r], d.floors[r])
		}
		for k := range d.inst[r] {
			c.Site(as, k)
		}
	}
	for k, f := range d.viol {
		i := strings.Index(k, "|")
		as, ok := rules[k[:i]]
		if !ok {
			switch k[:i] {
			case "undecided", "anchor", "internal", "floor":
				as = k[:i]
			default:
				continue
			}
		}
		c.Bad(as, k[i+1:], f.Pos, "%s", f.Msg)
	}
	c.paths += d.paths
	c.blocks += d.blocks
	c.calls += d.calls
	c.inlined += d.inlined
	c.assume = append(c.assume, d.assume...)
}

// Fork is a context for the same rules, to Join if what it says counts
func (c *Ctx) Fork() *Ctx {
	return &Ctx{P: c.P, ID: c.ID, Tier: c.Tier, viol: map[string]Finding{}, rules: c.rules, inst: map[string]map[string]bool{},
		floors: map[string]int{}, fns: map[*ssa.Function]bool{}}
}

func (c *Ctx) Join(d *Ctx) {
	for r, m := range d.inst {
		for k := range m {
			c.Site(r, k)
		}
	}
	for k, f := range d.viol {
		i := strings.Index(k, "|")
		c.Bad(k[:i], k[i+1:], f.Pos, "%s", f.Msg)
	}
	for f := range d.fns {
		c.fns[f] = true
	}
	c.paths += d.paths
	c.blocks += d.blocks
	c.calls += d.calls
	c.inlined += d.inlined
	c.assume = append(c.assume, d.assume...)
}

func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Anchor reports a missing anchor
func (c *Ctx) Anchor(what string) {
	c.Bad("anchor", what, "?", "the anchor %s does not exist any more: the rule cannot be decided", what)
}

// Done collects the measures of a walker
func (c *Ctx) Done(w *Walker) {
	c.paths += w.NPaths
	c.blocks += w.NItems
	c.calls += w.NCalls
	c.inlined += w.NInlined
	for f := range w.FnSeen {
		c.fns[f] = true
	}
	for _, u := range w.Undecided {
		c.Bad("undecided", u, "?", "the analysis could not decide: %s", u)
	}
}

func (c *Ctx) at(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		// nearest positioned instruction of the block
		if b := in.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					p = x.Pos()
				}
				if x == in && p.IsValid() {
					break
				}
			}
		}
		if !p.IsValid() && in.Parent() != nil {
			p = in.Parent().Pos()
		}
	}
	return c.P.pos(p)
}

type CheckDef struct {
	ID    string
	Title string
	Expl  string
	Level string
	Run   func(c *Ctx)
}

var checks []CheckDef

func register(id, title, expl string, run func(c *Ctx)) {
	checks = append(checks, CheckDef{ID: id, Title: title, Expl: expl, Level: "other", Run: run})
}

func readKnown(path, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		pre := "known: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		l = strings.TrimPrefix(l, pre)
		if i := strings.Index(l, " :: "); i >= 0 {
			out[strings.TrimSpace(l[:i])] = strings.TrimSpace(l[i+4:])
		}
	}
	return out
}

func runCheck(d CheckDef, repo, verif, tier string, seed int, p *Prog, verbose bool) int {
	start := time.Now()
	c := &Ctx{P: p, ID: d.ID, Tier: tier, viol: map[string]Finding{}, rules: map[string]string{}, inst: map[string]map[string]bool{},
		floors: map[string]int{}, fns: map[*ssa.Function]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if verbose {
					fmt.Println(st)
				}
				c.Bad("internal", fmt.Sprint(r), "?", "the analyser failed: %v\n%s", r, st)
			}
		}()
		if len(p.Errs) > 0 {
			for _, e := range p.Errs {
				c.Bad("typecheck", e, "?", "the repository does not type-check: %s", e)
			}
			return
		}
		d.Run(c)
		for r, n := range c.floors {
			if len(c.inst[r]) < n {
				c.Bad("floor", r, "?", "rule %s matched %d constructs, at least %d were confirmed by hand", r, len(c.inst[r]), n)
			}
		}
	}()
	known := readKnown(filepath.Join(verif, "known-findings.txt"), d.ID)
	var keys []string
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	nviol := 0
	var rep strings.Builder
	for _, k := range keys {
		f := c.viol[k]
		if what, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.ID, what)
			continue
		}
		nviol++
		fmt.Fprintf(&rep, "%s: property=%s rule=%s\n    %s\n", f.Pos, d.ID, f.Key, f.Msg)
	}
	ev := map[string]interface{}{
		"property": d.ID, "tier": tier, "seed": seed, "level": d.Level,
		"assumptions": c.assume, "violations": nviol,
	}
	obl := 0
	per := map[string]interface{}{}
	for r, m := range c.inst {
		if r == "floor" || r == "anchor" || r == "undecided" || r == "internal" || r == "typecheck" {
			continue
		}
		obl += len(m)
		per[r] = map[string]interface{}{"rule": c.rules[r], "constructs": len(m), "floor": c.floors[r]}
	}
	var fl []string
	for f := range c.fns {
		fl = append(fl, fname(f))
	}
	sort.Strings(fl)
	sort.Strings(c.samples)
	sm := c.samples
	if len(sm) > 60 {
		sm = sm[:60]
	}
	ev["coverage"] = map[string]interface{}{
		"explanation":         d.Expl,
		"obligations":         obl,
		"discharged":          obl - len(c.viol),
		"rules":               per,
		"functions_analysed":  len(fl),
		"functions":           fl,
		"abstract_exit_paths": c.paths,
		"abstract_states":     c.blocks,
		"call_sites":          c.calls,
		"calls_inlined":       c.inlined,
		"samples":             sm,
		"notes":               c.notes,
	}
	ev["wall_s"] = time.Since(start).Seconds()
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", d.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	rp := filepath.Join(verif, "evidence", d.ID+".violation.txt")
	if nviol > 0 {
		os.WriteFile(rp, []byte(rep.String()), 0644)
		fmt.Print(rep.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.ID, rp)
		return 1
	}
	os.Remove(rp)
	fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d states=%d wall=%.1fs\n", d.ID, obl, len(fl), c.paths, c.blocks, time.Since(start).Seconds())
	return 0
}

var dbgName = os.Getenv("CXODBG")

// dbg prints an exit of a function, for development (CXODBG=name)
func dbg(what, name string, e *Exit) {
	if dbgName == "" || dbgName != name {
		return
	}
	fmt.Println("EXIT", what, name, e.Rets, "panic", e.Panic)
	for _, ev := range e.St.Events() {
		fmt.Println("   ", ev)
	}
	for a, v := range e.St.mem {
		fmt.Println("      mem", a, "=", v)
	}
	fmt.Println("      facts", e.St.facts)
}
