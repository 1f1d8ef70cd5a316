package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one obligation: a rule instantiated at a named construct.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Where     string `json:"where,omitempty"`
	Detail    string `json:"detail,omitempty"`
}

func (o *Obl) Key() string { return o.Rule + "|" + o.Construct }

// Ctx collects the obligations of one property.
type Ctx struct {
	W         *World
	Prop      string
	Tier      string
	obls      map[string]*Obl
	order     []string
	floors    map[string]int
	funcs     map[string]bool
	steps     int
	Notes     []string
	Assume    []string
	RuleTexts []string
	suffixes  map[string]string
	legRoles  map[string]bool
}

func NewCtx(w *World, prop, tier string) *Ctx {
	return &Ctx{W: w, Prop: prop, Tier: tier, obls: map[string]*Obl{}, floors: map[string]int{}, funcs: map[string]bool{}}
}

// Ok records an obligation as discharged (unless it already failed).
func (c *Ctx) Ok(rule, construct, where string) {
	k := rule + "|" + construct
	if _, ok := c.obls[k]; ok {
		return
	}
	c.obls[k] = &Obl{Rule: rule, Construct: construct, OK: true, Where: where}
	c.order = append(c.order, k)
}

// Fail records a violated obligation.
func (c *Ctx) Fail(rule, construct, where, format string, a ...any) {
	k := rule + "|" + construct
	d := fmt.Sprintf(format, a...)
	if o, ok := c.obls[k]; ok {
		if o.OK {
			o.OK, o.Detail, o.Where = false, d, where
		}
		return
	}
	c.obls[k] = &Obl{Rule: rule, Construct: construct, Where: where, Detail: d}
	c.order = append(c.order, k)
}

// Check records ok or failure.
func (c *Ctx) Check(ok bool, rule, construct, where, format string, a ...any) {
	if ok {
		c.Ok(rule, construct, where)
	} else {
		c.Fail(rule, construct, where, format, a...)
	}
}

// Floor demands at least n instances of a rule (a rule matching nothing passes vacuously).
func (c *Ctx) Floor(rule string, n int) { c.floors[rule] = n }

// Rule documents a rule applied.
func (c *Ctx) Rule(name, text string) { c.RuleTexts = append(c.RuleTexts, name+": "+text) }

// Engine accounts for an engine run.
func (c *Ctx) Engine(en *Engine) {
	c.steps += en.Total + en.Steps
	for f := range en.Inlined {
		c.funcs[fnName(f)] = true
	}
	for _, u := range en.Undecided {
		c.Fail("undecided", u, "", "the analysis could not decide: %s", u)
	}
}

// Saw records an analysed function.
func (c *Ctx) Saw(names ...string) {
	for _, n := range names {
		c.funcs[n] = true
	}
}

func (c *Ctx) finish() {
	cnt := map[string]int{}
	for _, o := range c.obls {
		cnt[o.Rule]++
	}
	for _, r := range sortedKeys(c.floors) {
		if cnt[r] < c.floors[r] {
			c.Fail("floor", r, "", "rule %s matched %d instances, at least %d were confirmed by reading: its anchors no longer resolve", r, cnt[r], c.floors[r])
		}
	}
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(path string) ([]finding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var doc struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		return nil, err
	}
	return doc.Findings, nil
}

// emit prints the verdict, writes the evidence file and returns the exit code.
func (c *Ctx) emit(verif string, start time.Time, seed int, known []finding) int {
	c.finish()
	var viol, kn []*Obl
	failed := map[string]bool{}
	for _, o := range c.obls {
		if !o.OK {
			failed[o.Key()] = true
		}
	}
	ok := 0
	moved := map[string]bool{}
	byRule := map[string]int{}
	for _, k := range c.order {
		o := c.obls[k]
		byRule[o.Rule]++
		if o.OK {
			ok++
			continue
		}
		listed := false
		for _, f := range known {
			if f.Property != c.Prop || f.Status != "known" || listed {
				continue
			}
			if f.Key == o.Key() || !failed[f.Key] && !moved[f.Key] && c.W.movedKey(f.Key, o.Key()) {
				moved[f.Key] = f.Key != o.Key()
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, f.What)
			}
		}
		if listed {
			kn = append(kn, o)
		} else {
			viol = append(viol, o)
		}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	var samples []string
	for _, k := range c.order {
		o := c.obls[k]
		if o.OK && len(samples) < 12 {
			samples = append(samples, fmt.Sprintf("%s @ %s (%s)", o.Rule, o.Construct, o.Where))
		}
	}
	rules := c.RuleTexts
	cov := map[string]any{
		"explanation":          "Static analysis of the type-checked SSA program of /repo's working tree. Rules: " + strings.Join(rules, " || "),
		"obligations":          len(c.obls),
		"discharged":           ok,
		"known_findings":       len(kn),
		"obligations_by_rule":  byRule,
		"functions_analysed":   len(c.funcs),
		"functions_in_module":  len(c.W.Funcs),
		"packages_analysed":    len(c.W.Pkgs),
		"packages_typechecked": c.W.Deps,
		"abstract_steps":       c.steps,
		"samples":              samples,
	}
	fl := sortedKeys(c.funcs)
	if len(fl) > 60 {
		fl = fl[:60]
	}
	cov["functions_sample"] = fl
	if len(c.Notes) > 0 {
		cov["notes"] = c.Notes
	}
	ev := map[string]any{"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol)}
	if len(c.Assume) > 0 {
		ev["assumptions"] = c.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("property %s: %d obligations, %d discharged, %d known, %d violated; %d functions, %d abstract steps, %.1fs\n",
		c.Prop, len(c.obls), ok, len(kn), len(viol), len(c.funcs), c.steps, time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Rule != "floor" && viol[j].Rule == "floor" })
	rp := filepath.Join(dir, c.Prop+".violation.json")
	vb, _ := json.MarshalIndent(viol, "", " ")
	os.WriteFile(rp, vb, 0o644)
	for _, o := range viol {
		fmt.Printf("  %s [%s] %s: %s\n", o.Where, o.Rule, o.Construct, o.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rp)
	return 1
}

// movedKey: the construct differs from the listed one only in that the code was moved into a
// function of its own, which nothing but the function it was moved out of calls.
func (w *World) movedKey(listed, got string) bool {
	split := func(s string) []string {
		return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '|' })
	}
	a, b := split(listed), split(got)
	if len(a) != len(b) {
		return false
	}
	from, to := "", ""
	for i := range a {
		if a[i] != b[i] {
			if from != "" {
				return false
			}
			from, to = a[i], b[i]
		}
	}
	if from == "" {
		return false
	}
	var old, helper *ssa.Function
	for _, f := range w.Funcs {
		switch fnName(f) {
		case from:
			old = f
		case to:
			helper = f
		}
	}
	if old == nil || helper == nil {
		return false
	}
	for d := 0; d < 3; d++ {
		calls, all := w.allCalls(helper)
		if !all || len(calls) == 0 {
			return false
		}
		by := rootOf(calls[0].Parent())
		for _, k := range calls {
			if rootOf(k.Parent()) != by {
				return false
			}
		}
		if by == old {
			return true
		}
		helper = by
	}
	return false
}

func rootOf(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}
