package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	Rule  string // which rule of the property
	Where string // file:line
	What  string // function or construct, stable under line moves
	Msg   string
}

func (f Finding) key() string { return f.Rule + " @ " + f.What }

// Check collects what one property's rules find.
type Check struct {
	scans     map[string]*scan
	errSeen   map[*ssa.Function]bool
	roles     map[*ssa.Function]*recvRole
	p         *Program
	id        string
	tier      string
	findings  []Finding
	seen      map[string]bool
	undecided []string
	counts    map[string]int
	samples   []string
	assume    []string
	rules     []string
	fns       map[string]bool
	memo      map[string]*Obj             // scenario objects by name, when shared
	onStart   func(r *stepRun, st *State) // the call has sent its INVITE
}

type property struct {
	id   string
	run  func(c *Check)
	rule string // one-paragraph statement of what is analysed
	load []string
}

var properties = map[string]*property{}

func register(id, rule string, run func(c *Check)) {
	properties[id] = &property{id: id, run: run, rule: rule}
}

// fail records a violation.
func (c *Check) fail(rule, where, what, format string, a ...any) {
	f := Finding{rule, where, what, fmt.Sprintf(format, a...)}
	k := f.key()
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.findings = append(c.findings, f)
}

// unsure records something the analysis could not decide; it is reported in
// the evidence and on stdout but is not an alarm.
func (c *Check) unsure(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, o := range c.undecided {
		if o == s {
			return
		}
	}
	c.undecided = append(c.undecided, s)
}

func (c *Check) count(name string, n int) { c.counts[name] += n }
func (c *Check) sample(format string, a ...any) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}
func (c *Check) assumption(s string) {
	for _, a := range c.assume {
		if a == s {
			return
		}
	}
	c.assume = append(c.assume, s)
}
func (c *Check) analysed(fn *ssa.Function) {
	if fn != nil {
		c.fns[fn.String()] = true
	}
}

// engine returns a fresh abstract interpreter over the loaded program.
func (c *Check) engine() *Engine {
	e := newEngine(c.p)
	e.initBase()
	return e
}

// fn looks a function up and notes when it is missing.
func (c *Check) fn(name string) *ssa.Function {
	f := c.p.fn(name)
	if f == nil {
		c.unsure("function %s not found", name)
	}
	return f
}

// obligations turns unproven obligations of an engine run into findings.
func (c *Check) obligations(e *Engine, rule string, skip func(o *Obligation) bool) {
	for f := range e.fnSeen {
		c.analysed(f)
	}
	if e.gaveUp != "" {
		c.unsure("analysis gave up: %s", e.gaveUp)
		return
	}
	for _, k := range sortedKeys(e.obls) {
		o := e.obls[k]
		if skip != nil && skip(o) {
			continue
		}
		c.count("obligations", 1)
		c.count("obligations:"+o.Kind, 1)
		if o.OK {
			c.count("discharged", 1)
			continue
		}
		c.fail(rule, c.p.pos(o.Pos), fnName(o.Fn)+": "+o.Kind+" "+o.Msg, "%s in %s (call path %s)", o.Msg, fnName(o.Fn), o.Trace)
	}
}

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

type knownEntry struct{ prop, key string }

func loadKnown() []knownEntry {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var r []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " ")
		key, _, _ := strings.Cut(strings.TrimPrefix(rest, "key="), " ## ")
		r = append(r, knownEntry{id, strings.TrimSpace(key)})
	}
	return r
}

func verifDir() string {
	if d := os.Getenv("GOSIP_VERIF"); d != "" {
		return d
	}
	if x, err := os.Executable(); err == nil {
		d := filepath.Dir(filepath.Dir(x))
		if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
			return d
		}
	}
	return "/verif"
}

func runProperty(id string) int {
	pr := properties[id]
	if pr == nil {
		fmt.Println("no such property", id)
		return 2
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Check{id: id, tier: tier, seen: map[string]bool{}, counts: map[string]int{}, fns: map[string]bool{}}
	p, err := loadProgram(pr.load...)
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	c.p = p
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("GOSIP_DEBUG") != "" {
					debug.PrintStack()
				}
				c.unsure("analyser stopped: %v", r)
			}
		}()
		pr.run(c)
	}()
	known := loadKnown()
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	var bad []Finding
	suppressed := 0
	for _, f := range c.findings {
		hit := false
		for _, k := range known {
			if k.prop == id && k.key == f.key() {
				hit = true
			}
		}
		if hit {
			suppressed++
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", id, f.Where, f.Msg, f.key())
			continue
		}
		bad = append(bad, f)
	}
	for _, u := range c.undecided {
		fmt.Printf("UNDECIDED property=%s %s\n", id, u)
	}
	cov := map[string]any{
		"explanation":        pr.rule,
		"rules_applied":      c.rules,
		"functions_analysed": sortedKeys(c.fns),
		"samples":            c.samples,
		"undecided":          c.undecided,
		"known_findings":     suppressed,
	}
	for k, v := range c.counts {
		cov["n_"+strings.ReplaceAll(k, " ", "_")] = v
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	replay := filepath.Join(dir, id+".violations.txt")
	os.Remove(replay)
	var ks []string
	for k := range c.counts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, c.counts[k]))
	}
	sort.Strings(ks)
	fmt.Printf("%s: %d functions, %s, %.1fs\n", id, len(c.fns), strings.Join(ks, " "), time.Since(t0).Seconds())
	if len(bad) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "%s\n  rule: %s\n  construct: %s\n  %s\n", f.Where, f.Rule, f.What, f.Msg)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}
