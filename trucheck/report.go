package main

// Obligations, violations, known findings and evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Ob struct {
	rule, construct string
	n, bad          int
	pos, msg        string
	trace           []string
}

// Report collects what one check decided
type Report struct {
	id      string
	p       *Program
	obs     map[string]*Ob
	need    map[string]int
	broken  []string // the machinery could not decide
	funcs   map[string]bool
	roots   map[string]bool
	steps   int
	forks   int
	joins   int
	sites   int
	events  map[string]int
	rules   []string
	note    []string
	files   map[string]bool
	started time.Time
}

func newReport(id string, p *Program) *Report {
	return &Report{id: id, p: p, obs: map[string]*Ob{}, need: map[string]int{}, funcs: map[string]bool{}, roots: map[string]bool{},
		events: map[string]int{}, files: map[string]bool{}, started: time.Now()}
}

// ob records one evaluation of an obligation
func (r *Report) ob(ok bool, rule, construct string, pos token.Pos, st *State, format string, a ...interface{}) bool {
	k := rule + "|" + construct
	o := r.obs[k]
	if o == nil {
		o = &Ob{rule: rule, construct: construct}
		r.obs[k] = o
	}
	o.n++
	if !ok {
		if st != nil && !r.isKnown(k) {
			st.dead = true // the verdict is settled, this path is not followed further
		}
		o.bad++
		if o.bad == 1 {
			if r.p != nil {
				o.pos = posStr(r.p.fset, pos)
			}
			o.msg = fmt.Sprintf(format, a...)
			if st != nil {
				for t := st.tr; t != nil && len(o.trace) < 25; t = t.up {
					o.trace = append([]string{posStr(r.p.fset, t.pos) + ": " + t.note}, o.trace...)
				}
			}
		}
	}
	return ok
}

func (r *Report) isKnown(k string) bool {
	knownOnce.Do(func() { knownList = loadKnown() })
	_, ok := knownList[r.id+"#"+k]
	return ok
}

var (
	knownOnce  sync.Once
	knownList  map[string]string
	overBudget atomic.Bool
)

// watchBudget ends the analysis before the time or the memory a check may use
// runs out; what is not decided by then is reported as undecided
func watchBudget() {
	limit := 420 * time.Second
	if s := os.Getenv("TRUCHECK_SECONDS"); s != "" {
		var n int
		if fmt.Sscan(s, &n); n > 0 {
			limit = time.Duration(n) * time.Second
		}
	}
	start := time.Now()
	go func() {
		for range time.Tick(250 * time.Millisecond) {
			m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			metrics.Read(m)
			if time.Since(start) > limit || m[0].Value.Uint64() > 12<<30 {
				overBudget.Store(true)
			}
		}
	}()
}

// atLeast: the rule must have matched at least n constructs
func (r *Report) atLeast(rule string, n int) { r.need[rule] = n }

// fail: the machinery can not decide; never counts as success
func (r *Report) fail(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, x := range r.broken {
		if x == s {
			return
		}
	}
	r.broken = append(r.broken, s)
}

// clean: no obligation failed except known findings
func (r *Report) clean() bool {
	if len(r.broken) > 0 {
		return false
	}
	known := loadKnown()
	for k, o := range r.obs {
		if _, ok := known[r.id+"#"+k]; o.bad > 0 && !ok {
			return false
		}
	}
	return true
}

func (r *Report) rule(s string) { r.rules = append(r.rules, s) }

// engine results
func (r *Report) absorb(e *Eng) {
	for f := range e.funcs {
		r.funcs[f.String()] = true
	}
	r.steps += e.steps
	r.forks += e.forks
	r.joins += e.joins + e.merges
	for i, n := range e.events {
		if n > 0 && i < len(evNames) {
			r.events[evNames[i]] += n
		}
	}
	for _, u := range e.undec {
		r.fail("not decided: %s", u)
	}
}

// run analyses the tasks with a rule
func (r *Report) run(rule *Rule, tasks ...func(e *Eng) *Task) *Eng {
	if !r.p.prepared {
		panic("phase 0 did not run")
	}
	e := newEng(r.p, rule)
	for _, mk := range tasks {
		t := mk(e)
		if t == nil {
			continue
		}
		r.roots[t.Kind+" "+t.Fn.String()] = true
		t0, s0 := time.Now(), e.steps
		if err := e.runSafe(t); err != nil {
			r.fail("%s: %v", t.Fn, err)
		}
		if debugTime && time.Since(t0) > 300*time.Millisecond {
			fmt.Fprintf(os.Stderr, "%-50s %6d steps %v joins %d\n", t.Fn, e.steps-s0, time.Since(t0).Round(time.Millisecond), e.joins)
			dumpSteps()
		}
	}
	r.absorb(e)
	return e
}

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func loadKnown() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// KNOWN: property=<id> key=<rule|construct> :: text
		if !strings.HasPrefix(l, "KNOWN: ") {
			continue
		}
		l = strings.TrimPrefix(l, "KNOWN: ")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		head, text := l[:i], l[i+4:]
		f := strings.SplitN(head, " key=", 2)
		if len(f) != 2 {
			continue
		}
		m[strings.TrimPrefix(f[0], "property=")+"#"+f[1]] = text
	}
	return m
}

// finish prints the verdict, writes evidence and replay, and gives the exit code
func (r *Report) finish(level string, assumptions []string, notCovered string) int {
	var keys []string
	for k := range r.obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	count := map[string]int{}
	for _, k := range keys {
		count[r.obs[k].rule]++
	}
	for rule, n := range r.need {
		if count[rule] < n {
			r.fail("rule %q matched %d constructs, at least %d expected", rule, count[rule], n)
		}
	}
	known := loadKnown()
	var viol []*Ob
	discharged := 0
	evals := 0
	var knownHit []string
	for _, k := range keys {
		o := r.obs[k]
		evals += o.n
		if o.bad == 0 {
			discharged++
			continue
		}
		if t, ok := known[r.id+"#"+k]; ok {
			knownHit = append(knownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.id, t))
			continue
		}
		viol = append(viol, o)
	}
	ev := filepath.Join(verifDir, "evidence")
	os.MkdirAll(ev, 0755)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	for _, k := range knownHit {
		fmt.Println(k)
	}
	replay := filepath.Join(ev, r.id+".replay.txt")
	os.Remove(replay)
	nviol := len(viol)
	if len(viol) == 0 && len(r.broken) > 0 {
		nviol = 1
	}
	if nviol > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n", r.id)
		for _, o := range viol {
			fmt.Fprintf(&sb, "\nrule: %s\nconstruct: %s\nat: %s\n%s\n", o.rule, o.construct, o.pos, o.msg)
			for _, t := range o.trace {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
		}
		for _, b := range r.broken {
			fmt.Fprintf(&sb, "\nundecided: %s\n", b)
		}
		fmt.Fprintf(&sb, "\nreproduce: cd %s && ./check.sh %s\n", verifDir, r.id)
		os.WriteFile(replay, []byte(sb.String()), 0644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, replay)
	}
	var samples []string
	for _, k := range keys {
		o := r.obs[k]
		s := fmt.Sprintf("%s @ %s: %d evaluations", o.rule, o.construct, o.n)
		if o.bad > 0 {
			s += fmt.Sprintf(", %d failed", o.bad)
		}
		samples = append(samples, s)
	}
	if len(samples) > 400 {
		samples = append(samples[:400:400], fmt.Sprintf("... %d more", len(samples)-400))
	}
	srt := func(m map[string]bool) []string {
		var s []string
		for k := range m {
			s = append(s, strings.ReplaceAll(k, modPath, "tru"))
		}
		sort.Strings(s)
		return s
	}
	perRule := map[string]int{}
	for k, n := range count {
		perRule[k] = n
	}
	cov := map[string]interface{}{
		"explanation":             strings.Join(r.rules, " ") + " Not covered: " + notCovered,
		"obligations":             len(keys),
		"discharged":              discharged,
		"known_findings":          len(knownHit),
		"obligations_per_rule":    perRule,
		"evaluations":             evals,
		"analysed_functions":      srt(r.funcs),
		"analysis_roots":          srt(r.roots),
		"abstract_steps":          r.steps,
		"path_splits":             r.forks,
		"state_joins":             r.joins,
		"program_events_examined": r.events,
		"samples":                 samples,
		"checker_cmd":             "./check.sh " + r.id,
		"trusted_base":            []string{"go/types and golang.org/x/tools/go/ssa front end", "the models of the standard library calls in trucheck/model.go", "the abstract interpreter in trucheck"},
		"undecided":               r.broken,
		"notes":                   r.note,
	}
	if r.p != nil {
		cov["module_functions_loaded"] = len(r.p.functions())
		cov["packages"] = len(r.p.pkgs)
	}
	out := map[string]interface{}{
		"property": r.id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(r.started).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(ev, r.id+".json"), append(b, '\n'), 0644)
	if nviol > 0 {
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d discharged=%d known=%d functions=%d steps=%d\n", r.id, len(keys), discharged, len(knownHit), len(r.funcs), r.steps)
	return 0
}

// merge takes over what a part of the check decided
func (r *Report) merge(q *Report) {
	for k, o := range q.obs {
		x := r.obs[k]
		if x == nil {
			r.obs[k] = o
			continue
		}
		x.n += o.n
		if o.bad > 0 && x.bad == 0 {
			x.pos, x.msg, x.trace = o.pos, o.msg, o.trace
		}
		x.bad += o.bad
	}
	for _, b := range q.broken {
		r.fail("%s", b)
	}
}

// runAll analyses every entry point of the library, and what it starts, with a
// rule
func (r *Report) runAll(mk func(q *Report) *Rule) {
	var parts []*Report
	engs, err := r.p.runAll(func() *Rule {
		q := newReport(r.id, r.p)
		parts = append(parts, q)
		return mk(q)
	})
	if err != nil {
		r.fail("%v", err)
	}
	for _, f := range r.p.apiRoots() {
		r.roots["root "+f.String()] = true
	}
	for _, q := range parts {
		r.merge(q)
	}
	for _, e := range engs {
		if e != nil {
			r.absorb(e)
		}
	}
}

// runTasks analyses several roots at the same time, each with its own rule
func (r *Report) runTasks(mk func(q *Report) *Rule, tasks ...func(e *Eng) *Task) {
	parts := make([]*Report, len(tasks))
	engs := make([]*Eng, len(tasks))
	rules := make([]*Rule, len(tasks))
	for i := range tasks {
		parts[i] = newReport(r.id, r.p)
		rules[i] = mk(parts[i])
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	if debugTime {
		sem = make(chan bool, 1)
	}
	for i := range tasks {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			if !r.p.prepared {
				panic("phase 0 did not run")
			}
			e := newEng(r.p, rules[i])
			engs[i] = e
			t := tasks[i](e)
			if t == nil {
				return
			}
			parts[i].roots[t.Kind+" "+t.Fn.String()] = true
			if err := e.runSafe(t); err != nil {
				parts[i].fail("%s: %v", t.Fn, err)
			}
		}(i)
	}
	wg.Wait()
	for i := range tasks {
		r.merge(parts[i])
		for k := range parts[i].roots {
			r.roots[k] = true
		}
		if engs[i] != nil {
			r.absorb(engs[i])
		}
	}
}
