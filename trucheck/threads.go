package main

// Every goroutine of the library as a root of its own.

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// goWrap: a closure or method value that does nothing but call one function of
// the module stands for that function; args tells for each argument the captured
// variable (loaded if ind) or the parameter it comes from
type goArg struct {
	free, par int
	ind       bool
	val       ssa.Value
}

func (p *Program) goWrap(f *ssa.Function) (g *ssa.Function, args []goArg) {
	if f == nil || len(f.Blocks) != 1 || f.Parent() == nil && f.Synthetic == "" || len(f.FreeVars) == 0 && len(f.Params) == 0 {
		return nil, nil
	}
	var call *ssa.Call
	for _, i := range f.Blocks[0].Instrs {
		switch x := i.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.FreeVar); !ok {
				return nil, nil
			}
		case *ssa.Call:
			if call != nil {
				return nil, nil
			}
			call = x
		case *ssa.Return:
		default:
			return nil, nil
		}
	}
	if call == nil {
		return nil, nil
	}
	g = call.Call.StaticCallee()
	if g == nil || g.Parent() != nil || g.Blocks == nil || !p.inModule(g) || len(g.FreeVars) > 0 {
		return nil, nil
	}
	for _, a := range call.Call.Args {
		x := goArg{free: -1, par: -1, val: a}
		if u, ok := a.(*ssa.UnOp); ok {
			a, x.ind = u.X, true
		}
		for i, v := range f.FreeVars {
			if a == v {
				x.free = i
			}
		}
		for i, v := range f.Params {
			if a == v {
				x.par = i
			}
		}
		if _, ok := a.(*ssa.Const); !ok && x.free < 0 && x.par < 0 {
			return nil, nil
		}
		args = append(args, x)
	}
	return g, args
}

// goCallee: the function a go statement runs
func (p *Program) goCallee(g *ssa.Go) *ssa.Function {
	c := g.Call.StaticCallee()
	if c == nil {
		return nil
	}
	if w, _ := p.goWrap(c); w != nil {
		return w
	}
	return c
}

// goSites: where the function is started, and its other uses
func (p *Program) goSites(f *ssa.Function) (gos, others []ssa.Instruction) {
	wraps := map[*ssa.Function]bool{}
	for _, h := range p.functions() {
		for _, b := range h.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok && p.goCallee(g) == f {
					gos = append(gos, g)
					if c := g.Call.StaticCallee(); c != f {
						wraps[c] = true
					}
				}
			}
		}
	}
	for _, u := range p.callersOf()[f] {
		if g, ok := u.(*ssa.Go); ok && g.Call.StaticCallee() == f {
			continue
		}
		if wraps[u.Parent()] {
			continue
		}
		others = append(others, u)
	}
	return
}

// goTargets are the named functions that are started as goroutines
func (p *Program) goTargets() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				c := p.goCallee(g)
				if c != nil && c.Parent() == nil && len(c.FreeVars) == 0 && p.inModule(c) && !seen[c] {
					seen[c] = true
					out = append(out, c)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// threadTasks gives every entry point of the library and every named function
// that runs as a goroutine; goroutines and timers made from closures are
// analysed where they start, with what is known there
func (p *Program) threadTasks(keep func(f *ssa.Function) bool) []func(e *Eng) *Task {
	var ts []func(e *Eng) *Task
	seen := map[*ssa.Function]bool{}
	listens := map[*ssa.Function]bool{}
	for _, f := range p.listenerFns() {
		listens[f] = true
	}
	for _, f := range append(p.goTargets(), p.apiRoots()...) {
		if seen[f] || keep != nil && !keep(f) {
			continue
		}
		seen[f] = true
		if listens[f] {
			ts = append(ts, listenerRoot(f))
		} else {
			ts = append(ts, apiRoot(f))
		}
	}
	return ts
}

// runThreads runs a rule over threadTasks
func (r *Report) runThreads(mk func(q *Report) *Rule, keep func(f *ssa.Function) bool) {
	named := map[*ssa.Function]bool{}
	for _, f := range r.p.goTargets() {
		named[f] = true
	}
	r.runTasks(func(q *Report) *Rule {
		rule := mk(q)
		own := rule.OnSpawn
		rule.OnSpawn = func(e *Eng, st *State, t *Task) bool {
			if t.Fn != nil && named[t.Fn] {
				return false
			}
			return own == nil || own(e, st, t)
		}
		return rule
	}, r.p.threadTasks(keep)...)
}

// reaches: some function reachable from f in the source satisfies the test
func (p *Program) reaches(test func(f *ssa.Function) bool) func(f *ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	return func(root *ssa.Function) bool {
		if v, ok := memo[root]; ok {
			return v
		}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			if f == nil || seen[f] || f.Blocks == nil {
				return false
			}
			seen[f] = true
			if test(f) {
				return true
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var ops []*ssa.Value
					for _, o := range i.Operands(ops) {
						if o != nil && *o != nil {
							if g, ok := (*o).(*ssa.Function); ok && p.inModule(g) && walk(g) {
								return true
							}
						}
					}
				}
			}
			return false
		}
		v := walk(root)
		memo[root] = v
		return v
	}
}

// sendsOn: the function itself sends on a channel held in the field
func sendsOn(is func(ch ssa.Value) bool) func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Send:
					if is(x.Chan) {
						return true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Send != nil && is(s.Chan) {
							return true
						}
					}
				}
			}
		}
		return false
	}
}

// reachesWithout gives a function satisfying the test that is reachable from the
// root without entering a function of skip
func (p *Program) reachesWithout(test func(f *ssa.Function) bool, skip map[*ssa.Function]bool) func(f *ssa.Function) *ssa.Function {
	memo := map[*ssa.Function]bool{}
	return func(root *ssa.Function) *ssa.Function {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) *ssa.Function
		walk = func(f *ssa.Function) *ssa.Function {
			if f == nil || seen[f] || skip[f] || f.Blocks == nil {
				return nil
			}
			seen[f] = true
			t, ok := memo[f]
			if !ok {
				t = test(f)
				memo[f] = t
			}
			if t {
				return f
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var ops []*ssa.Value
					for _, o := range i.Operands(ops) {
						if o != nil && *o != nil {
							if g, ok := (*o).(*ssa.Function); ok && p.inModule(g) {
								if w := walk(g); w != nil {
									return w
								}
							}
						}
					}
				}
			}
			return nil
		}
		return walk(root)
	}
}
