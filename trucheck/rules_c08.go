package main

// C08: no datagram can crash the process.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// listenerFns are the functions started with go that read datagrams
func (p *Program) listenerFns() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				if c := p.goCallee(g); c != nil && p.readsNet[c] && !seen[c] {
					seen[c] = true
					out = append(out, c)
				}
			}
		}
	}
	return out
}

func listenerRoot(fn *ssa.Function) func(e *Eng) *Task {
	return func(e *Eng) *Task {
		t := e.RootTask(fn)
		t.Kind = "listener"
		return t
	}
}

func apiRoot(fn *ssa.Function) func(e *Eng) *Task {
	return func(e *Eng) *Task { return e.RootTask(fn) }
}

func desc(v *V) string {
	s := v.String()
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.RelString(nil)[len(pkgPrefix(f)):]
}

func pkgPrefix(f *ssa.Function) string { return "" }

// instrName identifies an instruction without its line number
func instrName(in *ssa.Function, i ssa.Instruction) string {
	n := 0
	for _, b := range in.Blocks {
		for _, x := range b.Instrs {
			if x == i {
				return fmt.Sprintf("%s %T#%d", fnName(in), i, n)
			}
			if fmt.Sprintf("%T", x) == fmt.Sprintf("%T", i) {
				n++
			}
		}
	}
	return fnName(in)
}

// panicRule reports every operation that may panic
func panicRule(r *Report, accept func(e *Eng, t *Task) bool) *Rule {
	return &Rule{
		Derefs:  true,
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return accept(e, t) },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			if ev.In == nil || !e.p.inModule(ev.In) {
				return
			}
			c := func() string { return instrName(ev.In, ev.Instr) }
			switch ev.Kind {
			case EvDeref:
				ok := e.isNil(st, ev.Addr) == 0
				r.ob(ok, "nil", c(), ev.Pos, st, "%s may be nil when it is used", desc(ev.Addr))
			case EvMapUpdate:
				ok := e.isNil(st, ev.Addr) == 0
				r.ob(ok, "nilmap", c(), ev.Pos, st, "map %s may be nil when it is written", desc(ev.Addr))
			case EvIndex:
				if ev.Val == nil {
					r.ob(false, "index", c(), ev.Pos, st, "length of %s is unknown", desc(ev.Addr))
					return
				}
				lo := e.bounds(st, ev.Key).lo >= 0
				hi := e.bounds(st, e.in.sub(ev.Key, ev.Val)).hi < 0
				r.ob(lo && hi, "index", c(), ev.Pos, st, "index %s may be outside of length %s", desc(ev.Key), desc(ev.Val))
			case EvSlice:
				lo := e.bounds(st, ev.Key).lo >= 0
				mid := e.bounds(st, e.in.sub(ev.Val, ev.Key)).lo >= 0
				hi := ev.Val == ev.Res || e.bounds(st, e.in.sub(ev.Val, ev.Res)).hi <= 0
				r.ob(lo && mid && hi, "slice", c(), ev.Pos, st, "slice bounds [%s:%s] may be outside of length %s", desc(ev.Key), desc(ev.Val), desc(ev.Res))
			case EvMakeSlice:
				ok := e.bounds(st, ev.Val).lo >= 0 && e.bounds(st, ev.Key).lo >= 0
				r.ob(ok, "makeslice", c(), ev.Pos, st, "length %s may be negative", desc(ev.Val))
			case EvMakeChan:
				ok := e.bounds(st, ev.Val).lo >= 0
				r.ob(ok, "makechan", c(), ev.Pos, st, "size %s may be negative", desc(ev.Val))
			case EvDiv:
				ok := e.truth(st, e.mkEq(ev.Val, e.in.Int(0, nil))) == 0
				r.ob(ok, "division", c(), ev.Pos, st, "divisor %s may be zero", desc(ev.Val))
			case EvAssert:
				r.ob(ev.Hit == 1, "assert", c(), ev.Pos, st, "%s may not hold a %s", desc(ev.Val), ev.Type)
			case EvPanic:
				r.ob(false, "panic", c(), ev.Pos, st, "panic is reached")
			case EvSend, EvClose:
				// sends on and closes of channels that are closed somewhere
				closedOb(r, e, st, ev, c())
			case EvUnlock:
				r.ob(ev.Hit == 1, "unlock", c(), ev.Pos, st, "unlock of %s that is not held", desc(ev.Addr))
			case EvCall:
				stdlibPanics(r, e, st, ev, c())
			}
		},
	}
}

func closedOb(r *Report, e *Eng, st *State, ev *Event, c string) {
	if ev.Kind == EvClose {
		ok := e.isNil(st, ev.Addr) == 0
		r.ob(ok, "closenil", c, ev.Pos, st, "channel %s may be nil when it is closed", desc(ev.Addr))
	}
}

func stdlibPanics(r *Report, e *Eng, st *State, ev *Event, c string) {
	switch ev.Name {
	case "time.NewTicker", "time.Tick":
		ok := e.bounds(st, ev.Args[0]).lo > 0
		r.ob(ok, "ticker", c, ev.Pos, st, "period %s may be zero or negative", desc(ev.Args[0]))
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln", "runtime.Goexit", "syscall.Exit":
		r.ob(false, "exit", c, ev.Pos, st, "%s is reached", ev.Name)
	case "strings.Repeat", "bytes.Repeat":
		ok := e.bounds(st, ev.Args[1]).lo >= 0
		r.ob(ok, "repeat", c, ev.Pos, st, "count may be negative")
	}

}

func init() {
	register(&Check{
		ID: "C08", Level: "other", Prep: true,
		Technique:   "path-sensitive interprocedural dataflow (interval, relational and nil-ness facts) over go/ssa from the receive goroutine",
		Note:        "Every operation that can panic in code reached from the receive goroutine, and from the goroutines and timers it starts, is discharged on every path, or the check fails.",
		Assumptions: []string{"the models of standard library calls in trucheck/model.go (no panic inside the standard library on the arguments shown)", "user callbacks do not panic", "memory is not exhausted"},
		NotCovered:  "sends on closed channels are excluded by the tree closing no channel that is sent to (checked by A02 and L04), stack or memory exhaustion.",
		Run: func(r *Report) {
			fns := r.p.listenerFns()
			if len(fns) == 0 {
				r.fail("no goroutine that reads datagrams was found")
			}
			r.rule("Every operation that can panic (nil use, index, slice bound, type assertion, division, negative size, explicit panic, process exit, unlock of an unheld lock) in code reached from the goroutine that reads datagrams, and from the goroutines and timers it starts, is an obligation discharged by interval, relational and nil-ness facts on every path.")
			var ts []func(*Eng) *Task
			for _, f := range fns {
				ts = append(ts, listenerRoot(f))
			}
			r.run(panicRule(r, func(e *Eng, t *Task) bool { return true }), ts...)
			r.atLeast("nil", 100)
			r.atLeast("index", 1)
			r.atLeast("slice", 5)
		},
	})
}
