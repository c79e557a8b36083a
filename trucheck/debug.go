package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var fnSteps = map[*ssa.Function]int{}
var fnCalls = map[*ssa.Function]int{}
var fnOuts = map[*ssa.Function]int{}

func dumpSteps() {
	type r struct {
		f *ssa.Function
		n int
	}
	var rs []r
	for f, n := range fnSteps {
		rs = append(rs, r{f, n})
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].n > rs[j].n })
	for i := 0; i < len(rs) && i < 25; i++ {
		fmt.Fprintf(os.Stderr, "  %-60s steps %8d calls %6d outs %6d\n", rs[i].f, rs[i].n, fnCalls[rs[i].f], fnOuts[rs[i].f])
	}
	fnSteps = map[*ssa.Function]int{}
	fnCalls = map[*ssa.Function]int{}
	fnOuts = map[*ssa.Function]int{}
}

// traceFn prints the events of one function (development)
func traceFn(name string, prep bool) {
	p, err := loadProgram("")
	if err != nil {
		panic(err)
	}
	if prep {
		if err := p.prepare(); err != nil {
			panic(err)
		}
	}
	var f *ssa.Function
	for pk := range p.pkgs {
		if x := p.lookupFunc(pk, name); x != nil {
			f = x
		}
	}
	e := newEng(p, &Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return os.Getenv("TRACE_TASK") != "" },
		OnFork: func(e *Eng, st *State, cond *V, taken bool) {
			if t := os.Getenv("TRACE_TASK"); t != "" && strings.Contains(e.root.Fn.String(), t) {
				fmt.Println("   FORK", cond, taken)
			}
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			if ev.Kind == EvDeref || ev.Kind == EvEnter || ev.Kind == EvExit || ev.Kind == EvLock || ev.Kind == EvUnlock {
				return
			}
			if t := os.Getenv("TRACE_TASK"); t != "" && !strings.Contains(e.root.Fn.String(), t) {
				return
			}
			fmt.Printf("%s %s %s addr=%v key=%v val=%v args=%v res=%v hit=%d\n", posStr(p.fset, ev.Pos), evNames[ev.Kind], ev.Name, ev.Addr, ev.Key, ev.Val, ev.Args, ev.Res, ev.Hit)
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			if t := os.Getenv("TRACE_TASK"); t != "" && !strings.Contains(e.root.Fn.String(), t) {
				return
			}
			fmt.Printf("RETURN %v\n", ret)
			for _, r := range ret {
				if c := e.contentOf(st, r); c != r {
					fmt.Printf("   content %v\n", c)
				}
			}
			for _, b := range sortedV(st.bnd) {
				fmt.Printf("   %v in %v\n", b, st.bnd[b])
			}
		},
	})
	if err := e.runSafe(e.RootTask(f)); err != nil {
		fmt.Println(err)
	}
	fmt.Println(e.undec)
}
