package main

// trucheck decides the properties of teonet-go/tru from its source.
//
//	trucheck ID...     run the checks of the given properties
//	trucheck -list     list the properties that have a check

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

type Check struct {
	ID          string
	Level       string
	Prep        bool // needs the results of phase 0
	Run         func(r *Report)
	Technique   string
	Note        string
	Assumptions []string
	NotCovered  string
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

func main() {
	debug.SetGCPercent(400)
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(profFor); pprof.StopCPUProfile(); w.Close(); os.Exit(3) }()
	}
	if d := os.Getenv("TRU_REPO"); d != "" {
		repoDir = d // development only
	}
	args := os.Args[1:]
	if len(args) == 1 && args[0] == "-list" {
		for _, c := range checks {
			fmt.Println(c.ID)
		}
		return
	}
	if len(args) == 1 && args[0] == "-manifest" {
		manifest()
		return
	}
	if len(args) > 1 && args[0] == "-trace" {
		traceFn(args[1], len(args) > 2)
		return
	}
	if len(args) == 1 && args[0] == "-all" {
		args = nil
		for _, c := range checks {
			args = append(args, c.ID)
		}
	}
	if len(args) == 1 && args[0] == "-hints" {
		noHints = true
		p, err := loadProgram("")
		if err == nil {
			err = p.prepare()
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p.dumpHints()
		return
	}
	watchBudget()
	code := 0
	var p *Program
	prepped := false
	for _, id := range args {
		var c *Check
		for _, x := range checks {
			if x.ID == id {
				c = x
			}
		}
		if c == nil {
			fmt.Printf("no check for %s\n", id)
			fmt.Printf("VIOLATION property=%s replay=none\n", id)
			os.Exit(1)
		}
		if runCheck(c, &p, &prepped) != 0 {
			code = 1
		}
	}
	os.Exit(code)
}

func runCheck(c *Check, pp **Program, prepped *bool) int {
	r := tryCheck(c, pp, prepped)
	if c.Prep && !r.clean() && (*pp == nil || (*pp).hinted) {
		// once more without the hints
		noHints = true
		*pp, *prepped = nil, false
		if debugTime {
			fmt.Fprintf(os.Stderr, "%v: not clean, again without hints\n", time.Since(r.started))
		}
		if q := tryCheck(c, pp, prepped); !overBudget.Load() {
			r = q
		}
	}
	return r.finish(c.Level, c.Assumptions, c.NotCovered)
}

func tryCheck(c *Check, pp **Program, prepped *bool) *Report {
	r := newReport(c.ID, nil)
	if *pp == nil {
		p, err := loadProgram("")
		if err != nil {
			r.fail("%v", err)
			return r
		}
		*pp = p
	}
	r.p = *pp
	if c.Prep && !*prepped {
		if err := (*pp).prepare(); err != nil {
			r.fail("phase 0: %v", err)
			return r
		}
		*prepped = true
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if debugTime {
					debug.PrintStack()
				}
				r.fail("the checker failed: %v", x)
			}
		}()
		c.Run(r)
	}()
	return r
}

var profFor = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("TRUCHECK_PROF_FOR")); err == nil {
		return d
	}
	return 40 * time.Second
}()
