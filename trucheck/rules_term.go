package main

// The terminal mode: M03.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// termMode follows the mode of the terminal along the paths of one function
type termMode struct {
	r    *Report
	goos string
	gets map[int64]bool // request codes that read and set the mode; nil: not used
	sets map[int64]bool
}

func termPkgConsts(p *Program, names ...string) map[int64]bool {
	out := map[int64]bool{}
	for _, pk := range p.prog.AllPackages() {
		if !strings.HasSuffix(pk.Pkg.Path(), "golang.org/x/sys/unix") {
			continue
		}
		for _, n := range names {
			if c, ok := pk.Pkg.Scope().Lookup(n).(*types.Const); ok {
				if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
					out[v] = true
				}
			}
		}
	}
	return out
}

// op: the call reads or sets the mode of the terminal
func (m *termMode) op(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	n := fullName(f)
	switch {
	case strings.HasSuffix(n, "x/sys/unix.IoctlGetTermios"), strings.HasSuffix(n, "x/sys/windows.GetConsoleMode"):
		return "get"
	case strings.HasSuffix(n, "x/sys/unix.IoctlSetTermios"), strings.HasSuffix(n, "x/sys/windows.SetConsoleMode"):
		return "set"
	}
	return ""
}

// leaf: the mode held in a value of the state type, which wraps it in structs of
// one field
func (m *termMode) leaf(e *Eng, st *State, addr *V, t types.Type, mode types.Type) *V {
	for d := 0; d < 6; d++ {
		if types.Identical(t, mode) {
			return e.load(st, addr, t)
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if holds(s.Field(i).Type(), mode) {
				addr, t, found = e.in.FieldAddr(addr, i, s), s.Field(i).Type(), true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return nil
}

func holds(t, mode types.Type) bool {
	if types.Identical(t, mode) {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if holds(s.Field(i).Type(), mode) {
			return true
		}
	}
	return false
}

// same: two values of a mode are equal in every part
func (m *termMode) same(e *Eng, st *State, a, b *V, t types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return e.same(st, a, b)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "_" {
			continue
		}
		if !m.same(e, st, e.fieldOf(st, a, i, s), e.fieldOf(st, b, i, s), s.Field(i).Type()) {
			return false
		}
	}
	return true
}

// cur is the present mode, orig the one before the function ran
func (m *termMode) cur(st *State) (cur, orig *V) { return st.mon["cur"], st.mon["orig"] }

func (m *termMode) call(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
	op := m.op(ci.Callee)
	if ci.Callee != nil && fullName(ci.Callee) == "(*os.File).Fd" {
		return []Outcome{{st: st, ret: []*V{e.in.Op("call:fd", ci.ResT.At(0).Type(), ci.Args[0])}}}, true
	}
	if op == "" {
		return nil, false
	}
	unix := strings.Contains(fullName(ci.Callee), "x/sys/unix")
	c := instrName(ci.In, ci.Instr) + " on " + m.goos
	var T types.Type
	if unix {
		if op == "get" {
			T = ci.ResT.At(0).Type().Underlying().(*types.Pointer).Elem()
		} else {
			T = ci.Args[2].typ.Underlying().(*types.Pointer).Elem()
		}
		want := map[string]map[int64]bool{"get": m.gets, "set": m.sets}[op]
		n, ok := stripConv(ci.Args[1]).intVal()
		if !m.r.ob(ok && want[n], "request", c, ci.Pos, st, "the request code %s does not %s the mode of a terminal", desc(ci.Args[1]), op) {
			return []Outcome{{st: st, ret: make([]*V, ci.ResT.Len())}}, true
		}
	} else {
		T = types.Typ[types.Uint32]
	}
	if st.mon["orig"] == nil {
		o := e.named("mode", T, m)
		st.mon["orig"], st.mon["cur"] = o, o
	}
	if fd := st.mon["fd"]; fd == nil {
		st.mon["fd"] = stripConv(ci.Args[0])
	} else {
		m.r.ob(e.same(st, fd, stripConv(ci.Args[0])), "terminal", c, ci.Pos, st, "another terminal is used: %s, not %s", desc(ci.Args[0]), desc(fd))
	}
	bad := st.clone()
	e.monSet(bad, op+"failed", 1)
	err := e.newErr(bad, ci)
	if op == "get" {
		e.monSet(st, "got", 1)
		if unix {
			ptr := e.freshA(st, "!termios", types.NewPointer(T), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "mode"})
			e.store(st, ptr, st.mon["cur"], T)
			return []Outcome{{st: st, ret: []*V{ptr, e.in.Nil()}}, {st: bad, ret: []*V{e.in.Nil(), err}}}, true
		}
		e.store(st, ci.Args[1], st.mon["cur"], T)
		return []Outcome{{st: st, ret: []*V{e.in.Nil()}}, {st: bad, ret: []*V{err}}}, true
	}
	v := ci.Args[1]
	if unix {
		v = e.load(st, ci.Args[2], T)
	}
	e.monSet(st, "sets", min(monI(st, "sets")+1, 3))
	st.mon["given"] = v
	if m.same(e, st, v, st.mon["orig"], T) {
		st.mon["cur"] = st.mon["orig"]
		e.monSet(bad, "restorefailed", 1)
	} else {
		st.mon["cur"] = v
	}
	return []Outcome{{st: st, ret: []*V{e.in.Nil()}}, {st: bad, ret: []*V{err}}}, true
}

func (m *termMode) rule(onReturn func(e *Eng, st *State, t *Task, ret []*V)) *Rule {
	return &Rule{
		NoMerge: true,
		OnCall:  m.call,
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			switch ev.Kind {
			case EvStore:
				// an element of an array inside of a mode: the array differs
				for x := ev.Addr; x.kind == KField || x.kind == KIndex; x = x.args[0] {
					if x.kind == KIndex && x.args[0].kind == KField {
						arr := x.args[0]
						if p, ok := arr.typ.(*types.Pointer); ok {
							st.heap[arr] = e.fresh(st, "changed", p.Elem(), symKey{instr: ev.Instr, ctx: ev.Ctx, tag: "part"})
						}
					}
				}
			case EvPanic:
				cur, orig := m.cur(st)
				m.r.ob(cur == orig || len(st.defers) > 0 || monI(st, "restorefailed") == 1, "restored", "panic in "+fnName(ev.In)+" on "+m.goos, ev.Pos, st, "a panic leaves the terminal in the changed mode")
			}
		},
		OnReturn: onReturn,
	}
}

func m03Platform(r *Report, goos string) {
	p, err := loadProgram(goos, "./term")
	if err != nil {
		r.fail("the package term for %s: %v", goos, err)
		return
	}
	p.prepared = true
	p.unstable, p.allowNil = map[*types.Var]bool{}, true
	q := newReport(r.id, p)
	defer func() {
		r.merge(q)
		for f := range q.funcs {
			r.funcs[f+" ("+goos+")"] = true
		}
		for f := range q.roots {
			r.roots[f+" ("+goos+")"] = true
		}
		r.steps += q.steps
		r.forks += q.forks
		r.joins += q.joins
	}()
	pk := p.pkgs["term"]
	if pk == nil {
		q.fail("no package term for %s", goos)
		return
	}
	m := &termMode{r: q, goos: goos, gets: termPkgConsts(p, "TCGETS", "TIOCGETA"), sets: termPkgConsts(p, "TCSETS", "TCSETSW", "TCSETSF", "TIOCSETA", "TIOCSETAW", "TIOCSETAF")}
	stateT := pk.Type("State")
	if stateT == nil {
		q.fail("the type State was not found")
		return
	}
	isState := func(t types.Type) bool { return types.Identical(t, types.NewPointer(stateT.Type())) }
	ps := func(f *ssa.Function) string { return "return of " + fnName(f) + " on " + goos }
	for _, f := range p.functions() {
		f := f
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Pkg != pk {
			continue
		}
		res := f.Signature.Results()
		kind := "keep"
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if isState(f.Signature.Params().At(i).Type()) {
				kind = "restore"
			}
		}
		if res.Len() == 2 && isState(res.At(0).Type()) {
			kind = "save"
			if strings.HasPrefix(f.Name(), "Make") {
				kind = "make"
			}
		}
		ret := func(e *Eng, st *State, t *Task, rv []*V) {
			cur, orig := m.cur(st)
			c := ps(f)
			var mode types.Type
			if orig != nil {
				mode = orig.typ
			}
			failed := monI(st, "getfailed") == 1 || monI(st, "setfailed") == 1
			ok := -1
			if n := len(rv); n > 0 && isErrType(res.At(n-1).Type()) {
				ok = e.isNil(st, rv[n-1])
				if kind != "keep" {
					q.ob(ok == 0 || !failed, "reported", c, f.Pos(), st, "the error of a call that reads or sets the mode is not returned")
				}
			}
			saved := func() bool {
				if orig == nil {
					return false
				}
				return m.same(e, st, m.leaf(e, st, rv[0], stateT.Type(), mode), orig, mode)
			}
			switch kind {
			case "keep":
				q.ob(cur == orig || monI(st, "restorefailed") == 1, "restored", c, f.Pos(), st, "the terminal is left in the changed mode")
			case "save":
				q.ob(cur == orig, "restored", c, f.Pos(), st, "the mode is changed by a function that only reads it")
				q.ob(ok == 0 || monI(st, "got") == 1 && saved(), "saved", c, f.Pos(), st, "the state returned is not the mode of the terminal")
			case "make":
				if ok == 1 {
					q.ob(cur != orig && monI(st, "sets") == 1, "changed", c, f.Pos(), st, "success is returned without changing the mode once")
					q.ob(saved(), "saved", c, f.Pos(), st, "the state returned is not the mode the terminal had before the change")
				} else {
					q.ob(ok == 0 && cur == orig, "unchanged", c, f.Pos(), st, "the mode is changed though an error is returned")
				}
			case "restore":
				n := monI(st, "sets")
				if ok == 1 {
					if q.ob(n == 1 && orig != nil, "set", c, f.Pos(), st, "success is returned but the mode was set %d times", n) {
						q.ob(m.same(e, st, st.mon["given"], st.mon["want"], mode), "given", c, f.Pos(), st, "another mode is set than the one of the given state")
					}
				} else {
					q.ob(ok == 0, "reported", c, f.Pos(), st, "the error of setting the mode is not returned")
				}
			}
		}
		rule := m.rule(ret)
		q.run(rule, func(e *Eng) *Task {
			t := e.RootTask(f)
			if kind == "restore" {
				own := rule.OnCall
				rule.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
					if m.op(ci.Callee) == "set" && st.mon["want"] == nil {
						var T types.Type = types.Typ[types.Uint32]
						if len(ci.Args) > 2 {
							T = ci.Args[2].typ.Underlying().(*types.Pointer).Elem()
						}
						for _, a := range t.Args {
							if isState(a.typ) {
								if v := m.leaf(e, st, a, stateT.Type(), T); v != nil {
									st.mon["want"] = v
								}
							}
						}
					}
					return own(e, st, ci)
				}
			}
			return t
		})
	}
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func init() {
	register(&Check{
		ID: "M03", Level: "other",
		Technique:   "path-sensitive interprocedural dataflow (go/ssa) of the terminal package, type-checked once per platform: the mode of the terminal as a typestate, provenance of the saved and of the restored mode",
		Note:        "Every exported function of the terminal package is followed on every path for linux, darwin, windows, plan9 and an unsupported platform, with each call that reads or sets the mode succeeding or failing.",
		Assumptions: []string{"a failed call that sets the mode leaves it unchanged", "nothing else changes the mode of the terminal meanwhile"},
		NotCovered:  "which flags the mode for single keys has; a process that is killed while it waits for a key.",
		Run: func(r *Report) {
			r.rule("Getch and every other exported function that neither takes nor returns a terminal state: at each return and at each panic without deferred calls the terminal is in the mode it had before, unless setting back the original mode failed. MakeNonBlock: nil error exactly if the mode was read, saved unchanged in the returned state and then set to another one once; any error leaves the mode unchanged and is returned. GetState: returns the mode read or an error, never changes it. RestoreState: nil only if the mode of the given state was set once; an error of setting is returned. All calls use one descriptor and a request code that reads, respectively sets, the mode.")
			for _, goos := range []string{"linux", "darwin", "windows", "plan9", "js"} {
				m03Platform(r, goos)
			}
			r.atLeast("restored", 10)
			r.atLeast("saved", 5)
			r.atLeast("unchanged", 5)
			r.atLeast("reported", 5)
			r.atLeast("given", 3)
		},
	})
}
