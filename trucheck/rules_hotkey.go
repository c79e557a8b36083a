package main

// The hotkey menu: M04.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// walk follows a loop over all elements of a list: elements have to be visited in
// order from the first, next is the index of the one expected
func (e *Eng) walk(st *State, key string, base, idx *V) bool {
	b, next := st.mon[key+":base"], e.ghost(st, key+":next")
	if next == nil {
		next = e.in.Int(0, nil)
	} else if b != base && !e.same(st, b, base) {
		return false
	}
	if !e.same(st, idx, next) {
		return false
	}
	st.mon[key+":base"] = base
	e.setGhost(st, key+":next", e.in.addC(idx, 1))
	delete(st.mon, key+":end")
	return true
}

// walked: all of the n elements were visited
func (e *Eng) walked(st *State, key string, n *V) bool {
	next := e.ghost(st, key+":next")
	if next == nil {
		next = e.in.Int(0, nil)
	}
	if monI(st, key+":end") == 1 {
		return true
	}
	return n != nil && (e.bounds(st, e.in.sub(next, n)).lo >= 0 || e.truth(st, e.mkLt(next, n)) == 0)
}

// walkFork notices that the loop ended because no element was left
func (e *Eng) walkFork(st *State, key string, n, cond *V, taken bool) {
	if n == nil {
		return
	}
	next := e.ghost(st, key+":next")
	if next == nil {
		next = e.in.Int(0, nil)
	}
	c, t := stripNot(cond, taken)
	if c.kind == KOp && (c.op == "lt" && !t || c.op == "eq" && t) && len(c.args) == 2 && e.same(st, c.args[0], next) && e.same(st, c.args[1], n) || c.kind == KConst && e.bounds(st, e.in.sub(next, n)).lo >= 0 {
		e.monSet(st, key+":end", 1)
	}
}

// elemOf: a value loaded from an element of a list
func elemOf(v *V) (base, idx *V, fld *types.Var) {
	if v == nil || v.kind != KSym || len(v.args) == 0 {
		return nil, nil, nil
	}
	a := v.args[0]
	for a.kind == KField {
		fld = fieldVar(a)
		a = a.args[0]
	}
	if a.kind != KIndex {
		return nil, nil, nil
	}
	return a.args[0], a.args[1], fld
}

// copyOf: the list has the elements of one list and no others
func (e *Eng) copyOf(st *State, l, of *V) bool {
	if l == nil || of == nil {
		return false
	}
	if l == of || e.same(st, l, of) {
		return true
	}
	if l.kind == KOp && l.op == "append" {
		n := len(l.args)
		for _, a := range l.args[:n-1] {
			if x, ok := e.lenOf(st, a, nil).intVal(); !ok || x != 0 {
				return false
			}
		}
		return e.copyOf(st, l.args[n-1], of)
	}
	if st.mon["copied"] != nil && (l == st.mon["copyto"] || e.same(st, st.mon["copyto"], sliceBase(l))) {
		return st.mon["copied"] != l && e.copyOf(st, st.mon["copied"], of)
	}
	return false
}

type menu struct {
	r                                *Report
	t                                *types.Named
	entry                            *types.Struct
	keys, next, unknown, stop, stops *types.Var // fields of the menu
	action                           *types.Var // of an entry
	getch                            *ssa.Function
}

func (p *Program) menu(r *Report) *menu {
	pk := p.pkgs["hotkey"]
	tp := p.pkgs["term"]
	if pk == nil || tp == nil {
		r.fail("the packages hotkey and term were not found")
		return nil
	}
	m := &menu{r: r, getch: tp.Func("Getch")}
	o, _ := pk.Pkg.Scope().Lookup("Hotkey").(*types.TypeName)
	if o == nil || m.getch == nil {
		r.fail("the type Hotkey or the function Getch was not found")
		return nil
	}
	m.t = o.Type().(*types.Named)
	s, _ := m.t.Underlying().(*types.Struct)
	if s == nil {
		r.fail("Hotkey is no struct")
		return nil
	}
	bytes := types.NewSlice(types.Typ[types.Uint8])
	self := types.NewPointer(m.t)
	is := func(t types.Type, ps ...types.Type) bool {
		sig, ok := t.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != len(ps) || sig.Results().Len() != 0 {
			return false
		}
		for i, p := range ps {
			if !types.Identical(sig.Params().At(i).Type(), p) {
				return false
			}
		}
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			m.keys = f
			if es := derefStruct(u.Elem()); es != nil {
				m.entry = es
			}
		case *types.Signature:
			if is(u, bytes) {
				m.next = f
			} else if is(u, self, bytes) {
				m.unknown = f
			}
		case *types.Slice:
			if is(u.Elem()) {
				m.stops = f
			}
		case *types.Basic:
			if u.Kind() == types.Bool {
				m.stop = f
			}
		}
	}
	if m.entry != nil {
		for i := 0; i < m.entry.NumFields(); i++ {
			if is(m.entry.Field(i).Type(), self) {
				m.action = m.entry.Field(i)
			}
		}
	}
	for n, f := range map[string]*types.Var{"map from keys to entries": m.keys, "next-key action": m.next, "unknown-key action": m.unknown, "stop flag": m.stop, "list of stop actions": m.stops, "action of an entry": m.action} {
		if f == nil {
			r.fail("the %s of the menu was not found", n)
		}
	}
	if len(r.broken) > 0 {
		return nil
	}
	return m
}

func init() {
	register(&Check{
		ID: "M04", Level: "other", Prep: true,
		Technique:   "typestate of the key loop and provenance of keys and actions over path-sensitive interprocedural dataflow (go/ssa) of the hotkey package",
		Note:        "The loop that reads keys is followed from one key to the next with every outcome of the lookup and of the stop flag; registration and stopping are followed through their loops with the index of the element visited.",
		Assumptions: []string{"the menu's fields are accessed under its lock (K01)"},
		NotCovered:  "what actions do; two menus reading one terminal.",
		Run: func(r *Report) {
			m := r.p.menu(r)
			if m == nil {
				return
			}
			r.rule("Key loop: a key is read only after the stop flag was found clear since the last action, and after a key was read the flag is found clear again before an action runs; per key the next-key action is loaded and cleared in one critical section and called once with the key unless nil; the key is looked up in the menu: if found, the action of that entry is called once unless nil and the unknown-key action is not, otherwise the unknown-key action is called once with the key unless nil. Add: on every path that returns, each key of the argument, whatever its type, is a key of the menu whose entry has the given action. Stop: the stop flag is set before the first stop action runs, and each stop action is called once, in order. The setters of actions store what they were given; a stop action is appended.")
			m04Loop(r, m)
			m04Add(r, m)
			m04Stop(r, m)
			m04Set(r, m)
		},
	})
}

func m04Loop(r *Report, m *menu) {
	reads := r.p.reaches(func(f *ssa.Function) bool { return f == m.getch })
	var starts []*ssa.Function
	for _, f := range r.p.apiRoots() {
		if f.Pkg == r.p.pkgs["hotkey"] {
			starts = append(starts, f)
		}
	}
	end := func(e *Eng, st *State, c string, ev *Event) {
		if st.mon["key"] == nil || monI(st, "checked") == 0 {
			return // stopped
		}
		n := st.mon["taken"]
		r.ob(monI(st, "took") == 1, "nextkey", c, ev.Pos, st, "a key is handled without looking for a next-key action")
		r.ob(n == nil || e.isNil(st, n) == 1, "nextkey", c, ev.Pos, st, "the next-key action was cleared but not called")
		switch monI(st, "hit") {
		case 1:
			a := e.get(st, st.mon["hd"], m.action)
			r.ob(monI(st, "ran") == 1 || a != nil && e.isNil(st, a) == 1 || monI(st, "noaction") == 1, "action", c, ev.Pos, st, "the action of a key that was found is not called")
		case 2:
			r.ob(monI(st, "unk") == 1 || monI(st, "nounk") == 1, "unknown", c, ev.Pos, st, "the unknown-key action is not called for an unknown key")
		default:
			r.ob(false, "action", c, ev.Pos, st, "a key is not looked up in the menu")
		}
	}
	mk := func() *Rule {
		return &Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return t.Fn != nil && reads(t.Fn) },
			OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
				if ci.Callee != m.getch {
					return nil, false
				}
				c := instrName(ci.In, ci.Instr)
				end(e, st, c, &Event{Pos: ci.Pos})
				r.ob(monI(st, "running") == 1, "stopped", c, ci.Pos, st, "a key is read though the menu may have been stopped since the last action")
				for _, k := range []string{"running", "checked", "took", "taken", "hit", "hd", "ran", "unk", "nounk", "noaction", "looked", "load", "loadsec"} {
					delete(st.mon, k)
				}
				k := e.freshA(st, "key", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "key"})
				st.mon["key"] = k
				e.monSet(st, "reading", 1)
				return []Outcome{{st: st, ret: []*V{k}}}, true
			},
			OnFork: func(e *Eng, st *State, cond *V, taken bool) {
				c, t := stripNot(cond, taken)
				if loadedFrom(c) == m.stop && !t {
					e.monSet(st, "running", 1)
					e.monSet(st, "checked", 1)
				}
				if x, isNil, ok := nilFork(cond, taken); ok && isNil {
					switch loadedFrom(x) {
					case m.unknown:
						e.monSet(st, "nounk", 1)
					case m.action:
						if st.mon["hd"] != nil && x.kind == KSym && len(x.args) > 0 && e.same(st, baseOf(x.args[0]), st.mon["hd"]) {
							e.monSet(st, "noaction", 1)
						}
					}
				}
			},
			OnEvent: func(e *Eng, st *State, ev *Event) {
				if st.mon["key"] == nil {
					return
				}
				c := instrName(ev.In, ev.Instr)
				key := st.mon["key"]
				isKey := func(v *V) bool { return v == key || e.same(st, v, key) }
				switch ev.Kind {
				case EvUnlock:
					delete(st.mon, "load")
				case EvLoad:
					switch addrField(ev.Addr) {
					case m.next:
						st.mon["load"] = ev.Val
					case m.action:
						// an entry that was found
					}
				case EvStore:
					if addrField(ev.Addr) == m.next {
						l := st.mon["load"]
						if r.ob(l != nil && e.isNil(st, ev.Val) == 1, "nextkey", c, ev.Pos, st, "the next-key action is replaced outside of the critical section in which it was taken") {
							e.monSet(st, "took", 1)
							st.mon["taken"] = l
						}
					}
				case EvLookup:
					if loadedFrom(ev.Addr) != m.keys {
						return
					}
					k := ev.Key
					if k.kind == KOp && k.op == "bytes2str" {
						k = k.args[0]
					}
					r.ob(isKey(stripConv(k)), "lookup", c, ev.Pos, st, "the menu is searched for %s, not for the key read", desc(ev.Key))
					e.monSet(st, "hit", int64(2-ev.Hit))
					if ev.Hit == 1 {
						st.mon["hd"] = ev.Val
					}
				case EvDyn:
					if ev.Fn == nil {
						return
					}
					f := loadedFrom(ev.Fn)
					if n := st.mon["taken"]; n != nil && ev.Fn == n {
						f = m.next
					}
					r.ob(monI(st, "checked") == 1, "stopped", c, ev.Pos, st, "an action runs though the menu may have been stopped while it waited for the key")
					delete(st.mon, "running")
					switch f {
					case m.next:
						n := st.mon["taken"]
						r.ob(n != nil && e.same(st, ev.Fn, n), "nextkey", c, ev.Pos, st, "the next-key action is called without being cleared, or twice")
						r.ob(len(ev.Args) == 1 && isKey(ev.Args[0]), "nextkey", c, ev.Pos, st, "the next-key action gets another key")
						delete(st.mon, "taken")
					case m.unknown:
						r.ob(monI(st, "hit") == 2 && monI(st, "unk") == 0, "unknown", c, ev.Pos, st, "the unknown-key action is called for a key that was found, or twice")
						r.ob(len(ev.Args) == 2 && isKey(ev.Args[1]), "unknown", c, ev.Pos, st, "the unknown-key action gets another key")
						e.monSet(st, "unk", 1)
					case m.action:
						a := ev.Fn.args[0]
						r.ob(monI(st, "hit") == 1 && monI(st, "ran") == 0 && e.same(st, baseOf(a), st.mon["hd"]), "action", c, ev.Pos, st, "another action is called than the one of the key that was found, or twice")
						e.monSet(st, "ran", 1)
					}
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				if t.Kind == "go" || st.mon["key"] != nil {
					end(e, st, "return of "+fnName(t.Fn), &Event{Pos: t.Fn.Pos()})
				}
			},
		}
	}
	for _, f := range starts {
		r.run(mk(), apiRoot(f))
	}
	for _, n := range []string{"stopped", "nextkey", "unknown", "action", "lookup"} {
		r.atLeast(n, 1)
	}
}

func m04Add(r *Report, m *menu) {
	f := r.p.lookupFunc("hotkey", "(*Hotkey).Add")
	if f == nil || len(f.Params) < 3 {
		r.fail("(*Hotkey).Add was not found")
		return
	}
	bytes2 := func(v *V) *V {
		for v != nil && v.kind == KOp && (v.op == "bytes2str" || v.op == "str2bytes") {
			v = v.args[0]
		}
		return v
	}
	// source tells which of the keys given a value is
	var source func(e *Eng, st *State, v *V, d int) (from string, base, idx *V)
	source = func(e *Eng, st *State, v *V, d int) (string, *V, *V) {
		v = bytes2(v)
		p := st.mon["param"]
		if v == nil || p == nil || d > 4 {
			return "", nil, nil
		}
		if v == p || v.kind == KOp && v.op == "field" && v.args[0] == p && !isString(v.typ) {
			return "single", nil, nil
		}
		b, i, _ := elemOf(v)
		if b == nil && v.kind == KOp && v.op == "field" {
			b, i, _ = elemOf(v.args[0])
		}
		if b == nil {
			return "", nil, nil
		}
		if b == st.mon["built"] && e.ghost(st, "b:next") != nil {
			return "built", b, i
		}
		if e.copyOf(st, b, p) {
			return "param", b, i
		}
		if n, ok := i.intVal(); ok {
			if el, ok := e.elems(st, b); ok && n >= 0 && n < int64(len(el)) {
				x := el[n]
				if x.kind == KStruct {
					s := x.typ.Underlying().(*types.Struct)
					for k := 0; k < s.NumFields(); k++ {
						if !isString(s.Field(k).Type()) {
							return source(e, st, x.args[k], d+1)
						}
					}
				}
				return source(e, st, x, d+1)
			}
		}
		return "", nil, nil
	}
	// code: the key in an element of a list of keys
	code := func(e *Eng, st *State, v *V) *V {
		if s, ok := v.typ.Underlying().(*types.Struct); ok && v.kind != KOp {
			for k := 0; k < s.NumFields(); k++ {
				if _, ok := s.Field(k).Type().Underlying().(*types.Slice); ok {
					return e.fieldOf(st, v, k, s)
				}
			}
		}
		return v
	}
	n := 0
	rule := &Rule{
		OnFork: func(e *Eng, st *State, cond *V, taken bool) {
			if p := st.mon["param"]; p != nil {
				ln := e.lenOf(st, p, nil)
				e.walkFork(st, "p", ln, cond, taken)
				e.walkFork(st, "b", ln, cond, taken)
				if b := st.mon["built"]; b != nil {
					e.walkFork(st, "m", e.lenOf(st, b, nil), cond, taken)
				}
			}
		},
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			c := instrName(ev.In, ev.Instr)
			switch ev.Kind {
			case EvIs:
				if ev.Hit == 1 && ev.Val == e.Param(f, f.Params[1]) {
					n++
					e.monSet(st, "dyn", int64(ev.Instr.Pos()))
					st.mon["param"] = ev.Res
				}
			case EvCall:
				if ev.Name == "copy" {
					return
				}
				if ev.Name != "append" || len(ev.Args) != 2 || st.mon["param"] == nil {
					return
				}
				el, ok := e.elems(st, ev.Args[1])
				if !ok || len(el) != 1 {
					return
				}
				if from, b, i := source(e, st, code(e, st, el[0]), 0); from == "param" {
					first := e.ghost(st, "b:next") == nil
					l, isN := e.lenOf(st, ev.Args[0], nil).intVal()
					if (!first && e.same(st, ev.Args[0], st.mon["built"]) || first && isN && l == 0) && e.walk(st, "b", b, i) {
						st.mon["built"] = ev.Res
					}
				}
			case EvMapUpdate:
				if loadedFrom(ev.Addr) != m.keys {
					return
				}
				a := e.get(st, ev.Val, m.action)
				r.ob(a != nil && e.same(st, a, e.Param(f, f.Params[3])), "given", c, ev.Pos, st, "the entry has another action than the one given: %s", desc(a))
				switch from, b, i := source(e, st, ev.Key, 0); from {
				case "single":
					e.monSet(st, "single", 1)
				case "param":
					r.ob(e.walk(st, "p", b, i), "all", c, ev.Pos, st, "the keys of the list are not registered one after the other")
				case "built":
					r.ob(e.walk(st, "m", b, i), "all", c, ev.Pos, st, "the keys of the list are not registered one after the other")
				default:
					r.ob(false, "key", c, ev.Pos, st, "a key is registered that is not one of those given: %s", desc(ev.Key))
				}
			}
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			p := st.mon["param"]
			c := "return of " + fnName(f)
			if p == nil {
				return
			}
			if _, isList := p.typ.Underlying().(*types.Slice); isList && !types.Identical(p.typ.Underlying(), types.NewSlice(types.Typ[types.Uint8])) {
				ln := e.lenOf(st, p, nil)
				ok := e.walked(st, "p", ln)
				if st.mon["built"] != nil {
					ok = ok || e.walked(st, "b", ln) && e.walked(st, "m", e.lenOf(st, st.mon["built"], nil))
				}
				r.ob(ok, "all", c+" "+p.typ.String(), f.Pos(), st, "not every key of the list is registered")
			} else {
				r.ob(monI(st, "single") == 1, "all", c+" "+p.typ.String(), f.Pos(), st, "the key is not registered")
			}
		},
	}
	own := rule.OnReturn
	rule.OnReturn = func(e *Eng, st *State, t *Task, ret []*V) {
		r.ob(st.mon["param"] != nil, "type", "return of "+fnName(f), f.Pos(), st, "keys of an unknown type are ignored")
		own(e, st, t, ret)
	}
	r.run(rule, apiRoot(f))
	r.atLeast("all", 3)
	r.atLeast("given", 1)
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func m04Stop(r *Report, m *menu) {
	f := r.p.lookupFunc("hotkey", "(*Hotkey).Stop")
	if f == nil {
		r.fail("(*Hotkey).Stop was not found")
		return
	}
	rule := &Rule{
		NoMerge: true,
		OnFork: func(e *Eng, st *State, cond *V, taken bool) {
			if l := st.mon["list"]; l != nil {
				e.walkFork(st, "s", e.lenOf(st, l, nil), cond, taken)
			}
		},
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			c := instrName(ev.In, ev.Instr)
			switch ev.Kind {
			case EvLoad:
				if addrField(ev.Addr) == m.stops && st.mon["list"] == nil {
					st.mon["list"] = ev.Val
				}
				if a := ev.Addr; st.mon["copied"] != nil && a != nil && a.kind == KIndex && e.copyOf(st, a.args[0], st.mon["list"]) {
					st.mon["from"] = a.args[0]
					e.setGhost(st, "fn", ev.Val)
					e.setGhost(st, "at", a.args[1])
				}
			case EvCopy:
				if st.mon["list"] != nil && e.copyOf(st, ev.Val, st.mon["list"]) && e.same(st, e.lenOf(st, ev.Addr, nil), e.lenOf(st, ev.Val, nil)) {
					st.mon["copied"], st.mon["copyto"] = ev.Val, sliceBase(ev.Addr)
				}
			case EvStore:
				if addrField(ev.Addr) == m.stop {
					if r.ob(ev.Val == e.in.Bool(true), "flag", c, ev.Pos, st, "the stop flag is cleared") {
						e.monSet(st, "set", 1)
					}
				}
			case EvDyn:
				b, i, _ := elemOf(ev.Fn)
				if f := e.ghost(st, "fn"); b == nil && f != nil && e.same(st, f, ev.Fn) {
					b, i = st.mon["from"], e.ghost(st, "at")
				}
				r.ob(monI(st, "set") == 1, "flag", c, ev.Pos, st, "a stop action runs before the stop flag is set")
				r.ob(b != nil && e.copyOf(st, b, st.mon["list"]) && e.walk(st, "s", b, i), "each", c, ev.Pos, st, "the stop actions are not called one after the other: %s", desc(ev.Fn))
			}
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			c := "return of " + fnName(f)
			r.ob(monI(st, "set") == 1, "flag", c, f.Pos(), st, "the stop flag is not set")
			l := st.mon["list"]
			r.ob(l != nil && e.walked(st, "s", e.lenOf(st, l, nil)), "each", c, f.Pos(), st, "not every stop action is called")
		},
	}
	r.run(rule, apiRoot(f))
	r.atLeast("each", 2)
	r.atLeast("flag", 2)
}

func m04Set(r *Report, m *menu) {
	for _, x := range []struct {
		fn   string
		fld  *types.Var
		list bool
	}{{"NextKeyAction", m.next, false}, {"AddUnknown", m.unknown, false}, {"SetStopAction", m.stops, true}} {
		x := x
		f := r.p.lookupFunc("hotkey", "(*Hotkey)."+x.fn)
		if f == nil || len(f.Params) < 2 {
			r.fail("(*Hotkey).%s was not found", x.fn)
			continue
		}
		rule := &Rule{
			OnEvent: func(e *Eng, st *State, ev *Event) {
				if ev.Kind != EvStore || addrField(ev.Addr) != x.fld {
					return
				}
				c := instrName(ev.In, ev.Instr)
				p := e.Param(f, f.Params[1])
				ok := e.same(st, ev.Val, p)
				if x.list {
					old := e.load(st, ev.Addr, x.fld.Type())
					ok = ev.Val.kind == KOp && ev.Val.op == "append" && len(ev.Val.args) == 2 && e.same(st, ev.Val.args[0], old)
					if ok {
						el, all := e.elems(st, ev.Val.args[1])
						ok = all && len(el) == 1 && e.same(st, el[0], p)
					}
				}
				r.ob(ok && monI(st, "stored") == 0, "set", c, ev.Pos, st, "another action is stored than the one given: %s", desc(ev.Val))
				e.monSet(st, "stored", 1)
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				r.ob(monI(st, "stored") == 1, "set", "return of "+fnName(f), f.Pos(), st, "the action given is not stored")
			},
		}
		r.run(rule, apiRoot(f))
	}
	r.atLeast("set", 6)
}
