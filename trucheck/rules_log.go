package main

// The logger: M01 (levels) and M02 (filter and writer).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type logger struct {
	r       *Report
	pk      *ssa.Package
	lt      *types.Named // the type of levels
	names   []string     // identifiers of the levels
	t       *types.Named
	level   *types.Var
	levels  *types.Var
	filter  *types.Var
	loggers []*types.Var // per level from 1
}

func (p *Program) logger(r *Report) *logger {
	l := &logger{r: r, pk: p.pkgs["teolog"]}
	if l.pk == nil {
		r.fail("the package teolog was not found")
		return nil
	}
	sc := l.pk.Pkg.Scope()
	o, _ := sc.Lookup("LogLevel").(*types.TypeName)
	u, _ := sc.Lookup("Teolog").(*types.TypeName)
	if o == nil || u == nil {
		r.fail("the types LogLevel and Teolog were not found")
		return nil
	}
	l.lt, _ = o.Type().(*types.Named)
	l.t, _ = u.Type().(*types.Named)
	s, _ := l.t.Underlying().(*types.Struct)
	if l.lt == nil || s == nil {
		r.fail("LogLevel or Teolog is of an unknown form")
		return nil
	}
	byVal := map[int64]string{}
	for _, n := range sc.Names() {
		c, _ := sc.Lookup(n).(*types.Const)
		if c == nil || !c.Exported() || !types.Identical(c.Type(), l.lt) {
			continue
		}
		v, ok := constant.Int64Val(c.Val())
		r.ob(ok && byVal[v] == "", "levels", "constant "+n, c.Pos(), nil, "two levels have the number %d", v)
		byVal[v] = n
	}
	for i := int64(0); i < int64(len(byVal)); i++ {
		n := byVal[i]
		if !r.ob(n != "", "levels", fmt.Sprintf("level %d", i), o.Pos(), nil, "the levels are not numbered from 0 without a gap") {
			return nil
		}
		l.names = append(l.names, n)
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch t := f.Type().(type) {
		case *types.Named:
			if types.Identical(t, l.lt) {
				l.level = f
			} else if sl, ok := t.Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				l.filter = f
			}
		case *types.Slice:
			if isLogger(t.Elem()) {
				l.levels = f
			}
		}
	}
	for _, n := range l.names[1:] {
		var x *types.Var
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Name() == n && isLogger(f.Type()) {
				x = f
			}
		}
		if x == nil {
			r.fail("the logger of level %s was not found", n)
			return nil
		}
		l.loggers = append(l.loggers, x)
	}
	if l.level == nil || l.levels == nil || l.filter == nil || len(l.names) < 2 {
		r.fail("the level, the list of loggers or the filter was not found")
		return nil
	}
	return l
}

func isLogger(t types.Type) bool {
	return t.String() == "*log.Logger"
}

func init() {
	register(&Check{
		ID: "M01", Level: "other", Prep: true,
		Technique:   "case-split dataflow (go/ssa, path-sensitive abstract interpretation) from names and numbers to the stored level and from the stored level to the output of every logger",
		Note:        "Every level constant is followed through String, every name compared in the parser to the level stored, every level through SwitchLevel, and the loop over the loggers with the index of the element visited.",
		Assumptions: []string{"log.Logger writes to the output set last", "strings.ToLower, TrimSpace and EqualFold behave as documented"},
		NotCovered:  "the text of log lines.",
		Run: func(r *Report) {
			l := r.p.logger(r)
			if l == nil {
				return
			}
			r.rule("The level constants are 0..N-1 without a gap. String gives N different names and for any other number none of them. SetLevel with a name: the compared text is the argument without surrounding blanks and without regard to case; each name of a level stores that level (further names may be aliases of a level), any other text stores 0; with a number that number is stored. SwitchLevel stores and returns (level+1) mod N. After every change of the level each logger of the list gets its output set exactly once, in order: the writer if its index is below the level and io.Discard otherwise. New puts the logger of level i+1 at index i of the list, each with its own logger.")
			names := m01String(r, l)
			m01Set(r, l, names)
			m01New(r, l)
		},
	})
	register(&Check{
		ID: "M02", Level: "other", Prep: true,
		Technique:   "typestate of the writer over path-sensitive dataflow (go/ssa): which alternatives of the filter were tested before a line is written or suppressed",
		Note:        "The loop over the alternatives is followed with the index of the element tested; SetFilter and Logfilter are followed from the text given to the list stored.",
		Assumptions: []string{"os.File.Write obeys the contract of io.Writer", "strings.Contains, Split and TrimSpace behave as documented"},
		NotCovered:  "the text of log lines; a filter changed by the caller after it was given to SetFilter.",
		Run: func(r *Report) {
			l := r.p.logger(r)
			if l == nil {
				return
			}
			r.rule("Writer: the line is written, once and whole, and the result of that write is returned, on every path where an alternative was found in it or the filter is empty; it is suppressed only where every alternative, from the first to the last, was tested on the line and none found and the filter is not empty, and then the length of the line and no error are returned. A filter given as text becomes all its parts between || without surrounding blanks, in order; a filter given as list is stored as it is; clearing stores an empty filter.")
			m02Write(r, l)
			m02Set(r, l)
		},
	})
}

// m01String: the names of all levels
func m01String(r *Report, l *logger) []string {
	names := append([]string{}, l.names...)
	f := r.p.lookupFunc("teolog", "(LogLevel).String")
	if f == nil {
		r.fail("(LogLevel).String was not found")
		return names
	}
	seen := map[string]int{}
	resolved := true
	for i := -1; i <= len(l.names); i++ {
		i := i
		rule := &Rule{
			NoMerge: true,
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				s, ok := ret[0].strVal()
				if !ok {
					resolved = false
					return
				}
				c := fmt.Sprintf("%s of %d", fnName(f), i)
				if i >= 0 && i < len(l.names) {
					names[i] = s
					p, dup := seen[strings.ToLower(s)]
					r.ob(!dup || p == i, "name", c, f.Pos(), st, "levels %d and %d have the name %s", p, i, s)
					seen[strings.ToLower(s)] = i
				} else {
					for _, n := range names {
						r.ob(!strings.EqualFold(n, s), "name", c, f.Pos(), st, "%d is no level and has the name %s", i, s)
					}
				}
			},
		}
		r.run(rule, func(e *Eng) *Task {
			t := e.RootTask(f)
			t.Args[0] = e.in.Int(int64(i), l.lt)
			return t
		})
	}
	if resolved {
		r.atLeast("name", len(l.names))
	}
	// the name of the current level
	if g := r.p.lookupFunc("teolog", "(*Teolog).String"); g != nil && resolved {
		for i := range l.names {
			i := i
			r.run(&Rule{
				NoMerge: true,
				OnEvent: func(e *Eng, st *State, ev *Event) {
					if ev.Kind == EvLoad && addrField(ev.Addr) == l.level {
						st.setBnd(e, ev.Val, iv{int64(i), int64(i)})
						st.mon["lv"] = ev.Val
					}
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					s, ok := ret[0].strVal()
					if st.mon["lv"] != nil && ok {
						r.ob(s == names[i], "current", fmt.Sprintf("return of %s at level %d", fnName(g), i), g.Pos(), st, "the name %s is given for the level %s", s, names[i])
					}
				},
			}, apiRoot(g))
		}
	}
	if g := r.p.lookupFunc("teolog", "(*Teolog).Level"); g != nil {
		r.run(&Rule{
			NoMerge: true,
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				r.ob(loadedFrom(ret[0]) == l.level, "current", "return of "+fnName(g), g.Pos(), st, "%s is given as the level", desc(ret[0]))
			},
		}, apiRoot(g))
	}
	return names
}

// foldOf: the text a comparison was made with: what was done to it
func foldOf(v *V) (src *V, lower, upper, trim bool) {
	for v.kind == KOp && len(v.args) >= 1 {
		switch v.op {
		case "call:strings.ToLower":
			lower, upper = true, false
		case "call:strings.ToUpper":
			if !lower {
				upper = true
			}
		case "call:strings.TrimSpace":
			trim = true
		case "conv":
		default:
			return v, lower, upper, trim
		}
		v = v.args[0]
	}
	return v, lower, upper, trim
}

// constMap: a map that is filled in the initialisation of the package only
func (p *Program) constMap(v *V) (*types.Var, map[string]int64) {
	if v == nil || v.kind != KSym || len(v.args) == 0 || v.args[0].kind != KGlobal {
		return nil, nil
	}
	g, _ := v.args[0].aux.(*ssa.Global)
	if g == nil || g.Pkg == nil {
		return nil, nil
	}
	res := map[string]int64{}
	for f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					ld, isLd := mu.Map.(*ssa.UnOp)
					var src ssa.Value = mu.Map
					if isLd && ld.Op == token.MUL {
						src = ld.X
					}
					into := src == g
					if mm, ok := mu.Map.(*ssa.MakeMap); ok {
						for _, ref := range *mm.Referrers() {
							if s, ok := ref.(*ssa.Store); ok && s.Addr == g {
								into = true
							}
						}
					}
					if !into {
						continue
					}
					k, ok1 := mu.Key.(*ssa.Const)
					x, ok2 := mu.Value.(*ssa.Const)
					if !ok1 || !ok2 || k.Value == nil || k.Value.Kind() != constant.String || f != g.Pkg.Func("init") {
						return nil, nil
					}
					n, _ := constant.Int64Val(constant.ToInt(x.Value))
					res[constant.StringVal(k.Value)] = n
				}
			}
		}
	}
	o, _ := g.Object().(*types.Var)
	return o, res
}

func (p *Program) allFuncs() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok {
				res[f] = true
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := p.prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := p.prog.MethodValue(ms.At(i)); f != nil {
							res[f] = true
						}
					}
				}
			}
		}
	}
	return res
}

func m01Set(r *Report, l *logger, names []string) {
	setter := r.p.lookupFunc("teolog", "(*Teolog).SetLevel")
	sw := r.p.lookupFunc("teolog", "(*Teolog).SwitchLevel")
	if setter == nil || sw == nil {
		r.fail("SetLevel or SwitchLevel was not found")
		return
	}
	n := int64(len(l.names))
	levelOf := func(name string) (int64, bool) {
		for i, s := range names {
			if strings.EqualFold(s, name) || strings.EqualFold(l.names[i], name) {
				return int64(i), true
			}
		}
		return 0, false
	}
	parsed := map[string]bool{}
	// the loggers follow the level
	outputs := func(e *Eng, st *State, ev *Event) {
		c := instrName(ev.In, ev.Instr)
		switch ev.Kind {
		case EvLoad:
			if addrField(ev.Addr) == l.levels && st.mon["list"] == nil {
				st.mon["list"] = ev.Val
			}
		case EvStore:
			if addrField(ev.Addr) == l.level {
				r.ob(e.ghost(st, "new") == nil, "stored", c, ev.Pos, st, "the level is changed twice")
				e.setGhost(st, "new", ev.Val)
			}
		case EvCall:
			if ev.Name != "(*log.Logger).SetOutput" || len(ev.Args) != 2 {
				return
			}
			b, i, _ := elemOf(ev.Args[0])
			lv := e.ghost(st, "new")
			if lv == nil {
				lv = e.ghost(st, "nxt")
			}
			if !r.ob(b != nil && lv != nil && e.walk(st, "o", b, i), "outputs", c, ev.Pos, st, "the loggers are not set one after the other to a new level: %s", desc(ev.Args[0])) {
				return
			}
			out := ev.Args[1]
			discard := isDiscard(out)
			d := e.bounds(st, e.in.sub(i, lv))
			below, above := d.hi < 0 || e.truth(st, e.mkLt(i, lv)) == 1, d.lo >= 0 || e.truth(st, e.mkLt(i, lv)) == 0
			r.ob(discard && above || !discard && below, "outputs", c, ev.Pos, st, "the logger with index %s is %s at level %s", desc(i), map[bool]string{true: "disabled", false: "enabled"}[discard], desc(lv))
		}
	}
	done := func(e *Eng, st *State, c string, pos token.Pos) *V {
		v := e.ghost(st, "new")
		if !r.ob(v != nil, "stored", c, pos, st, "no level is stored") {
			return nil
		}
		ls := st.mon["list"]
		r.ob(ls != nil && e.walked(st, "o", e.lenOf(st, ls, nil)), "outputs", c, pos, st, "not every logger is set to the new level")
		return v
	}
	fork := func(e *Eng, st *State, cond *V, taken bool) {
		if ls := st.mon["list"]; ls != nil {
			e.walkFork(st, "o", e.lenOf(st, ls, nil), cond, taken)
		}
	}
	maps := map[*types.Var]bool{}
	r.run(&Rule{
		NoMerge: true,
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnFork: func(e *Eng, st *State, cond *V, taken bool) {
			fork(e, st, cond, taken)
			c, t := stripNot(cond, taken)
			if c.kind != KOp || len(c.args) != 2 || c.op != "eq" && c.op != "call:strings.EqualFold" {
				return
			}
			for i, a := range c.args {
				s, ok := a.strVal()
				if !ok {
					continue
				}
				src, lower, upper, trim := foldOf(c.args[1-i])
				if st.mon["text"] == nil || src != st.mon["text"] {
					continue
				}
				pos := setter.Pos()
				fold := c.op != "eq" || lower && s == strings.ToLower(s) || upper && s == strings.ToUpper(s)
				r.ob(fold && trim, "parse", "name "+s, pos, st, "the name %q is compared with regard to case or surrounding blanks: %s", s, desc(c.args[1-i]))
				if t {
					st.mon["name"] = e.in.Str(strings.ToLower(s))
				}
			}
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			switch ev.Kind {
			case EvIs:
				if ev.Val != e.Param(setter, setter.Params[1]) || ev.Hit != 1 {
					break
				}
				st.mon["text"], st.mon["number"] = nil, nil
				delete(st.mon, "text")
				delete(st.mon, "number")
				if isString(ev.Type) {
					st.mon["text"] = ev.Res
				} else {
					st.mon["number"] = ev.Res
				}
			case EvLookup:
				src, lower, upper, trim := foldOf(ev.Key)
				if st.mon["text"] == nil || src != st.mon["text"] {
					break
				}
				g, m := r.p.constMap(ev.Addr)
				if m == nil {
					break
				}
				maps[g] = true
				var ks []string
				for k := range m {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					lv, known := levelOf(k)
					r.ob(trim && (lower && k == strings.ToLower(k) || upper && k == strings.ToUpper(k)), "parse", "name "+k, ev.Pos, st, "the name %q is compared with regard to case or surrounding blanks", k)
					if known {
						r.ob(m[k] == lv, "parse", "name "+k, ev.Pos, st, "the name %q gives level %d", k, m[k])
						parsed[k] = true
					}
				}
				if ev.Hit == 1 {
					st.mon["fromMap"] = ev.Val
				} else {
					delete(st.mon, "fromMap")
				}
			}
			outputs(e, st, ev)
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			c := "return of " + fnName(setter)
			v := done(e, st, c, setter.Pos())
			if v == nil {
				return
			}
			switch {
			case st.mon["number"] != nil:
				r.ob(e.same(st, stripConv(v), st.mon["number"]), "number", c, setter.Pos(), st, "the level %s is stored for the number %s", desc(v), desc(st.mon["number"]))
			case st.mon["text"] != nil && st.mon["name"] != nil:
				s, _ := st.mon["name"].strVal()
				b := e.bounds(st, v)
				lv, known := levelOf(s)
				if known {
					parsed[s] = true
					r.ob(b.lo == lv && b.hi == lv, "parse", c+" for "+s, setter.Pos(), st, "the name %q gives level %s", s, desc(v))
				} else {
					r.ob(b.lo == b.hi && b.lo > 0 && b.lo < n, "parse", c+" for "+s, setter.Pos(), st, "the name %q gives %s, which is no level", s, desc(v))
				}
			case st.mon["fromMap"] != nil:
				r.ob(e.same(st, stripConv(v), st.mon["fromMap"]), "parse", c, setter.Pos(), st, "%s is stored instead of the level found", desc(v))
			default:
				b := e.bounds(st, v)
				r.ob(b.lo == 0 && b.hi == 0, "unknown", c, setter.Pos(), st, "the level %s is stored for a name that is no level", desc(v))
			}
		},
	}, apiRoot(setter))
	for i, nm := range names {
		// a name that is not known gives level 0
		r.ob(i == 0 || parsed[strings.ToLower(nm)], "parse", "level "+l.names[i], setter.Pos(), nil, "the name %q of the level %s is not known", nm, l.names[i])
	}
	r.atLeast("parse", 2*len(l.names))
	r.atLeast("unknown", 1)
	r.atLeast("number", 1)
	// cycling
	for i := int64(0); i < n; i++ {
		i := i
		r.run(&Rule{
			NoMerge: true,
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
			OnFork:  fork,
			OnEvent: func(e *Eng, st *State, ev *Event) {
				if ev.Kind == EvLoad && addrField(ev.Addr) == l.level && e.ghost(st, "new") == nil {
					st.setBnd(e, ev.Val, iv{i, i})
				}
				outputs(e, st, ev)
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				c := fmt.Sprintf("return of %s at level %d", fnName(sw), i)
				v := done(e, st, c, sw.Pos())
				if v == nil {
					return
				}
				want := (i + 1) % n
				is := func(x *V) bool {
					if b := e.bounds(st, x); b.lo == want && b.hi == want {
						return true
					}
					x = stripConv(x)
					if x.kind == KOp && x.op == "rem" && len(x.args) == 2 {
						a, m := e.bounds(st, x.args[0]), e.bounds(st, x.args[1])
						return a.lo == a.hi && m.lo == m.hi && m.lo > 0 && a.lo%m.lo == want
					}
					return false
				}
				r.ob(is(v), "cycle", c, sw.Pos(), st, "level %s follows level %d", desc(v), i)
				r.ob(len(ret) == 1 && is(ret[0]), "cycle", c, sw.Pos(), st, "the number %s is returned for the level after %d", desc(ret[0]), i)
			},
		}, apiRoot(sw))
	}
	r.atLeast("cycle", int(n))
	r.atLeast("outputs", 2)
}

func isDiscard(v *V) bool {
	found := false
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil {
			return
		}
		if v.kind == KGlobal {
			if g, ok := v.aux.(*ssa.Global); ok && g.Name() == "Discard" {
				found = true
			}
		}
		if strings.Contains(v.op, "io.discard") {
			found = true
		}
		for _, a := range v.args {
			walk(a)
		}
	}
	walk(v)
	return found
}

func m01New(r *Report, l *logger) {
	f := r.p.lookupFunc("teolog", "New")
	if f == nil {
		r.fail("teolog.New was not found")
		return
	}
	r.run(&Rule{
		NoMerge: true,
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			c := "return of " + fnName(f)
			list := e.get(st, ret[0], l.levels)
			if !r.ob(list != nil, "list", c, f.Pos(), st, "the list of loggers is unknown") {
				return
			}
			el, ok := e.elems(st, list)
			if !r.ob(ok && len(el) == len(l.loggers), "list", c, f.Pos(), st, "the list has %d loggers, there are %d levels: %s", len(el), len(l.loggers), desc(list)) {
				return
			}
			seen := map[*V]bool{}
			for i, fl := range l.loggers {
				x := e.get(st, ret[0], fl)
				r.ob(x != nil && el[i] == x, "list", c+" index "+fmt.Sprint(i), f.Pos(), st, "the logger with index %d is not the logger of the level %s", i, l.names[i+1])
				r.ob(x != nil && !seen[x] && e.isNil(st, x) == 0, "list", c+" "+l.names[i+1], f.Pos(), st, "the level %s has no logger of its own", l.names[i+1])
				seen[x] = true
			}
			lv := e.get(st, ret[0], l.level)
			r.ob(lv != nil && e.isConst(st, lv, 0), "list", c+" level", f.Pos(), st, "the level of a new logger is %s, no logger is enabled", desc(lv))
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			if ev.Kind == EvCall && ev.Name == "log.New" && len(ev.Args) > 0 {
				r.ob(isDiscard(ev.Args[0]), "disabled", instrName(ev.In, ev.Instr), ev.Pos, st, "a new logger is enabled at level 0")
			}
		},
	}, apiRoot(f))
	r.atLeast("list", 2*len(l.loggers))
}

func m02Write(r *Report, l *logger) {
	var f *ssa.Function
	for x := range r.p.allFuncs() {
		if x.Pkg == l.pk && x.Name() == "Write" && x.Synthetic == "" && x.Signature.Recv() != nil && x.Signature.Results().Len() == 2 {
			f = x
		}
	}
	if f == nil {
		r.fail("the log writer was not found")
		return
	}
	p := f.Params[len(f.Params)-1]
	isLine := func(e *Eng, st *State, v *V) bool {
		v = stripConv(v)
		if v.kind == KOp && v.op == "bytes2str" {
			v = v.args[0]
		}
		return v == e.Param(f, p) || e.same(st, v, e.Param(f, p))
	}
	// test: the term of a test of the line for an alternative
	test := func(e *Eng, st *State, c *V) *V {
		if c.kind == KOp && (c.op == "call:strings.Contains" || c.op == "call:bytes.Contains") && len(c.args) == 2 && isLine(e, st, c.args[0]) {
			x := stripConv(c.args[1])
			if x.kind == KOp && x.op == "str2bytes" {
				x = x.args[0]
			}
			return x
		}
		return nil
	}
	r.run(&Rule{
		NoMerge: true,
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnFork: func(e *Eng, st *State, cond *V, taken bool) {
			c, t := stripNot(cond, taken)
			if x := test(e, st, c); x != nil && st.mon["list"] != nil {
				if b, i, _ := elemOf(x); b != nil && e.same(st, b, st.mon["list"]) {
					if t {
						e.monSet(st, "match", 1)
					} else {
						r.ob(e.walk(st, "f", b, i), "tested", fnName(f), f.Pos(), st, "the alternatives are not tested one after the other: %s", desc(x))
					}
				}
				return
			}
			if ls := st.mon["list"]; ls != nil {
				e.walkFork(st, "f", e.lenOf(st, ls, nil), cond, taken)
				n := e.lenOf(st, ls, nil)
				if b := e.bounds(st, n); b.hi <= 0 {
					e.monSet(st, "empty", 1)
				} else if b.lo > 0 {
					e.monSet(st, "empty", 0)
				}
			}
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			c := instrName(ev.In, ev.Instr)
			switch ev.Kind {
			case EvLoad:
				if addrField(ev.Addr) == l.filter {
					r.ob(st.mon["list"] == nil || st.mon["list"] == ev.Val, "tested", c, ev.Pos, st, "the filter is read twice: it may have changed in between")
					st.mon["list"] = ev.Val
				}
			case EvCall, EvInvoke:
				if !strings.HasSuffix(ev.Name, ".Write") && !strings.HasSuffix(ev.Name, ".WriteString") || len(ev.Args) == 0 {
					return
				}
				if strings.HasPrefix(ev.Name, "(*sync") {
					return
				}
				e.monSet(st, "wrote", 1)
				r.ob(isLine(e, st, ev.Args[len(ev.Args)-1]), "whole", c, ev.Pos, st, "%s is written, not the line", desc(ev.Args[len(ev.Args)-1]))
				r.ob(st.mon["res"] == nil, "whole", c, ev.Pos, st, "the line is written twice")
				if ev.Res != nil {
					st.mon["res"] = ev.Res
				}
				free := st.mon["list"] != nil && (monI(st, "match") == 1 || e.bounds(st, e.lenOf(st, st.mon["list"], nil)).hi <= 0 || st.mon["empty"] != nil && monI(st, "empty") == 1)
				r.ob(free, "written", c, ev.Pos, st, "a line is written in which no alternative of the filter was found")
			}
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			c := "return of " + fnName(f)
			if x := st.mon["res"]; x != nil {
				ok := x.kind == KTuple && len(x.args) == 2 && e.same(st, ret[0], x.args[0]) && (ret[1] == x.args[1] || e.isNil(st, ret[1]) == 1 && e.isNil(st, x.args[1]) == 1)
				if !ok && x.kind == KTuple && e.isNil(st, x.args[1]) == 1 { // all of it was written
					ok = e.isNil(st, ret[1]) == 1 && e.same(st, ret[0], e.lenOf(st, e.Param(f, p), nil))
				}
				r.ob(ok, "result", c, f.Pos(), st, "the result of the write is not returned: %s %s", desc(ret[0]), desc(ret[1]))
				return
			}
			ls := st.mon["list"]
			if !r.ob(ls != nil, "suppressed", c, f.Pos(), st, "a line is suppressed without looking at the filter") {
				return
			}
			n := e.lenOf(st, ls, nil)
			r.ob(monI(st, "match") == 0, "suppressed", c, f.Pos(), st, "a line is suppressed in which an alternative of the filter was found")
			r.ob(e.walked(st, "f", n), "suppressed", c, f.Pos(), st, "a line is suppressed though not every alternative of the filter was tested")
			r.ob(e.bounds(st, n).lo > 0 || st.mon["empty"] != nil && monI(st, "empty") == 0, "suppressed", c, f.Pos(), st, "a line is suppressed by an empty filter")
			r.ob(e.isNil(st, ret[1]) == 1 && e.same(st, ret[0], e.lenOf(st, e.Param(f, p), nil)), "result", c, f.Pos(), st, "for a suppressed line %s, %s is returned, not its length and no error", desc(ret[0]), desc(ret[1]))
		},
	}, apiRoot(f))
	r.atLeast("written", 1)
	r.atLeast("suppressed", 1)
	r.atLeast("result", 1)
	r.atLeast("tested", 1)
}

func m02Set(r *Report, l *logger) {
	// parts: the list made from the text
	parts := func(e *Eng, st *State, ev *Event) {
		isPart := func(b *V) bool {
			return b != nil && b.kind == KOp && b.op == "call:strings.Split" && b == st.mon["split"]
		}
		trimmed := func(v *V) (*V, *V) {
			if v.kind == KOp && v.op == "call:strings.TrimSpace" {
				b, i, _ := elemOf(v.args[0])
				return b, i
			}
			return nil, nil
		}
		c := instrName(ev.In, ev.Instr)
		switch {
		case (ev.Kind == EvCall) && ev.Name == "strings.Split" && len(ev.Args) == 2:
			if ev.Args[0] == st.mon["text"] {
				s, _ := ev.Args[1].strVal()
				if r.ob(s == "||", "parts", c, ev.Pos, st, "the text is divided at %q", s) {
					st.mon["split"] = e.in.mk(V{kind: KOp, op: "call:strings.Split", typ: types.NewSlice(types.Typ[types.String]), args: ev.Args})
				}
			}
		case ev.Kind == EvIndex && ev.Addr.kind == KOp && ev.Addr.op == "call:strings.Split" && len(ev.Addr.args) == 2 && ev.Addr.args[0] == st.mon["text"]:
			st.mon["split"] = ev.Addr
		case ev.Kind == EvStore && ev.Addr.kind == KIndex && isPart(ev.Addr.args[0]):
			b, i := trimmed(ev.Val)
			ok := b != nil && b == ev.Addr.args[0] && e.same(st, i, ev.Addr.args[1])
			r.ob(ok && e.walk(st, "p", b, i), "parts", c, ev.Pos, st, "part %s becomes %s", desc(ev.Addr.args[1]), desc(ev.Val))
		case ev.Kind == EvCall && ev.Name == "append" && len(ev.Args) == 2:
			el, ok := e.elems(st, ev.Args[1])
			if !ok || len(el) != 1 {
				return
			}
			b, i := trimmed(el[0])
			if !isPart(b) {
				return
			}
			acc := e.ghost(st, "acc")
			r.ob((acc == nil || acc.kind == KNil) && e.bounds(st, e.lenOf(st, ev.Args[0], nil)).hi <= 0 || ev.Args[0] == acc, "parts", c, ev.Pos, st, "a part is not appended to the parts before it")
			r.ob(e.walk(st, "p", b, i), "parts", c, ev.Pos, st, "the parts are not appended one after the other: %s", desc(el[0]))
			e.setGhost(st, "acc", ev.Res)
		}
	}
	fork := func(e *Eng, st *State, cond *V, taken bool) {
		if s := st.mon["split"]; s != nil {
			e.walkFork(st, "p", e.lenOf(st, s, nil), cond, taken)
		}
	}
	// made: v is the list of all parts of the text
	made := func(e *Eng, st *State, v *V) bool {
		s := st.mon["split"]
		if s == nil || !e.walked(st, "p", e.lenOf(st, s, nil)) {
			return false
		}
		acc := e.ghost(st, "acc")
		if acc != nil && acc.kind != KNil {
			return e.same(st, v, acc)
		}
		return e.same(st, v, s) || e.bounds(st, e.lenOf(st, s, nil)).hi <= 0 && e.bounds(st, e.lenOf(st, v, nil)).hi <= 0
	}
	if g := r.p.lookupFunc("teolog", "Logfilter"); g != nil {
		r.run(&Rule{
			NoMerge: true,
			OnFork:  fork,
			OnEvent: func(e *Eng, st *State, ev *Event) {
				st.mon["text"] = e.Param(g, g.Params[0])
				parts(e, st, ev)
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				r.ob(made(e, st, ret[0]), "filter", "return of "+fnName(g), g.Pos(), st, "the filter is not made of all parts of the text: %s", desc(ret[0]))
			},
		}, apiRoot(g))
	}
	for _, name := range []string{"SetFilter", "ClearFilter"} {
		f := r.p.lookupFunc("teolog", "(*Teolog)."+name)
		if f == nil {
			r.fail("%s was not found", name)
			continue
		}
		r.run(&Rule{
			NoMerge: true,
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
			OnFork:  fork,
			OnEvent: func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				if ev.Kind == EvIs && len(f.Params) > 1 && ev.Val == e.Param(f, f.Params[1]) && ev.Hit == 1 {
					delete(st.mon, "text")
					delete(st.mon, "given")
					if isString(ev.Type) {
						st.mon["text"] = ev.Res
					} else {
						st.mon["given"] = ev.Res
					}
				}
				parts(e, st, ev)
				if ev.Kind == EvStore && addrField(ev.Addr) == l.filter {
					v := stripConv(ev.Val)
					switch {
					case st.mon["text"] != nil:
						r.ob(made(e, st, v), "filter", c, ev.Pos, st, "the filter is not made of all parts of the text: %s", desc(ev.Val))
					case st.mon["given"] != nil:
						r.ob(e.same(st, v, st.mon["given"]) || e.copyOf(st, v, st.mon["given"]), "filter", c, ev.Pos, st, "%s is stored, not the filter given", desc(ev.Val))
					default:
						r.ob(e.isNil(st, v) == 1 || e.bounds(st, e.lenOf(st, v, nil)).hi <= 0, "filter", c, ev.Pos, st, "the filter %s is stored though none was given", desc(ev.Val))
					}
					e.monSet(st, "stored", 1)
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				r.ob(monI(st, "stored") == 1, "filter", "return of "+fnName(f), f.Pos(), st, "no filter is stored")
			},
		}, apiRoot(f))
	}
	r.atLeast("filter", 4)
	r.atLeast("parts", 1)
}
