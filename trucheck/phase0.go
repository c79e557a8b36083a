package main

// Phase 0: all entry points and everything they spawn are analysed to find the
// locations that may hold nil and the fields written after publication.

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type phase0 struct {
	p     *Program
	found map[string]string // nullable key -> where
	uns   map[*types.Var]bool
	wr    map[*types.Var]map[string]bool
	rng   map[*types.Var]iv
	lists map[string]types.Type
	mapWr map[string]map[string]bool
	pairs map[[2]*types.Var]bool
}

// publish records which locations may hold nil when v becomes visible to other
// goroutines or to the caller of the API
func (e *Eng) publish(st *State, v *V, t types.Type, found func(string), seen map[*V]bool, fn func(*V)) {
	if seen[v] {
		return
	}
	seen[v] = true
	old := e.asZero
	e.asZero = true
	defer func() { e.asZero = old }()
	switch v.kind {
	case KFunc:
		if fn != nil {
			fn(v)
		}
		for _, a := range v.args {
			e.publish(st, a, nil, found, seen, fn)
		}
		return
	case KStruct:
		s := derefStruct(v.typ)
		for i, a := range v.args {
			if s != nil && i < s.NumFields() {
				f := s.Field(i)
				if e.p.inModVar(f) && nilTracked(f.Type()) && e.isNil(st, a) != 0 {
					found(fieldKey(f))
				}
				e.publish(st, a, f.Type(), found, seen, fn)
			}
		}
		return
	case KIface, KTuple, KField, KIndex, KOp:
		for _, a := range v.args {
			e.publish(st, a, nil, found, seen, fn)
		}
		if v.kind == KOp && v.op == "elems" {
			for _, a := range v.args[1:] {
				if a.typ != nil && e.isNil(st, a) != 0 {
					found("E:" + a.typ.String())
				}
			}
		}
		return
	case KObj:
	default:
		return
	}
	pt, ok := v.typ.Underlying().(*types.Pointer)
	if !ok {
		// maps and channels: their entries
		for _, k := range sortedV(st.heap) {
			if k.kind == KOp && k.op == "mapent" && k.args[0] == v {
				e.publish(st, st.heap[k], nil, found, seen, fn)
			}
		}
		return
	}
	var walk func(addr *V, t types.Type)
	walk = func(addr *V, t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !e.p.inModVar(f) {
					continue
				}
				fa := e.in.FieldAddr(addr, i, u)
				if _, ok := st.heap[fa]; !ok && inherited(v) && st.zero[v] && !e.stableAddr(st, fa, false) {
					continue // set by the goroutine that made the object
				}
				if nilTracked(f.Type()) {
					x := e.load(st, fa, f.Type())
					if e.isNil(st, x) != 0 {
						found(fieldKey(f))
					}
					e.publish(st, x, f.Type(), found, seen, fn)
					continue
				}
				if _, isS := f.Type().Underlying().(*types.Struct); isS {
					walk(fa, f.Type())
					continue
				}
				if x, ok := st.heap[fa]; ok {
					e.publish(st, x, f.Type(), found, seen, fn)
				}
			}
		default:
			if x, ok := st.heap[addr]; ok {
				e.publish(st, x, t, found, seen, fn)
			}
			for _, k := range sortedV(st.heap) {
				if k.kind == KIndex && k.args[0] == addr {
					e.publish(st, st.heap[k], nil, found, seen, fn)
				}
			}
		}
	}
	walk(v, pt.Elem())
}

// inherited: the object was made by the goroutine that started this one
func inherited(v *V) bool {
	o, ok := v.aux.(objSite)
	return ok && v.kind == KObj && o.label == "spawned"
}

// failing: the call returns a non-nil error, its other results are not used
func (e *Eng) failing(st *State, fn *ssa.Function, ret []*V) bool {
	n := fn.Signature.Results().Len()
	if n == 0 || len(ret) != n || !types.Identical(fn.Signature.Results().At(n-1).Type(), tError) {
		return false
	}
	return e.isNil(st, ret[n-1]) == 0
}

func rootClass(e *Eng) string {
	if e.root == nil {
		return "?"
	}
	if e.p.listenerTask(e.root) {
		return "listener"
	}
	return e.root.Kind + ":" + e.root.Fn.String()
}

// callbackTask turns a function value that the module stored for later calls
// into an entry point
func (e *Eng) callbackTask(st *State, v *V) {
	fn := v.aux.(*ssa.Function)
	if fn.Blocks == nil || !e.p.inModule(fn) {
		return
	}
	var args []*V
	for i, p := range fn.Params {
		name := p.Name()
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			name = "!" + name
		}
		args = append(args, e.named(name, p.Type(), symKey{instr: p, tag: fmt.Sprint("cb", i)}))
	}
	e.spawnTask(st, "callback", v, args, 0, nil)
}

func newPhase0(p *Program) *phase0 {
	return &phase0{p: p, found: map[string]string{}, uns: map[*types.Var]bool{}, wr: map[*types.Var]map[string]bool{}, rng: map[*types.Var]iv{}, lists: map[string]types.Type{},
		mapWr: map[string]map[string]bool{}, pairs: map[[2]*types.Var]bool{}}
}

func (ph *phase0) merge(q *phase0) {
	for k, v := range q.found {
		if _, ok := ph.found[k]; !ok {
			ph.found[k] = v
		}
	}
	for k := range q.uns {
		ph.uns[k] = true
	}
	for f, w := range q.wr {
		if ph.wr[f] == nil {
			ph.wr[f] = map[string]bool{}
		}
		for c := range w {
			ph.wr[f][c] = true
		}
	}
	for k, w := range q.mapWr {
		if ph.mapWr[k] == nil {
			ph.mapWr[k] = map[string]bool{}
		}
		for c := range w {
			ph.mapWr[k][c] = true
		}
	}
	for f, b := range q.rng {
		if o, ok := ph.rng[f]; ok {
			b = b.hull(o)
		}
		ph.rng[f] = b
	}
	for k, t := range q.lists {
		ph.lists[k] = t
	}
	for k := range q.pairs {
		ph.pairs[k] = true
	}
}

func (ph *phase0) rule() *Rule {
	pub := func(e *Eng, st *State, v *V, t types.Type, where string) {
		e.publish(st, v, t, func(k string) {
			if nullDbg != "" && strings.Contains(k, nullDbg) {
				fmt.Fprintln(os.Stderr, "NULL", k, where, e.root.Name, v, "zero", st.zero)
				for _, h := range sortedV(st.heap) {
					fmt.Fprintf(os.Stderr, "    %v = %v\n", h, st.heap[h])
				}
				nullDbg = ""
			}
			if _, ok := ph.found[k]; !ok {
				ph.found[k] = where
			}
		}, map[*V]bool{}, func(f *V) { e.callbackTask(st, f) })
	}
	return &Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
		OnReturn: func(e *Eng, st *State, root *Task, ret []*V) {
			if root.Kind != "root" || e.failing(st, root.Fn, ret) {
				return
			}
			for _, r := range ret {
				pub(e, st, r, nil, "result of "+root.Name)
			}
		},
		OnExit: func(e *Eng, st *State, fn *ssa.Function, ctx *Ctx, ret []*V) { ph.checkPairs(e, st, fn, ctx.up) },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			where := posStr(e.p.fset, ev.Pos)
			switch ev.Kind {
			case EvStore:
				for _, lf := range storeLeaves(e, st, ev.Addr, ev.Val, ev.Type) {
					if f := fieldVar(lf.addr); f != nil && isInteger(lf.typ) && e.p.inModVar(f) {
						b := e.bounds(st, lf.val)
						if o, ok := ph.rng[f]; ok {
							b = b.hull(o)
						}
						ph.rng[f] = b
					}
					if f := fieldVar(lf.addr); f != nil && f.Name() == "Value" && f.Pkg() != nil && f.Pkg().Path() == "container/list" {
						ph.pushed(e, st, lf.val, where)
					}
				}
				rb := rootBase(ev.Addr)
				if !e.shared(st, rb) {
					return
				}
				for _, lf := range storeLeaves(e, st, ev.Addr, ev.Val, ev.Type) {
					if f := innerField(lf.addr); f != nil && e.p.inModVar(f) {
						ph.uns[f] = true
						if ph.wr[f] == nil {
							ph.wr[f] = map[string]bool{}
						}
						ph.wr[f][rootClass(e)] = true
						if nilTracked(f.Type()) && e.isNil(st, lf.val) != 0 && lf.addr.kind == KField {
							ph.add(fieldKey(f), where)
						}
					}
					if lf.addr.kind == KGlobal && nilTracked(lf.typ) && e.isNil(st, lf.val) != 0 {
						ph.add("G:"+lf.addr.aux.(*ssa.Global).String(), where)
					}
					if lf.addr.kind == KIndex && nilTracked(lf.typ) && e.isNil(st, lf.val) != 0 {
						ph.add("E:"+lf.typ.String(), where)
					}
					// a pointer field that is known through its type only
					if lf.addr.kind == KSym && nilTracked(lf.typ) && e.isNil(st, lf.val) != 0 {
						ph.add("P:"+lf.typ.String(), where)
					}
				}
				pub(e, st, ev.Val, ev.Type, where)
			case EvMapDelete:
				ph.mapWritten(e, st, ev.Addr)
			case EvMapUpdate:
				ph.mapWritten(e, st, ev.Addr)
				if mt := mapTypeOf(ev); mt != nil && nilTracked(mt.Elem()) && e.isNil(st, ev.Val) != 0 {
					ph.add("M:"+mt.String(), where)
				}
				if e.shared(st, rootBase(ev.Addr)) {
					pub(e, st, ev.Val, nil, where)
				}
			case EvSend:
				if t := chanElemOf(ev); t != nil && nilTracked(t) && e.isNil(st, ev.Val) != 0 {
					ph.add("C:"+t.String(), where)
				}
				pub(e, st, ev.Val, nil, where)
			case EvDyn:
				for _, a := range ev.Args {
					pub(e, st, a, nil, where)
				}
			case EvCall:
				for _, a := range ev.Args {
					if a.kind == KIface && e.p.modType(a.typ) && nilTracked(a.typ) && e.isNil(st, a.args[0]) != 0 {
						ph.add("B:"+a.typ.String(), where)
					}
				}
				if strings.HasPrefix(ev.Name, "(*container/list.List).Push") || strings.HasPrefix(ev.Name, "(*container/list.List).Insert") {
					if strings.HasSuffix(ev.Name, "List") {
						ph.lists["?"] = nil
					} else {
						ph.pushed(e, st, ev.Args[1], where)
					}
					pub(e, st, ev.Args[1], nil, where)
				}
				if ev.Name == "append" {
					for _, a := range ev.Args[1:] {
						pub(e, st, e.freezeSlice(st, a), nil, where)
					}
				}
			}
		},
	}
}

func (ph *phase0) mapWritten(e *Eng, st *State, m *V) {
	if m.typ == nil || m.kind == KObj && !st.esc[m] {
		return
	}
	ks := []string{"T:" + m.typ.String()}
	if f := mapField(m); f != nil {
		ks = append(ks, "F:"+fieldKey(f))
	} else {
		ks = append(ks, "X:"+m.typ.String())
	}
	for _, k := range ks {
		if ph.mapWr[k] == nil {
			ph.mapWr[k] = map[string]bool{}
		}
		ph.mapWr[k][rootClass(e)] = true
	}
}

func (ph *phase0) add(k, where string) {
	if nullDbg != "" && strings.Contains(k, nullDbg) {
		fmt.Fprintln(os.Stderr, "NULL", k, where)
	}
	if _, ok := ph.found[k]; !ok {
		ph.found[k] = where
	}
}

// pushed notes the dynamic type of a value put into a list
func (ph *phase0) pushed(e *Eng, st *State, v *V, where string) {
	if v.kind != KIface {
		ph.lists["?"] = nil
		return
	}
	ph.lists[v.typ.String()] = v.typ
	if nilTracked(v.typ) && e.isNil(st, v.args[0]) != 0 {
		ph.add("L:"+v.typ.String(), where)
	}
}

type leaf struct {
	addr, val *V
	typ       types.Type
}

// storeLeaves splits a store of a struct into the stores of its fields
func storeLeaves(e *Eng, st *State, addr, val *V, t types.Type) []leaf {
	if s, ok := t.Underlying().(*types.Struct); ok {
		var out []leaf
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, storeLeaves(e, st, e.in.FieldAddr(addr, i, s), e.fieldOf(st, val, i, s), s.Field(i).Type())...)
		}
		return out
	}
	return []leaf{{addr, val, t}}
}

// innerField is the field a location belongs to
func innerField(a *V) *types.Var {
	for ; a.kind == KField || a.kind == KIndex; a = a.args[0] {
		if f := fieldVar(a); f != nil {
			return f
		}
	}
	return nil
}

func mapTypeOf(ev *Event) *types.Map {
	switch x := ev.Instr.(type) {
	case *ssa.MapUpdate:
		m, _ := x.Map.Type().Underlying().(*types.Map)
		return m
	}
	return nil
}

func chanElemOf(ev *Event) types.Type {
	switch x := ev.Instr.(type) {
	case *ssa.Send:
		return x.Chan.Type().Underlying().(*types.Chan).Elem()
	case *ssa.Select:
		for _, s := range x.States {
			if s.Pos == ev.Pos && s.Dir == types.SendOnly {
				return s.Chan.Type().Underlying().(*types.Chan).Elem()
			}
		}
	}
	return nil
}

var debugTime = os.Getenv("TRUCHECK_DEBUG") != ""

// runAll analyses every entry point, several at a time
func (p *Program) runAll(mk func() *Rule) ([]*Eng, error) {
	return p.runRoots(p.apiRoots(), nil, mk)
}

// runThreads analyses every entry point and every named goroutine function once,
// instead of following the goroutines from each place that starts them
func (p *Program) runThreads(mk func() *Rule) ([]*Eng, error) {
	var roots []*ssa.Function
	named := map[*ssa.Function]bool{}
	for _, f := range p.goTargets() {
		named[f] = true
		roots = append(roots, f)
	}
	for _, f := range p.apiRoots() {
		if !named[f] {
			roots = append(roots, f)
		}
	}
	return p.runRoots(roots, named, func() *Rule {
		rule := mk()
		own := rule.OnSpawn
		rule.OnSpawn = func(e *Eng, st *State, t *Task) bool {
			if t.Fn != nil && named[t.Fn] {
				return false
			}
			return own == nil || own(e, st, t)
		}
		return rule
	})
}

func (p *Program) runRoots(roots []*ssa.Function, goes map[*ssa.Function]bool, mk func() *Rule) ([]*Eng, error) {
	engs := make([]*Eng, len(roots))
	errs := make([]error, len(roots))
	rules := make([]*Rule, len(roots))
	for i := range roots {
		rules[i] = mk()
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if debugTime {
		n = 1
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				t0 := time.Now()
				e := newEng(p, rules[i])
				engs[i] = e
				t := e.RootTask(roots[i])
				if goes[roots[i]] {
					t.Kind = "go"
				}
				errs[i] = e.runSafe(t)
				if debugTime && time.Since(t0) > 300*time.Millisecond {
					fmt.Fprintf(os.Stderr, "%-50s %6d steps %v joins %d\n", roots[i], e.steps, time.Since(t0).Round(time.Millisecond), e.joins)
					dumpSteps()
				}
			}
		}()
	}
	// the constructors first: they take longest
	big := func(f *ssa.Function) bool {
		return p.readsNet[f] || f.Signature.Recv() == nil && p.startsListener(f, map[*ssa.Function]bool{})
	}
	for _, first := range []bool{true, false} {
		for i, f := range roots {
			if big(f) == first {
				ch <- i
			}
		}
	}
	close(ch)
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return engs, fmt.Errorf("%s: %w", roots[i], err)
		}
	}
	return engs, nil
}

// startsListener: the function or a function it calls starts the goroutine that
// receives datagrams
func (p *Program) startsListener(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			s := c.Common().StaticCallee()
			if _, isGo := i.(*ssa.Go); isGo {
				if s != nil && p.readsNet[s] {
					return true
				}
				continue
			}
			if s != nil && p.inModule(s) && p.startsListener(s, seen) {
				return true
			}
		}
	}
	return false
}

func (e *Eng) runSafe(t *Task) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(limitErr); ok {
				err = fmt.Errorf("analysis limit reached")
				return
			}
			if debugTime {
				panic(r)
			}
			err = fmt.Errorf("analysis failed: %v", r)
		}
	}()
	e.Run(t)
	return nil
}

// zeroGlobals: package variables of struct type start with nil in their fields
func (p *Program) zeroGlobals() {
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || d > 4 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if nilTracked(f.Type()) && p.inModVar(f) {
				p.nullable[fieldKey(f)] = true
			}
			walk(f.Type(), d+1)
		}
	}
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				if t := g.Type().(*types.Pointer).Elem(); len(p.storesTo(g)) == 0 {
					walk(t, 0)
				}
			}
		}
	}
}

// storesTo are the instructions of the initialiser that write a variable
func (p *Program) storesTo(g *ssa.Global) []ssa.Instruction {
	var out []ssa.Instruction
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				a := s.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				if a == ssa.Value(g) {
					out = append(out, i)
				}
			}
		}
	}
	return out
}

// prepare runs phase 0 to a fixpoint: it starts from the assumption that no
// tracked location holds nil and no field changes after publication, and drops
// the assumptions that a round refutes until none is refuted
func (p *Program) prepare() error {
	p.buildPairs()
	p.zeroGlobals()
	p.hinted = !noHints && p.loadHints()
	p.prepared = true
	for round := 0; ; round++ {
		var parts []*phase0
		engs, err := p.runThreads(func() *Rule {
			ph := newPhase0(p)
			parts = append(parts, ph)
			return ph.rule()
		})
		if err != nil {
			return err
		}
		ph := newPhase0(p)
		for _, q := range parts {
			ph.merge(q)
		}
		n := 0
		var ks []string
		if round == 0 && !p.hinted {
			// only who writes what: the other findings of this round follow from
			// the assumption that nothing changes
			ph.found, ph.rng, ph.pairs = nil, nil, nil
			n++
		}
		for k, w := range ph.found {
			if !p.nullable[k] {
				p.nullable[k] = true
				n++
				ks = append(ks, k+" at "+w)
			}
		}
		for f := range ph.uns {
			if !p.unstable[f] {
				p.unstable[f] = true
				n++
				ks = append(ks, "unstable "+f.Name())
			}
		}
		for f, w := range ph.wr {
			if p.writers[f] == nil {
				p.writers[f] = map[string]bool{}
			}
			for c := range w {
				if !p.writers[f][c] {
					p.writers[f][c] = true
					n++
				}
			}
		}
		for k, w := range ph.mapWr {
			if p.mapWr[k] == nil {
				p.mapWr[k] = map[string]bool{}
			}
			for c := range w {
				if !p.mapWr[k][c] {
					p.mapWr[k][c] = true
					n++
				}
			}
		}
		for k := range ph.pairs {
			if !p.pairBad[k] {
				p.pairBad[k] = true
				n++
				ks = append(ks, "pair "+k[0].Name()+"/"+k[1].Name())
			}
		}
		for f, b := range ph.rng {
			if p.widenRange(f, b) {
				n++
				ks = append(ks, fmt.Sprintf("range %s %v", f.Name(), p.ranges[f]))
			}
		}
		for k, t := range ph.lists {
			if _, ok := p.listTypes[k]; !ok {
				p.listTypes[k] = t
				n++
			}
		}
		if debugTime {
			sort.Strings(ks)
			fmt.Fprintf(os.Stderr, "phase0 round %d: %d new %v\n", round, n, ks)
		}
		if n == 0 {
			p.phase0 = engs
			break
		}
		if round > 12 {
			return fmt.Errorf("phase 0 does not stabilise")
		}
	}
	p.phased = true
	// flags that decide who tears something down are told apart when they are
	// loaded, so that it does not matter how their value reaches the decision
	ro := p.roles()
	p.flags = map[*types.Var]bool{ro.destroyed: true, ro.sendDestroyed: true, ro.truClosed: true}
	delete(p.flags, nil)
	return nil
}

var nullDbg = os.Getenv("NULL")
