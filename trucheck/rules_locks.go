package main

// K01 locksets, K02 lock discipline, K03 what happens under locks, K04 message
// pieces.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// lockClass names a lock by the field or package variable that holds it
func lockClass(a *V) string {
	if f := addrField(a); f != nil {
		return fieldKey(f)
	}
	b := rootBase(a)
	if b.kind == KGlobal {
		return "G:" + b.aux.(*ssa.Global).String()
	}
	if b.kind == KObj {
		return "local " + b.typ.String()
	}
	return "? " + b.String()
}

// lockOwner is the address of the struct that has the lock as a field
func lockOwner(a *V) *V {
	if a.kind == KField {
		return a.args[0]
	}
	return a
}

// threadName identifies the goroutine a task runs on
func threadName(e *Eng) string {
	return e.root.Kind + " " + fnName(e.root.Fn)
}

// singleGo: the function is started as a goroutine only while the object it
// works on is made, outside of loops: there is one such goroutine per object
func (p *Program) singleGo(f *ssa.Function) bool {
	var once func(i ssa.Instruction, recv *types.Named, d int) bool
	once = func(i ssa.Instruction, recv *types.Named, d int) bool {
		g := i.Parent()
		if inLoop(i) || d > 5 {
			return false
		}
		if recv != nil {
			for _, b := range g.Blocks {
				for _, x := range b.Instrs {
					if a, ok := x.(*ssa.Alloc); ok && a.Heap && types.Identical(a.Type(), types.NewPointer(recv)) {
						return true
					}
				}
			}
		}
		us := p.callersOf()[g]
		if len(us) != 1 {
			return false
		}
		if c, ok := us[0].(*ssa.Call); !ok || c.Call.StaticCallee() != g {
			return false
		}
		return once(us[0], recv, d+1)
	}
	n := 0
	gos, others := p.goSites(f)
	if len(others) > 0 {
		return false
	}
	for _, u := range gos {
		var recv *types.Named
		if f.Signature.Recv() != nil {
			if pt, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				recv, _ = pt.Elem().(*types.Named)
			}
		}
		if !once(u, recv, 0) {
			return false
		}
		n++
	}
	return n == 1
}

// spawnCallbacks makes module closures that are stored for a later call entry
// points of their own
func spawnCallbacks(e *Eng, st *State, ev *Event) {
	pub := func(v *V, t types.Type) {
		if v == nil {
			return
		}
		e.publish(st, v, t, func(string) {}, map[*V]bool{}, func(f *V) { e.callbackTask(st, f) })
	}
	switch ev.Kind {
	case EvStore:
		if e.shared(st, rootBase(ev.Addr)) {
			pub(ev.Val, ev.Type)
		}
	case EvMapUpdate:
		if e.shared(st, rootBase(ev.Addr)) {
			pub(ev.Val, nil)
		}
	case EvSend:
		pub(ev.Val, nil)
	case EvDyn:
		for _, a := range ev.Args {
			pub(a, nil)
		}
	}
}

// ---------------------------------------------------------------- K01

type heldLock struct {
	class, rel string
	mode       byte
}

type access struct {
	key       string
	write     bool
	locks     []heldLock
	thread    string
	multi     bool // may run at the same time as itself
	api       bool
	ctor      bool     // the object is not visible to callers of the API yet
	started   []string // the goroutines this one started before
	inherited bool
	site, in  string
	pos       token.Pos
	trace     *trace
	contents  bool
	handed    string // type of an object received from a queue
}

func (a access) id() string {
	var l []string
	for _, h := range a.locks {
		l = append(l, fmt.Sprint(h.class, h.rel, string(h.mode)))
	}
	sort.Strings(l)
	return fmt.Sprint(a.key, a.write, a.thread, a.ctor, a.inherited, a.handed, a.site, strings.Join(l, ","), a.started)
}

type accessLog struct {
	mu  sync.Mutex
	all map[string]access
	up  map[string]map[string]bool // thread -> threads that start it
	// types of objects that were sent on a queue although others knew them, or
	// that were used by the sender afterwards
	notHanded map[string]bool
}

func (l *accessLog) descends(t, from string, seen map[string]bool) bool {
	if t == from {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for u := range l.up[t] {
		if l.descends(u, from, seen) {
			return true
		}
	}
	return false
}

func (l *accessLog) add(a access) {
	l.mu.Lock()
	defer l.mu.Unlock()
	k := a.id()
	if _, ok := l.all[k]; !ok {
		l.all[k] = a
	}
}

// markPublished: the object was stored where callers of the API find it
func markPublished(pub map[*V]bool, st *State, v *V) {
	switch v.kind {
	case KFunc:
		return // a callback does not give its objects to the application
	case KStruct, KTuple, KIface:
		for _, a := range v.args {
			markPublished(pub, st, a)
		}
		return
	}
	for _, a := range v.atoms {
		if a.kind != KObj || pub[a] {
			continue
		}
		pub[a] = true
		for k, x := range st.heap {
			if rootBase(k) == a {
				markPublished(pub, st, x)
			}
		}
	}
}

func (p *Program) singleThread(cache map[*ssa.Function]bool, t *Task) bool {
	if t.Kind != "go" {
		return false
	}
	if s, ok := cache[t.Fn]; ok {
		return s
	}
	cache[t.Fn] = p.singleGo(t.Fn)
	return cache[t.Fn]
}

// lockRule records every access to shared state with the locks held
func lockRule(p *Program, log *accessLog, skip func(f *types.Var) bool) *Rule {
	cache := map[*ssa.Function]bool{}
	pub := map[*V]bool{}
	sent := map[*V]bool{}  // objects handed over through a queue
	got := map[*V]string{} // objects received from a queue
	structPtr := func(v *V) string {
		if v == nil || v.typ == nil {
			return ""
		}
		if _, ok := v.typ.Underlying().(*types.Pointer); ok && derefStruct(v.typ) != nil {
			return v.typ.String()
		}
		return ""
	}
	parts := func(v *V) []*V {
		if v != nil && (v.kind == KStruct || v.kind == KTuple) {
			return v.args
		}
		return []*V{v}
	}
	rec := func(e *Eng, st *State, ev *Event, addr *V, key string, write bool, extra ...heldLock) {
		base := rootBase(addr)
		if base.kind == KObj {
			if !st.esc[base] {
				return
			}
		}
		if base.kind == KOp || base.kind == KSym && len(base.args) == 0 {
			// an element of a slice this function built
			for x := addr; x.kind == KField || x.kind == KIndex; x = x.args[0] {
				if x.kind == KIndex {
					if _, isP := base.aux.(*ssa.Parameter); !isP {
						return
					}
				}
			}
		}
		a := access{key: key, write: write, thread: threadName(e), api: e.root.Kind == "root",
			multi: !p.singleThread(cache, e.root), pos: ev.Pos, trace: st.tr}
		if base.kind == KObj && !inherited(base) && !pub[base] {
			a.ctor = true
			for k := range st.may {
				if strings.HasPrefix(k, "go:") {
					a.started = append(a.started, k[3:])
				}
			}
			sort.Strings(a.started)
		}
		a.inherited = inherited(base)
		a.handed = got[base]
		if sent[base] {
			log.mu.Lock()
			log.notHanded[structPtr(base)] = true
			log.mu.Unlock()
		}
		a.site, a.in = instrName(ev.In, ev.Instr), fnName(ev.In)
		for _, l := range st.locks {
			h := heldLock{class: lockClass(l.addr), mode: l.mode}
			own := lockOwner(l.addr)
			h.rel = "other"
			for x := addr; ; x = x.args[0] {
				if x == own {
					h.rel = "own"
				}
				if x.kind != KField && x.kind != KIndex {
					break
				}
			}
			if own.kind == KGlobal {
				h.rel = "global"
			}
			a.locks = append(a.locks, h)
		}
		a.locks = append(a.locks, extra...)
		log.add(a)
	}
	var leaves func(e *Eng, st *State, ev *Event, addr *V, t types.Type, write bool)
	leaves = func(e *Eng, st *State, ev *Event, addr *V, t types.Type, write bool) {
		if t == nil {
			if pt, ok := addr.typ.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
		if t != nil {
			if s, ok := t.Underlying().(*types.Struct); ok && (p.modType(t) || addr.kind != KField) {
				for i := 0; i < s.NumFields(); i++ {
					if p.inModVar(s.Field(i)) {
						leaves(e, st, ev, e.in.FieldAddr(addr, i, s), s.Field(i).Type(), write)
					}
				}
				return
			}
		}
		f := addrField(addr)
		if f == nil {
			b := rootBase(addr)
			if b.kind == KGlobal {
				if g := b.aux.(*ssa.Global); g.Pkg != nil && p.inModPath(g.Pkg.Pkg.Path()) {
					rec(e, st, ev, addr, "G:"+g.String(), write)
				}
				return
			}
			// element of a slice held in a field
			if addr.kind == KIndex {
				if lf := loadedFrom(sliceBase(addr.args[0])); lf != nil && p.inModVar(lf) && !skip(lf) {
					rec(e, st, ev, sliceBase(addr.args[0]).args[0], fieldKey(lf)+"[]", write)
				}
			}
			return
		}
		if !p.inModVar(f) || skip(f) {
			return
		}
		rec(e, st, ev, addr, fieldKey(f), write)
	}
	return &Rule{
		OnAlloc: func(e *Eng, x *V) { delete(pub, x); delete(sent, x) },
		OnSpawn: func(e *Eng, st *State, t *Task) bool {
			log.mu.Lock()
			defer log.mu.Unlock()
			k := t.Kind + " " + fnName(t.Fn)
			if log.up[k] == nil {
				log.up[k] = map[string]bool{}
			}
			log.up[k][threadName(e)] = true
			return true
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			spawnCallbacks(e, st, ev)
			if ev.In == nil || !p.inModule(ev.In) {
				return
			}
			switch ev.Kind {
			case EvGo:
				st.may["go:go "+fnName(ev.Callee)] = true
			case EvTimer:
				st.may["go:timer "+fnName(ev.Callee)] = true
			case EvStore:
				if b := rootBase(ev.Addr); b.kind != KObj || pub[b] {
					markPublished(pub, st, ev.Val)
				}
			case EvMapUpdate:
				if b := rootBase(ev.Addr); b.kind != KObj || pub[b] {
					markPublished(pub, st, ev.Val)
				}
			case EvRecv:
				for _, v := range parts(ev.Val) {
					if v != nil && v.kind == KSym {
						if s := structPtr(v); s != "" {
							got[v] = s
						}
					}
				}
			case EvSend:
				for _, v := range parts(ev.Val) {
					s := structPtr(v)
					if s == "" {
						continue
					}
					if v.kind == KObj && !st.esc[v] && !inherited(v) {
						sent[v] = true
						continue
					}
					log.mu.Lock()
					log.notHanded[s] = true
					log.mu.Unlock()
				}
				markPublished(pub, st, ev.Val)
			case EvDyn:
				for _, a := range ev.Args {
					markPublished(pub, st, a)
				}
			}
			switch ev.Kind {
			case EvLoad, EvStore:
				leaves(e, st, ev, ev.Addr, ev.Type, ev.Kind == EvStore)
			case EvLookup, EvMapUpdate, EvMapDelete, EvRange:
				if f := loadedFrom(ev.Addr); f != nil && p.inModVar(f) && !skip(f) {
					rec(e, st, ev, ev.Addr.args[0], fieldKey(f)+"[]", ev.Kind == EvMapUpdate || ev.Kind == EvMapDelete)
				}
			case EvCall:
				if strings.HasPrefix(ev.Name, "sync/atomic.") && len(ev.Args) > 0 {
					if f := addrField(ev.Args[0]); f != nil && p.inModVar(f) {
						rec(e, st, ev, ev.Args[0], fieldKey(f), !strings.Contains(ev.Name, "Load"), heldLock{"atomic", "global", 'W'})
					}
					return
				}
				if strings.HasPrefix(ev.Name, "(*container/list.List).") && len(ev.Args) > 0 {
					if f := addrField(ev.Args[0]); f != nil && p.inModVar(f) {
						m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
						rec(e, st, ev, ev.Args[0], fieldKey(f)+"[]", m != "Front" && m != "Back" && m != "Len")
					}
				}
				if strings.HasPrefix(ev.Name, "(*container/list.Element).") {
					for _, lf := range listFields(p) {
						if st.locks == nil {
							rec(e, st, ev, ev.Args[0], fieldKey(lf)+"[]", false)
							continue
						}
						rec(e, st, ev, ev.Args[0], fieldKey(lf)+"[]", false)
					}
				}
			}
		},
	}
}

// listFields are the struct fields of the module that hold a list
func listFields(p *Program) []*types.Var {
	var out []*types.Var
	for _, pk := range p.pkgs {
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if s, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Type().String() == "container/list.List" || s.Field(i).Type().String() == "*container/list.List" {
						out = append(out, s.Field(i))
					}
				}
			}
		}
	}
	return out
}

func (l *accessLog) concurrent(a, b access) bool {
	if a.thread == b.thread && !a.multi {
		return false
	}
	for _, x := range []access{a, b} {
		if x.handed != "" && !l.notHanded[x.handed] {
			return false
		}
	}
	if b.ctor {
		a, b = b, a
	}
	if a.ctor {
		if b.ctor || b.api || !b.inherited {
			return false
		}
		for _, t := range a.started {
			if l.descends(b.thread, t, map[string]bool{}) {
				return true
			}
		}
		return false
	}
	return true
}

func commonLock(a, b access) bool {
	for _, x := range a.locks {
		for _, y := range b.locks {
			if x.class == y.class && (x.mode == 'W' || y.mode == 'W') {
				if x.rel == y.rel || a.contents || b.contents {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register(&Check{
		ID: "K01", Level: "other", Prep: true,
		Technique:   "interprocedural lockset analysis over go/ssa with goroutine roots (API, go statements, timers, callbacks)",
		Note:        "Every access to a module field, map, list or package variable that other goroutines can reach is recorded with the goroutine it runs on and the locks held; each pair of possibly concurrent accesses with a write must share a lock.",
		Assumptions: []string{"an endpoint's listener, reader and sender goroutines run once per endpoint", "locks are told apart by field and by whether they belong to the accessed object, not by instance", "packets belong to the goroutine that took them from a queue (their header fields are decided by C01 and C03)"},
		NotCovered:  "captured local variables, objects of the standard library, state reached through interfaces of the application.",
		Run: func(r *Report) {
			r.rule("Every pair of accesses to the same field (map, list, package variable) with at least one write, on goroutines that can run at the same time, holds a common lock, exclusively on one side. Objects that no other goroutine can reach yet, and objects the constructor has not returned yet with respect to API callers, are excluded.")
			ro := r.p.roles()
			confined := map[*types.Var]bool{ro.pktID: true, ro.pktStatus: true, ro.pktData: true}
			// the menu's state is used by the menu goroutine only
			if t := r.p.structType("tru", "hotkeyMenuState"); t != nil {
				s := t.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					confined[s.Field(i)] = true
				}
			}
			skip := func(f *types.Var) bool { return confined[f] }
			lg := &accessLog{notHanded: map[string]bool{}, all: map[string]access{}, up: map[string]map[string]bool{}}
			r.runAll(func(q *Report) *Rule { return lockRule(r.p, lg, skip) })
			by := map[string][]access{}
			for _, a := range lg.all {
				if strings.HasPrefix(a.thread, "root (*"+modPath+".Packet)") {
					continue // the caller's own packet
				}
				a.contents = strings.HasSuffix(a.key, "[]")
				by[a.key] = append(by[a.key], a)
			}
			var keys []string
			for k := range by {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				as := by[k]
				sort.Slice(as, func(i, j int) bool { return as[i].id() < as[j].id() })
				writes := 0
				for _, a := range as {
					if a.write {
						writes++
					}
				}
				if writes == 0 {
					continue
				}
				for _, w := range as {
					if !w.write {
						continue
					}
					for _, b := range as {
						if !lg.concurrent(w, b) {
							continue
						}
						ok := commonLock(w, b)
						what := "read"
						if b.write {
							what = "written"
						}
						c := fmt.Sprintf("%s written in %s", k, w.in)
						if strings.HasPrefix(k, "G:") {
							c = k
						}
						r.ob(ok, "race", c, w.pos, nil,
							"%s is written in %s (%s) and %s in %s at %s (%s) without a common lock", k, w.site, w.thread, what, b.site, posStr(r.p.fset, b.pos), b.thread)
					}
				}
			}
			r.atLeast("race", 50)
		},
	})
}

// ---------------------------------------------------------------- K02

type lockEdge struct {
	from, to, where string
	pos             token.Pos
	trace           *trace
}

const logLock = "log.Logger mutex"

func isLogCall(name string) bool { return strings.HasPrefix(name, "(*log.Logger).") }

func init() {
	register(&Check{
		ID: "K02", Level: "other", Prep: true,
		Technique:   "interprocedural lock typestate and lock-order graph over go/ssa",
		Note:        "On every path of every entry point: no lock is taken while the goroutine holds it, released when not held or held at the end; the order in which locks are nested has no cycle.",
		Assumptions: []string{"locks of different objects of the same type are not told apart in the order graph", "user callbacks that call the library start with no lock held (decided by K03)"},
		NotCovered:  "locks inside the standard library other than the logger's.",
		Run: func(r *Report) {
			r.rule("Typestate of every lock on every path of every entry point, goroutine, timer and callback; the graph of locks taken while another is held, including the standard logger's own lock around the log writer, is acyclic; no task ends with a lock held.")
			edges := map[string]lockEdge{}
			var mu sync.Mutex
			add := func(from, to, where string, pos token.Pos, tr *trace) {
				mu.Lock()
				defer mu.Unlock()
				k := from + " -> " + to
				if old, ok := edges[k]; !ok || where < old.where {
					edges[k] = lockEdge{from, to, where, pos, tr}
				}
			}
			writer := r.p.logWriters()
			r.runAll(func(q *Report) *Rule {
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnEvent: func(e *Eng, st *State, ev *Event) {
						spawnCallbacks(e, st, ev)
						if ev.In == nil || !e.p.inModule(ev.In) {
							return
						}
						c := instrName(ev.In, ev.Instr)
						inLog := writer[e.root.Fn]
						switch ev.Kind {
						case EvLock:
							held := false
							for _, l := range st.locks {
								if l.addr == ev.Addr {
									held = true
								} else {
									add(lockClass(l.addr), lockClass(ev.Addr), c, ev.Pos, st.tr)
								}
							}
							q.ob(len(st.locks) < maxHeld, "held", "locks taken by "+threadName(e), ev.Pos, st, "%d locks are held, one is not released: %s", len(st.locks), heldNames(st))
							q.ob(!held, "reacquire", c, ev.Pos, st, "%s is taken by a goroutine that already holds it", lockClass(ev.Addr))
							if inLog {
								add(logLock, lockClass(ev.Addr), c, ev.Pos, st.tr)
							}
						case EvUnlock:
							q.ob(ev.Hit == 1, "release", c, ev.Pos, st, "%s is released but not held (in this mode)", lockClass(ev.Addr))
						case EvCall:
							if isLogCall(ev.Name) {
								for _, l := range st.locks {
									add(lockClass(l.addr), logLock, c, ev.Pos, st.tr)
								}
								q.ob(!inLog, "reacquire", c, ev.Pos, st, "the log writer logs: the logger's lock is taken twice")
							}
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						c := "return of " + threadName(e)
						q.ob(len(st.locks) == 0, "held", c, t.Fn.Pos(), st, "ends with a lock held: %s", heldNames(st))
					},
				}
			})
			lockCycles(r, edges)
			r.atLeast("reacquire", 30)
			r.atLeast("release", 30)
			r.atLeast("held", 50)
		},
	})
}

func heldNames(st *State) string {
	var s []string
	for _, l := range st.locks {
		s = append(s, lockClass(l.addr))
	}
	return strings.Join(s, ", ")
}

// logWriters are the module's Write methods that loggers write to
func (p *Program) logWriters() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range p.apiRoots() {
		if f.Name() == "Write" && f.Signature.Recv() != nil && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/teolog") {
			m[f] = true
		}
	}
	return m
}

func lockCycles(r *Report, edges map[string]lockEdge) {
	adj := map[string][]lockEdge{}
	var ks []string
	for k := range edges {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		adj[edges[k].from] = append(adj[edges[k].from], edges[k])
	}
	reach := func(from, to string) []lockEdge {
		seen := map[string]bool{}
		var path []lockEdge
		var walk func(x string) bool
		walk = func(x string) bool {
			if x == to {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, e := range adj[x] {
				path = append(path, e)
				if walk(e.to) {
					return true
				}
				path = path[:len(path)-1]
			}
			return false
		}
		if walk(from) {
			return path
		}
		return nil
	}
	for _, k := range ks {
		e := edges[k]
		path := reach(e.to, e.from)
		cyc := path != nil || e.from == e.to
		msg := ""
		for _, x := range path {
			msg += fmt.Sprintf("; %s before %s in %s (%s)", x.from, x.to, x.where, posStr(r.p.fset, x.pos))
		}
		r.ob(!cyc, "order", k, e.pos, nil, "%s is held in %s when %s is taken, elsewhere it is the other way round%s", e.from, e.where, e.to, msg)
	}
}

// ---------------------------------------------------------------- K03

func init() {
	register(&Check{
		ID: "K03", Level: "other", Prep: true,
		Technique:   "interprocedural lock typestate over go/ssa with a wait-for graph between held locks and channel counterparts",
		Note:        "No lock is held at any call of a function value the application supplied; a channel operation that may block with a lock held is accepted only if the goroutines that serve the other end of the channel take none of the held locks, directly or through other locks.",
		Assumptions: []string{"function values that do not resolve to module code are application callbacks", "locks of different objects of the same type are not told apart"},
		NotCovered:  "how long a socket write blocks.",
		Run: func(r *Report) {
			r.rule("At every call of a function value that is not module code, and at every go-less call of a module closure stored by the application, the set of held locks is empty. Every blocking send, receive, select or wait with locks held adds an edge from the held locks to the channel, every goroutine that works the other end adds edges from the channel to the locks it takes; the graph, joined with the lock order, has no cycle.")
			edges := map[string]lockEdge{}
			served := map[string]map[string]bool{} // channel, direction -> threads
			takes := map[string]map[string]lockEdge{}
			var mu sync.Mutex
			r.runAll(func(q *Report) *Rule {
				chanKey := func(st *State, v *V) string {
					if f := loadedFrom(v); f != nil {
						return "channel " + fieldKey(f)
					}
					if v != nil && v.kind == KObj {
						for _, k := range sortedV(st.heap) {
							if f := fieldVar(k); f != nil && st.heap[k] == v {
								return "channel " + fieldKey(f)
							}
						}
						return "channel " + v.typ.String()
					}
					return ""
				}
				serve := func(e *Eng, ch string, dir string) {
					mu.Lock()
					defer mu.Unlock()
					k := ch + dir
					if served[k] == nil {
						served[k] = map[string]bool{}
					}
					served[k][threadName(e)] = true
				}
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnEvent: func(e *Eng, st *State, ev *Event) {
						spawnCallbacks(e, st, ev)
						if ev.In == nil || !e.p.inModule(ev.In) {
							return
						}
						c := instrName(ev.In, ev.Instr)
						add := func(from, to string) {
							mu.Lock()
							defer mu.Unlock()
							k := from + " -> " + to
							if old, ok := edges[k]; !ok || c < old.where {
								edges[k] = lockEdge{from, to, c, ev.Pos, st.tr}
							}
						}
						switch ev.Kind {
						case EvLock:
							for _, l := range st.locks {
								if l.addr != ev.Addr {
									add(lockClass(l.addr), lockClass(ev.Addr))
								}
							}
							mu.Lock()
							t := threadName(e)
							if takes[t] == nil {
								takes[t] = map[string]lockEdge{}
							}
							if old, ok := takes[t][lockClass(ev.Addr)]; !ok || c < old.where {
								takes[t][lockClass(ev.Addr)] = lockEdge{to: lockClass(ev.Addr), where: c, pos: ev.Pos}
							}
							mu.Unlock()
						case EvSend, EvRecv:
							ch := chanKey(st, ev.Addr)
							if ch == "" {
								if ev.Block && !ev.Default && len(ev.Alts) == 0 && len(st.locks) > 0 {
									q.ob(localChan(e, ev.Addr), "wait", c, ev.Pos, st, "waits on an unknown channel with %s held", heldNames(st))
								}
								return
							}
							dir := " sent"
							if ev.Kind == EvRecv {
								dir = " received"
							}
							serve(e, ch, dir)
							q.ob(true, "wait", c, ev.Pos, st, "")
							if ev.Default {
								return
							}
							for _, l := range st.locks {
								add(lockClass(l.addr), ch+dir)
								if ev.Kind == EvRecv && len(ev.Alts) == 0 {
									add(lockClass(l.addr), ch+" closed")
								}
							}
						case EvClose:
							serve(e, chanKey(st, ev.Addr), " closed")
						case EvDyn:
							q.ob(len(st.locks) == 0, "callback", c, ev.Pos, st, "the application's function %s is called with %s held", desc(ev.Fn), heldNames(st))
						case EvCall:
							switch ev.Name {
							case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
								q.ob(len(st.locks) == 0, "wait", c, ev.Pos, st, "%s with %s held", ev.Name, heldNames(st))
							}
						case EvEnter:
							// a module callback called on behalf of the application
						}
					},
				}
			})
			// channel -> locks taken by whoever works the other end
			for k, ths := range served {
				ch, other := k, ""
				switch {
				case strings.HasSuffix(k, " closed"):
					ch, other = strings.TrimSuffix(k, " closed"), " closed"
				case strings.HasSuffix(k, " sent"):
					ch, other = strings.TrimSuffix(k, " sent"), " received"
				case strings.HasSuffix(k, " received"):
					ch, other = strings.TrimSuffix(k, " received"), " sent"
				}
				for t := range ths {
					if strings.HasPrefix(t, "root ") {
						continue // the application's own goroutines: see the statement
					}
					for lk, le := range takes[t] {
						edges[ch+other+" -> "+lk] = lockEdge{from: ch + other, to: lk, where: t + " " + le.where, pos: le.pos}
					}
				}
			}
			lockCycles(r, edges)
			r.atLeast("callback", 4)
			r.atLeast("wait", 5)
		},
	})
}

// localChan: the channel was made by this function or a timer package
func localChan(e *Eng, v *V) bool {
	return v != nil && (v.kind == KObj || v.kind == KOp && strings.HasPrefix(v.op, "call:"))
}

// ---------------------------------------------------------------- K04

func init() {
	register(&Check{
		ID: "K04", Level: "other", Prep: true,
		Technique:   "interprocedural lock typestate over go/ssa around the advances of the sequence number",
		Note:        "Every advance of a connection's send number happens under an exclusive lock of that connection which is held without interruption from the first piece of a message to the last.",
		Assumptions: []string{"the number advances by one per piece (C05) and pieces carry it (C03)"},
		NotCovered:  "fairness between writers.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("On every path of every entry point, each store to the connection's send number happens while an exclusive lock belonging to the same connection is held; on paths that store it more than once for one message that lock is not released in between; one lock serves at every place.")
			var mu sync.Mutex
			sites := map[string]map[string]bool{} // site -> locks held
			posOf := map[string]token.Pos{}
			multi := 0
			r.runAll(func(q *Report) *Rule {
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnEvent: func(e *Eng, st *State, ev *Event) {
						switch ev.Kind {
						case EvEnter:
							if ev.Callee == ro.writeTo {
								for k := range st.mon {
									if strings.HasPrefix(k, "cand:") || k == "adv" {
										delete(st.mon, k)
									}
								}
							}
						case EvUnlock:
							delete(st.mon, "cand:"+lockClass(ev.Addr))
						case EvStore:
							if addrField(ev.Addr) != ro.chID {
								return
							}
							ch := rootBase(ev.Addr)
							if ch.kind == KObj && !st.esc[ch] {
								return // not visible to others yet
							}
							c := instrName(ev.In, ev.Instr)
							if st.mon["step"] == nil || !e.same(st, st.mon["step"], ev.Val) {
								// one advance may store several times (wrap)
							}
							own := map[string]bool{}
							for _, l := range st.locks {
								if l.mode == 'W' && rootBase(l.addr) == ch {
									own[lockClass(l.addr)] = true
								}
							}
							mu.Lock()
							if sites[c] == nil {
								sites[c] = own
							} else {
								for k := range sites[c] {
									if !own[k] {
										delete(sites[c], k)
									}
								}
							}
							posOf[c] = ev.Pos
							mu.Unlock()
							if monI(st, "adv") == 0 {
								e.monSet(st, "adv", 1)
								for k := range own {
									e.monSet(st, "cand:"+k, 1)
								}
								return
							}
							n := 0
							for k := range st.mon {
								if strings.HasPrefix(k, "cand:") {
									n++
								}
							}
							mu.Lock()
							multi++
							mu.Unlock()
							q.ob(n > 0, "together", c, ev.Pos, st, "between two pieces of one message no exclusive lock of the connection is held throughout: pieces of another message get numbers in between")
						}
					},
				}
			})
			var common map[string]bool
			var ss []string
			for s := range sites {
				ss = append(ss, s)
			}
			sort.Strings(ss)
			for _, s := range ss {
				r.ob(len(sites[s]) > 0, "exclusive", s, posOf[s], nil, "the send number advances without an exclusive lock of the connection on some path")
				if common == nil {
					common = map[string]bool{}
					for k := range sites[s] {
						common[k] = true
					}
				}
				for k := range common {
					if !sites[s][k] {
						delete(common, k)
					}
				}
			}
			r.ob(len(common) > 0, "onelock", "all advances of the send number", 0, nil, "no lock of the connection is held at every advance of the send number")
			if multi == 0 {
				r.fail("no path sends two pieces of one message")
			}
			r.atLeast("exclusive", 1)
			r.atLeast("together", 1)
		},
	})
}
