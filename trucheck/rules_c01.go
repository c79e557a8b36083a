package main

// C01: in sequence order, each exactly once.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// heldKey: the value was found in the queue of held packets under this key
func heldKey(v *V, ro *roles) *V {
	if v != nil && v.kind == KSym && len(v.args) == 2 && loadedFrom(v.args[0]) == ro.recvMap {
		return v.args[1]
	}
	return nil
}

func init() {
	register(&Check{
		ID: "C01", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow (go/ssa) of the datagram handler, writer census of the sequence state, typestate of the reader goroutine",
		Note:        "On every path of the datagram handler: only the packet that carries the expected number is consumed, every consumption advances the expected number once, packets ahead are held, held packets are consumed and removed while the gap is closed, everything else is discarded; one goroutine hands over in queue order.",
		Assumptions: []string{"number comparison, number advance and reassembly are primitive steps (decided by C05 and C06)", "Go channels are first-in first-out"},
		NotCovered:  "readers that ignore what they are handed.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Per path of the datagram handler: the reassembly step gets a packet only if its number is the connection's expected number (the received packet with distance 0, or the held packet found under the expected number); each such step comes with exactly one advance of the expected number; a packet ahead is stored under its own number exactly if none is stored there; a packet behind changes nothing; after an advance the queue of held packets is looked up under the new expected number until it holds none; a consumed held packet is removed under its own key; a completed message is put on the reader queue before the next step. The expected number and the held packets are written by the datagram handler only. One goroutine takes messages from the reader queue and calls the connection's reader with each.")
			serveConnected(r, ro)
			recvWriters(r, ro)
			readerLoop(r, ro)
			m := &recvMon{r: r, ro: ro, statuses: []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x84}, other: true}
			cc := func(ev *Event) string { return instrName(ev.In, ev.Instr) }
			m.onDist = func(e *Eng, st *State, c string, ci *CallInfo) {
				if !m.isData(st) {
					return
				}
				ch := st.mon["ch"]
				r.ob(ch != nil && e.same(st, ci.Args[1], e.get(st, ch, ro.chExp)), "compare", c, ci.Pos, st, "the number is compared with %s, not with the expected number", desc(ci.Args[1]))
				r.ob(e.same(st, ci.Args[2], st.mon["wireID"]), "compare", c, ci.Pos, st, "%s is compared, not the number of the packet", desc(ci.Args[2]))
			}
			eligible := func(e *Eng, st *State, pac, exp *V) bool {
				if pac == nil || exp == nil {
					return false
				}
				if pac == st.mon["pac"] {
					if monI(st, "dist") == 2 && e.same(st, st.mon["distexp"], exp) {
						return true
					}
					return e.same(st, st.mon["wireID"], exp)
				}
				k := heldKey(pac, ro)
				return k != nil && e.same(st, k, exp)
			}
			closeUnit := func(e *Eng, st *State, pac *V, exp *V) {
				e.monSet(st, "adv", 0)
				e.monSet(st, "comb", 0)
				e.monSet(st, "used", 1)
				e.monSet(st, "checked", 0)
				delete(st.mon, "prev")
				delete(st.mon, "cpac")
				if pac == st.mon["pac"] {
					e.monSet(st, "consumed", 1)
				}
				if heldKey(pac, ro) != nil {
					delete(st.mon, "owe")
					if monI(st, "predel") == 1 {
						e.monSet(st, "predel", 0)
					} else {
						st.mon["del"] = heldKey(pac, ro)
					}
				}
			}
			m.onAdvance = func(e *Eng, st *State, c string, ci *CallInfo) {
				r.ob(m.isData(st) && monI(st, "dec") == 1, "advance", c, ci.Pos, st, "the expected number is advanced by a datagram that is not decrypted data")
				r.ob(e.same(st, ci.Args[0], st.mon["ch"]), "advance", c, ci.Pos, st, "the expected number of another connection is advanced")
				r.ob(monI(st, "adv") == 0, "advance", c, ci.Pos, st, "the expected number is advanced twice for one packet")
				prev := st.mon["prev"]
				if monI(st, "comb") == 1 {
					closeUnit(e, st, st.mon["cpac"], prev)
					return
				}
				e.monSet(st, "adv", 1)
			}
			m.onCombine = func(e *Eng, st *State, pac *V, c string, ci *CallInfo) {
				ch := st.mon["ch"]
				exp := st.mon["prev"]
				if monI(st, "adv") == 0 {
					exp = nil
					if ch != nil {
						exp = e.get(st, ch, ro.chExp)
					}
				}
				r.ob(m.isData(st) && monI(st, "dec") == 1, "consume", c, ci.Pos, st, "a datagram that is not decrypted data is consumed")
				r.ob(eligible(e, st, pac, exp), "order", c, ci.Pos, st, "the packet that is consumed does not carry the expected number")
				if pac == st.mon["pac"] {
					r.ob(monI(st, "consumed") == 0, "once", c, ci.Pos, st, "the received packet is consumed twice")
				}
				r.ob(st.mon["del"] == nil, "remove", c, ci.Pos, st, "the held packet consumed before stays in the queue")
				r.ob(st.mon["out"] == nil || isDead(st), "handover", c, ci.Pos, st, "a completed message was not put on the reader queue before the next packet")
				r.ob(ch != nil && chanOfField(ci.Args[0]) == ch, "consume", c, ci.Pos, st, "the packet is given to the reassembly of another connection")
				if monI(st, "adv") == 1 {
					closeUnit(e, st, pac, exp)
					return
				}
				r.ob(monI(st, "comb") == 0, "advance", c, ci.Pos, st, "two packets are consumed without an advance of the expected number between them")
				e.monSet(st, "comb", 1)
				st.mon["cpac"] = pac
			}
			m.onEvent = func(e *Eng, st *State, ev *Event) {
				switch ev.Kind {
				case EvLookup:
					if loadedFrom(ev.Addr) != ro.recvMap {
						return
					}
					ch := st.mon["ch"]
					if ch == nil {
						return
					}
					r.ob(chanOfField(ev.Addr) == ch, "queue", cc(ev), ev.Pos, st, "the queue of another connection is used")
					if e.same(st, ev.Key, e.get(st, ch, ro.chExp)) {
						if ev.Hit == 0 {
							e.monSet(st, "checked", 1)
						} else if monI(st, "used") == 1 {
							st.mon["owe"] = ev.Key
						}
					}
				case EvMapUpdate:
					if loadedFrom(ev.Addr) != ro.recvMap {
						return
					}
					ch := st.mon["ch"]
					r.ob(m.isData(st) && monI(st, "dec") == 1 && ev.Val == st.mon["pac"], "hold", cc(ev), ev.Pos, st, "something else than the received and decrypted packet is held")
					r.ob(e.same(st, ev.Key, st.mon["wireID"]), "holdkey", cc(ev), ev.Pos, st, "the packet is held under %s, not under its own number", desc(ev.Key))
					r.ob(monI(st, "dist") == 3, "ahead", cc(ev), ev.Pos, st, "a packet that is not ahead of the expected number is held")
					r.ob(ev.Hit == 0, "again", cc(ev), ev.Pos, st, "a packet that is already held is stored again")
					r.ob(ch != nil && chanOfField(ev.Addr) == ch, "queue", cc(ev), ev.Pos, st, "the queue of another connection is used")
					e.monSet(st, "held", 1)
				case EvMapDelete:
					if loadedFrom(ev.Addr) != ro.recvMap {
						return
					}
					ch := st.mon["ch"]
					if ch == nil {
						r.ob(false, "remove", cc(ev), ev.Pos, st, "a held packet is removed without being consumed")
						return
					}
					if d := st.mon["del"]; d != nil && e.same(st, d, ev.Key) {
						delete(st.mon, "del")
						return
					}
					if e.same(st, ev.Key, e.get(st, ch, ro.chExp)) {
						if ev.Hit != 0 {
							e.monSet(st, "predel", 1)
							st.mon["owe"] = ev.Key
						}
						return
					}
					r.ob(ev.Hit == 0, "remove", cc(ev), ev.Pos, st, "a held packet (%s) is removed that was not consumed", desc(ev.Key))
				case EvStore:
					if addrField(ev.Addr) == ro.pktID || addrField(ev.Addr) == ro.pktStatus {
						if b := rootBase(ev.Addr); b == st.mon["pac"] || heldKey(b, ro) != nil {
							r.ob(false, "mutate", cc(ev), ev.Pos, st, "number or status of a received packet is changed")
						}
					}
				}
			}
			m.onSend = func(e *Eng, st *State, ev *Event) {
				if loadedFrom(ev.Addr) != ro.readerCh {
					return
				}
				ch, pac, err := sentItem(e, st, ev.Val, ro)
				r.ob(pac != nil && pac == st.mon["out"], "handover", cc(ev), ev.Pos, st, "%s is put on the reader queue, which is not a message just completed", desc(pac))
				r.ob(e.same(st, ch, st.mon["ch"]), "handover", cc(ev), ev.Pos, st, "the message is handed to another connection's reader")
				r.ob(err == nil || e.isNil(st, err) == 1, "handover", cc(ev), ev.Pos, st, "the message is handed over with an error")
				r.ob(!ev.Default, "handover", cc(ev), ev.Pos, st, "the message is dropped when the reader queue is full")
				delete(st.mon, "out")
			}
			m.onReturn = func(e *Eng, st *State) {
				c := "return of " + fnName(ro.serve)
				pos := ro.serve.Pos()
				if !m.isData(st) || monI(st, "dec") != 1 || isDead(st) {
					return
				}
				r.ob(monI(st, "adv") == 0 && monI(st, "comb") == 0, "pair", c, pos, st, "a packet is consumed without an advance of the expected number, or the number is advanced without consuming a packet")
				r.ob(st.mon["out"] == nil, "handover", c, pos, st, "a completed message is not handed over")
				r.ob(st.mon["del"] == nil && monI(st, "predel") == 0, "remove", c, pos, st, "a consumed held packet stays in the queue, or a removed one is not consumed")
				d := monI(st, "dist")
				if d == 0 {
					// not compared by the distance function
					if e.same(st, st.mon["wireID"], st.mon["distexp"]) {
						d = 2
					}
				}
				switch d {
				case 2:
					r.ob(monI(st, "consumed") == 1, "progress", c, pos, st, "the packet with the expected number is not consumed")
				case 3:
					ok := monI(st, "held") == 1
					if !ok {
						for k, v := range st.heap {
							if k.kind == KOp && k.op == "mapent" && loadedFrom(k.args[0]) == ro.recvMap && !isAbsent(v) && e.same(st, k.args[1], st.mon["wireID"]) {
								ok = true
							}
						}
					}
					r.ob(ok, "kept", c, pos, st, "a packet ahead of the expected number is acknowledged but not held")
					r.ob(monI(st, "used") == 0, "order", c, pos, st, "a packet is consumed although the received one is ahead")
				case 1:
					r.ob(monI(st, "used") == 0 && monI(st, "held") == 0, "discard", c, pos, st, "a packet behind the expected number is not discarded")
				default:
					r.ob(monI(st, "acks") == 0 && monI(st, "consumed") == 1, "progress", c, pos, st, "a data packet was not compared with the expected number")
				}
				if monI(st, "used") == 1 {
					r.ob(monI(st, "checked") == 1 && st.mon["owe"] == nil, "release", c, pos, st, "the queue is not searched for the packet that is expected now, or that packet is not released")
				}
			}
			r.run(m.rule(), listenerRoot(ro.serve))
			r.atLeast("compare", 1)
			r.atLeast("order", 1)
			r.atLeast("hold", 1)
			r.atLeast("kept", 1)
			r.atLeast("progress", 1)
			r.atLeast("release", 1)
			r.atLeast("discard", 1)
			r.atLeast("handover", 1)
		},
	})
}

// chanOfField is the connection a field address or a value loaded from a field
// belongs to
func chanOfField(v *V) *V {
	if v == nil {
		return nil
	}
	if f := loadedFrom(v); f != nil {
		return rootBase(v.args[0])
	}
	return rootBase(v)
}

// recvWriters: sequence state is written by the datagram handler only
func recvWriters(r *Report, ro *roles) {
	onlyFrom := r.p.reachableOnlyFrom(ro.serve)
	for _, f := range r.p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var fv *types.Var
				var val ssa.Value
				switch x := i.(type) {
				case *ssa.Store:
					fv, val = ssaField(x.Addr), x.Val
				case *ssa.MapUpdate:
					fv = ssaLoadField(x.Map)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						fv = ssaLoadField(x.Call.Args[0])
					}
				}
				if fv == nil || fv != ro.chExp && fv != ro.recvMap {
					continue
				}
				if _, isStore := i.(*ssa.Store); isStore {
					// initialisation of a connection that nobody has yet
					if _, fresh := val.(*ssa.MakeMap); fresh && fv == ro.recvMap && r.p.initOnly(f, ro) {
						continue
					}
					if fv == ro.chExp && f != ro.newExp {
						if ssaFresh(i.(*ssa.Store).Addr) {
							continue
						}
						r.ob(false, "writer", instrName(f, i), i.Pos(), nil, "%s writes %s", f, fv.Name())
						continue
					}
				}
				r.ob(onlyFrom[f], "writer", instrName(f, i), i.Pos(), nil, "%s writes %s and is called from somewhere else than the datagram handler", f, fv.Name())
			}
		}
	}
	r.atLeast("writer", 3)
}

// ssaField is the innermost struct field an address expression designates
func ssaField(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		s := derefStruct(x.X.Type())
		if s != nil {
			return s.Field(x.Field)
		}
	case *ssa.IndexAddr:
		return ssaField(x.X)
	}
	return nil
}

// ssaLoadField is the field a value was loaded from
func ssaLoadField(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.UnOp:
		return ssaField(x.X)
	case *ssa.Field:
		if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return s.Field(x.Field)
		}
	case *ssa.ChangeType:
		return ssaLoadField(x.X)
	}
	return nil
}

// ssaFresh: the address lies in an object the same function allocated
func ssaFresh(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		case *ssa.UnOp:
			a, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			// all values of the variable are fresh
			n := 0
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
					if _, ok := s.Val.(*ssa.Alloc); !ok {
						return false
					}
					n++
				}
			}
			return n > 0
		default:
			return false
		}
	}
}

// callersOf gives the static call sites and other uses of every function
func (p *Program) callersOf() map[*ssa.Function][]ssa.Instruction {
	if p.callers != nil {
		return p.callers
	}
	m := map[*ssa.Function][]ssa.Instruction{}
	var ops []*ssa.Value
	for _, f := range p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ops = i.Operands(ops[:0])
				for _, o := range ops {
					if o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						m[g] = append(m[g], i)
					}
				}
			}
		}
	}
	p.callers = m
	return m
}

// reachableOnlyFrom gives the functions that run only as part of root (on the
// same goroutine): every use is a plain call in such a function, or a closure
// made by one
func (p *Program) reachableOnlyFrom(root *ssa.Function) map[*ssa.Function]bool {
	cs := p.callersOf()
	in := map[*ssa.Function]bool{}
	// candidates: everything reachable
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if in[f] || f == nil || f.Blocks == nil || !p.inModule(f) {
			return
		}
		in[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range i.Operands(ops) {
					if o != nil && *o != nil {
						if g, ok := (*o).(*ssa.Function); ok {
							walk(g)
						}
					}
				}
			}
		}
	}
	walk(root)
	for changed := true; changed; {
		changed = false
		for f := range in {
			if f == root {
				continue
			}
			ok := len(cs[f]) > 0 && (f.Object() == nil || !f.Object().Exported())
			for _, u := range cs[f] {
				if !in[u.Parent()] {
					ok = false
				}
				if _, isGo := u.(*ssa.Go); isGo {
					ok = false
				}
				if c, isCall := u.(ssa.CallInstruction); isCall && c.Common().StaticCallee() != f {
					// passed as an argument: fine when the callee is in the module
					if g := c.Common().StaticCallee(); g == nil || !p.inModule(g) {
						ok = false
					}
				}
			}
			if !ok {
				delete(in, f)
				changed = true
			}
		}
	}
	return in
}

// initOnly: the function is used only while a connection is being made
func (p *Program) initOnly(f *ssa.Function, ro *roles) bool {
	for _, u := range p.callersOf()[f] {
		g := u.Parent()
		makes := false
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.Alloc); ok && types.Identical(a.Type(), types.NewPointer(ro.channel)) {
					makes = true
				}
			}
		}
		if !makes && !p.initOnly(g, ro) {
			return false
		}
	}
	return len(p.callersOf()[f]) > 0
}

// readerLoop: one goroutine takes messages in order and gives each to the
// connection's reader, and to the global reader when that one did not process it
func readerLoop(r *Report, ro *roles) {
	var loops []*ssa.Function
	gos := 0
	for _, f := range r.p.functions() {
		recvs := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if x.Op.String() == "<-" && ssaLoadField(x.X) == ro.readerCh {
						recvs = true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && ssaLoadField(s.Chan) == ro.readerCh {
							recvs = true
						}
					}
				}
			}
		}
		if recvs {
			loops = append(loops, f)
		}
	}
	r.ob(len(loops) == 1, "onereader", "receivers of the reader queue", 0, nil, "%d functions take messages from the reader queue", len(loops))
	if len(loops) == 0 {
		r.fail("nobody takes messages from the reader queue")
		return
	}
	// started exactly once per endpoint
	root := loops[0]
	for !r.p.isGoTarget(root) {
		us := r.p.callersOf()[root]
		if len(us) != 1 {
			break
		}
		root = us[0].Parent()
	}
	sites, others := r.p.goSites(root)
	for _, u := range sites {
		gos++
		r.ob(!inLoop(u), "onereader", instrName(u.Parent(), u), u.Pos(), nil, "reader goroutines are started in a loop: messages overtake each other")
	}
	for _, u := range others {
		{
			r.ob(false, "onereader", instrName(u.Parent(), u), u.Pos(), nil, "%s is used otherwise than started once as a goroutine", root)
		}
	}
	r.ob(gos == 1, "onereader", "starts of the reader goroutine", root.Pos(), nil, "the reader goroutine is started at %d places", gos)

	const none = 0
	rule := &Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnFork: func(e *Eng, st *State, cond *V, taken bool) {
			stopFork(ro)(e, st, cond, taken)
			if x, isNil, ok := nilFork(cond, taken); ok && isNil && loadedFrom(x) == ro.chReader {
				e.monSet(st, "nilown", 1)
			}
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			c := instrName(ev.In, ev.Instr)
			switch ev.Kind {
			case EvRecv:
				if loadedFrom(ev.Addr) == ro.listenStop {
					e.monSet(st, monDead, 1)
				}
				if loadedFrom(ev.Addr) == ro.readerCh {
					readerDone(r, ro, e, st, c, ev)
					if ch := itemField(e, st, ev.Val, ro.channel); ch != nil {
						st.mon["ich"], st.mon["ipac"] = ch, itemField(e, st, ev.Val, ro.packet)
					}
				}
			case EvGo, EvTimer:
				r.ob(false, "inline", c, ev.Pos, st, "messages are handed over by another goroutine: they may overtake each other")
			case EvDyn:
				ch, pac := st.mon["ich"], st.mon["ipac"]
				f := loadedFrom(ev.Fn)
				if ch == nil || f != ro.chReader && f != ro.truReader {
					return
				}
				ok := len(ev.Args) == 3 && e.same(st, ev.Args[0], ch) && e.same(st, ev.Args[1], pac)
				r.ob(ok, "args", c, ev.Pos, st, "the reader is not called with the connection and the message taken from the queue")
				if ok {
					r.ob(e.isNil(st, ev.Args[2]) == 1, "args", c, ev.Pos, st, "the reader is called with an error for a message")
				}
				k := "own"
				if f == ro.truReader {
					k = "global"
				} else {
					r.ob(baseOf(ev.Fn.args[0]) == ch || rootBase(ev.Fn.args[0]) == ch, "args", c, ev.Pos, st, "another connection's reader is called")
				}
				r.ob(monI(st, k) == none, "twice", c, ev.Pos, st, "a reader is called twice with one message")
				e.monSet(st, k, 1)
			}
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			r.ob(isDead(st), "loop", "return of "+fnName(t.Fn), t.Fn.Pos(), st, "the reader goroutine ends although the endpoint is not closed")
		},
	}
	r.run(rule, apiRoot(root))
	r.atLeast("args", 1)
	r.atLeast("handed", 1)
}

// readerDone: the item taken before was handed to every reader that should see it
func readerDone(r *Report, ro *roles, e *Eng, st *State, c string, ev *Event) {
	if st.mon["ich"] == nil {
		return
	}
	if !isDead(st) {
		own := monI(st, "own") == 1 || monI(st, "nilown") == 1
		r.ob(own, "handed", c, ev.Pos, st, "a message is dropped without calling the connection's reader")
	}
	for _, k := range []string{"ich", "ipac", "own", "global", "nilown", monDead} {
		delete(st.mon, k)
	}
}

// itemField reads the first field of pointer type *n from a queue item
func itemField(e *Eng, st *State, it *V, n *types.Named) *V {
	if it == nil || it.typ == nil {
		return nil
	}
	s, ok := it.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), types.NewPointer(n)) {
			return e.fieldOf(st, it, i, s)
		}
	}
	return nil
}

// nilFork recognises a branch on a comparison with nil
func nilFork(cond *V, taken bool) (x *V, isNil, ok bool) {
	for cond.kind == KOp && cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	if cond.kind == KOp && cond.op == "eq" {
		if cond.args[0].kind == KNil {
			return cond.args[1], taken, true
		}
		if cond.args[1].kind == KNil {
			return cond.args[0], taken, true
		}
	}
	return nil, false, false
}

func (p *Program) isGoTarget(f *ssa.Function) bool {
	gos, _ := p.goSites(f)
	return len(gos) > 0
}

// inLoop: the block of the instruction can reach itself
func inLoop(i ssa.Instruction) bool {
	b := i.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}
