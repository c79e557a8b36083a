package main

// Packets on their way out: C03 (recorded, retransmitted, removed by their own
// acknowledgement only).

import (
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// timerBodies are the functions given to time.AfterFunc, with the functions that
// arm them
func (p *Program) timerBodies(test func(f *ssa.Function) bool) (bodies map[*ssa.Function]bool, armedIn []*ssa.Function) {
	bodies = map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || fullName(c.Common().StaticCallee()) != "time.AfterFunc" {
					continue
				}
				var g *ssa.Function
				switch x := c.Common().Args[1].(type) {
				case *ssa.MakeClosure:
					g, _ = x.Fn.(*ssa.Function)
				case *ssa.Function:
					g = x
				}
				if g == nil || !test(g) {
					continue
				}
				bodies[g] = true
				if !seen[f] {
					seen[f] = true
					armedIn = append(armedIn, f)
				}
			}
		}
	}
	return
}

// listUser: the function itself uses the list held in the field
func listUser(f *ssa.Function, fld *types.Var, names ...string) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil || len(c.Common().Args) == 0 || ssaField(c.Common().Args[0]) != fld {
				continue
			}
			n := fullName(c.Common().StaticCallee())
			for _, w := range names {
				if n == "(*container/list.List)."+w {
					return true
				}
			}
		}
	}
	return false
}

func (r *Report) retransmitBodies(ro *roles) (map[*ssa.Function]bool, []*ssa.Function) {
	p := r.p
	snd := p.reaches(sendsOn(func(ch ssa.Value) bool { return ssaLoadField(ch) == ro.senderCh }))
	front := p.reaches(func(f *ssa.Function) bool { return listUser(f, ro.sendList, "Front", "Back") })
	return p.timerBodies(func(f *ssa.Function) bool { return snd(f) && front(f) })
}

// dueOf: what a condition says about the retransmit time: 1 it has passed, 2 it
// has not, 0 nothing
func dueOf(cond *V, taken bool, rt *types.Var) int64 {
	for cond.kind == KOp && cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	var isRT func(v *V, d int) bool
	isRT = func(v *V, d int) bool {
		if v == nil || d > 6 {
			return false
		}
		for x := v; x != nil && x.kind == KSym && len(x.args) > 0; x = x.args[0] {
			if a := x.args[0]; a.kind == KField {
				for ; a.kind == KField; a = a.args[0] {
					if fieldVar(a) == rt {
						return true
					}
				}
				return false
			}
		}
		if v.kind == KStruct {
			for _, a := range v.args {
				if isRT(a, d+1) {
					return true
				}
			}
		}
		return false
	}
	if cond.kind != KOp || len(cond.args) != 2 {
		return 0
	}
	a, b := cond.args[0], cond.args[1]
	res := int64(0)
	switch cond.op {
	case "call:(time.Time).Before", "call:Before":
		if isRT(a, 0) {
			res = 1
		} else if isRT(b, 0) {
			res = 2
		}
	case "call:(time.Time).After", "call:After":
		if isRT(b, 0) {
			res = 1
		} else if isRT(a, 0) {
			res = 2
		}
	case "lt", "le":
		// 0 < now.Sub(rt), 0 < time.Since(rt), time.Until(rt) < 0
		side := func(v *V) int64 {
			if v.kind != KOp || !strings.HasPrefix(v.op, "call:") {
				return 0
			}
			n := v.op[strings.LastIndexByte(v.op, '.')+1:]
			switch {
			case n == "Sub" && len(v.args) == 2 && isRT(v.args[1], 0), n == "Since" && len(v.args) > 0 && isRT(v.args[0], 0):
				return 1 // grows as time passes
			case n == "Sub" && len(v.args) == 2 && isRT(v.args[0], 0), n == "Until" && len(v.args) > 0 && isRT(v.args[0], 0):
				return 2
			}
			return 0
		}
		if s := side(b); s != 0 {
			res = s
		} else if s := side(a); s != 0 {
			res = 3 - s
		}
	}
	if res != 0 && !taken {
		res = 3 - res
	}
	return res
}

func init() {
	register(&Check{
		ID: "C03", Level: "other", Prep: true,
		Technique:   "typestate monitors over path-sensitive interprocedural dataflow (go/ssa): life of a data packet from record to removal, retransmission timer, sender goroutine",
		Note:        "A data packet is put on the record before it can be sent; only the handler of an acknowledgement with its number takes it off; the retransmission timer sends every due packet again, unchanged, moves its time and attempts, gives up only by destroying the connection, and re-arms itself until then; the sender goroutine writes what was queued.",
		Assumptions: []string{"container/list and time.AfterFunc work as documented", "encryption and encoding are primitive steps (S01, C04)"},
		NotCovered:  "how long it takes until a timer fires; the length of the retransmission interval.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("On every path of every goroutine: a packet whose status may be data is queued for sending or encoded only after it was appended to the list of unacknowledged packets and entered in its index under the number it carries, or when it was taken from that list or from the sender queue; number, status and payload of such a packet are never stored to again. List and index lose an entry only in the datagram handler, for an acknowledgement, for the entry found under the acknowledgement's number on the connection of the sender's address, both together, and always when the entry is found. In the retransmission timer, per element: time passed implies attempts+1 stored, a later retransmit time stored and the same packet queued once, time not passed implies nothing queued; attempts are bounded where a packet is queued; past the bound the connection is destroyed; all elements are visited; the timer is armed again unless the connection or its queue is destroyed. Every registered connection has armed it. The sender goroutine writes every queued packet, encoded, to its connection's address unless that is destroyed or the endpoint closed.")
			c03Record(r, ro)
			c03Ack(r, ro)
			c03Timer(r, ro)
			c03Sender(r, ro)
		},
	})
}

func c03Record(r *Report, ro *roles) {
	r.runThreads(func(q *Report) *Rule {
		p := newPrims(ro)
		rec := func(e *Eng, pac *V) *V { return e.in.Op("ghost:rec", nil, pac) }
		el := func(e *Eng, elem *V) *V { return e.in.Op("ghost:elem", nil, elem) }
		known := func(e *Eng, st *State, pac *V) bool {
			return pac != nil && (queued(pac, ro) || pac == st.mon["item"] || st.heap[rec(e, pac)] != nil)
		}
		p.onWire = func(e *Eng, st *State, pac *V, ci *CallInfo) {
			if mayBeData(e, st, pinned(e, st, pac, ro.pktStatus), ro) {
				q.ob(known(e, st, pac), "recorded", instrName(ci.In, ci.Instr), ci.Pos, st, "a packet that may carry data is encoded for sending before it is on record as unacknowledged")
			}
		}
		return &Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
			OnCall:  p.call,
			OnEvent: func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				pin(e, st, ev, ro.pktData, ro.pktID, ro.pktStatus)
				switch ev.Kind {
				case EvRecv:
					if loadedFrom(ev.Addr) == ro.senderCh {
						if pac := itemField(e, st, ev.Val, ro.packet); pac != nil {
							st.mon["item"] = pac
						}
					}
				case EvSend:
					if loadedFrom(ev.Addr) != ro.senderCh {
						return
					}
					_, pac, _ := sentItem(e, st, ev.Val, ro)
					if pac == nil {
						q.ob(false, "recorded", c, ev.Pos, st, "what is queued for sending is not decided")
						return
					}
					if queued(pac, ro) || mayBeData(e, st, pinned(e, st, pac, ro.pktStatus), ro) {
						q.ob(known(e, st, pac), "recorded", c, ev.Pos, st, "a packet that may carry data is queued for sending before it is on record as unacknowledged")
					}
				case EvCall:
					if len(ev.Args) == 0 || addrField(ev.Args[0]) != ro.sendList || !strings.HasPrefix(ev.Name, "(*container/list.List).") {
						return
					}
					switch strings.TrimPrefix(ev.Name, "(*container/list.List).") {
					case "PushBack", "PushFront":
						if ev.Res != nil {
							st.heap[el(e, ev.Res)] = unbox(ev.Args[1])
						}
					case "Remove", "Init":
						q.ob(e.p.listenerTask(e.root), "kept", c, ev.Pos, st, "an unacknowledged packet is taken off the record outside of the datagram handler")
					}
				case EvMapUpdate:
					if loadedFrom(ev.Addr) != ro.sendIndex {
						return
					}
					pac := st.heap[el(e, ev.Val)]
					if !q.ob(pac != nil, "indexed", c, ev.Pos, st, "the index of unacknowledged packets gets an entry that was not just appended to their list") {
						return
					}
					id := pinned(e, st, pac, ro.pktID)
					k := stripConv(ev.Key)
					ok := loadedFrom(k) == ro.pktID && rootBase(k.args[0]) == pac || id != nil && (e.same(st, stripConv(id), stripConv(ev.Key)) || e.same(st, id, ev.Key))
					q.ob(ok, "indexed", c, ev.Pos, st, "a packet with number %s is indexed under %s", desc(id), desc(ev.Key))
					if ok {
						st.heap[rec(e, pac)] = e.in.Int(1, nil)
					}
				case EvMapDelete:
					if loadedFrom(ev.Addr) == ro.sendIndex {
						q.ob(e.p.listenerTask(e.root), "kept", c, ev.Pos, st, "an unacknowledged packet is taken off the index outside of the datagram handler")
					}
				case EvStore:
					f := addrField(ev.Addr)
					if f == ro.sendIndex && ev.Addr.kind == KField && e.shared(st, rootBase(ev.Addr)) {
						q.ob(false, "kept", c, ev.Pos, st, "the index of unacknowledged packets of a live connection is replaced")
					}
					if (f == ro.pktData || f == ro.pktID || f == ro.pktStatus) && known(e, st, rootBase(ev.Addr)) {
						q.ob(false, "unchanged", c, ev.Pos, st, "field %s of a packet that is on record is changed", f.Name())
					}
				}
			},
		}
	}, nil)
	r.atLeast("recorded", 2)
	r.atLeast("indexed", 1)
	r.atLeast("kept", 1)
}

// c03Ack: the datagram handler and the record
func c03Ack(r *Report, ro *roles) {
	ackS := ro.status("statusAck", 5)
	m := &recvMon{r: r, ro: ro, statuses: []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x84}, other: true}
	isAck := func(st *State) bool { n, ok := m.status(st); return ok && n == ackS }
	own := func(e *Eng, st *State, a *V) bool {
		if loadedFrom(a) != nil {
			a = a.args[0]
		}
		return st.mon["ch"] != nil && e.same(st, rootBase(a), st.mon["ch"])
	}
	m.onEvent = func(e *Eng, st *State, ev *Event) {
		c := instrName(ev.In, ev.Instr)
		num := func(k *V) bool {
			return e.same(st, k, st.mon["wireID"]) || e.same(st, stripConv(k), stripConv(st.mon["wireID"]))
		}
		switch ev.Kind {
		case EvLookup:
			if loadedFrom(ev.Addr) == ro.sendIndex && isAck(st) && num(ev.Key) {
				delete(st.mon, "entry")
				if ev.Hit == 1 {
					st.mon["entry"] = ev.Val
				}
				e.monSet(st, "looked", 1)
			}
		case EvMapDelete:
			if loadedFrom(ev.Addr) == ro.sendIndex {
				ok := r.ob(isAck(st), "byack", c, ev.Pos, st, "a datagram that is no acknowledgement takes a packet off the index")
				ok = ok && r.ob(num(ev.Key), "bynumber", c, ev.Pos, st, "the index entry of %s is removed, not of the acknowledged number", desc(ev.Key))
				ok = ok && r.ob(own(e, st, ev.Addr), "owner", c, ev.Pos, st, "an entry of another connection is removed")
				e.monSet(st, "del", 1)
			}
		case EvCall:
			if len(ev.Args) == 0 || addrField(ev.Args[0]) != ro.sendList {
				return
			}
			switch ev.Name {
			case "(*container/list.List).Remove":
				ok := r.ob(isAck(st), "byack", c, ev.Pos, st, "a datagram that is no acknowledgement takes a packet off the record")
				ok = ok && r.ob(ev.Args[1] == st.mon["entry"] && ev.Args[1] != nil, "bynumber", c, ev.Pos, st, "what is removed is not the entry found under the acknowledged number")
				ok = ok && r.ob(own(e, st, ev.Args[0]), "owner", c, ev.Pos, st, "an entry of another connection is removed")
				e.monSet(st, "rem", 1)
			case "(*container/list.List).Init":
				r.ob(false, "byack", c, ev.Pos, st, "a datagram clears the record of unacknowledged packets")
			}
		}
	}
	m.onReturn = func(e *Eng, st *State) {
		c := "return of " + fnName(ro.serve)
		r.ob(monI(st, "del") == monI(st, "rem"), "both", c, ro.serve.Pos(), st, "list and index of unacknowledged packets differ")
		if isAck(st) && st.mon["ch"] != nil {
			r.ob(monI(st, "looked") == 1, "taken", c, ro.serve.Pos(), st, "an acknowledgement is not looked up")
			r.ob(st.mon["entry"] == nil || monI(st, "rem") == 1, "taken", c, ro.serve.Pos(), st, "an acknowledged packet stays on record")
		}
	}
	r.run(m.rule(), listenerRoot(ro.serve))
	r.atLeast("byack", 2)
	r.atLeast("bynumber", 2)
	r.atLeast("taken", 1)
}

// c03Timer: retransmission
func c03Timer(r *Report, ro *roles) {
	bodies, armedIn := r.retransmitBodies(ro)
	if len(bodies) == 0 {
		r.fail("no timer function was found that goes through the unacknowledged packets and sends them")
		return
	}
	limit, haveLimit := r.p.constInt("maxRetransmitAttempts")
	current := func(e *Eng, st *State, pac *V) bool {
		x := st.mon["elem"]
		if x == nil || pac == nil || !queued(pac, ro) {
			return false
		}
		for v := pac; v != nil; {
			if v == x {
				return true
			}
			switch {
			case v.kind == KOp && v.op == "unbox", v.kind == KSym && len(v.args) > 0, v.kind == KField:
				v = v.args[0]
			default:
				return false
			}
		}
		return false
	}
	done := func(e *Eng, st *State, c string, ev *Event) {
		x := st.mon["elem"]
		if x == nil || e.isNil(st, x) == 1 || isDead(st) {
			return
		}
		ps := ev.Pos
		switch monI(st, "due") {
		case 1:
			r.ob(monI(st, "sent") == 1, "resent", c, ps, st, "a packet whose retransmit time has passed is not sent again")
			r.ob(st.mon["att"] != nil, "counted", c, ps, st, "a packet is sent again without counting the attempt")
			r.ob(monI(st, "moved") == 1, "moved", c, ps, st, "a packet is sent again without a new retransmit time")
		case 0:
			r.ob(false, "asked", c, ps, st, "a packet is passed over without looking at its retransmit time")
		}
	}
	mk := func() *Rule {
		in := func(e *Eng) bool { return e.root != nil && e.root.Kind == "timer" && bodies[e.root.Fn] }
		return &Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return t.Kind == "timer" && bodies[t.Fn] },
			OnFork: func(e *Eng, st *State, cond *V, taken bool) {
				stopFork(ro)(e, st, cond, taken)
				if !in(e) {
					return
				}
				x, tk := cond, taken
				for x.kind == KOp && x.op == "not" {
					x, tk = x.args[0], !tk
				}
				if f := loadedFrom(x); tk && f != nil && f == ro.sendDestroyed {
					e.monSet(st, monDead, 1)
				}
				if a := st.mon["att"]; a != nil && monI(st, "over") == 0 {
					if b := e.bounds(st, a); haveLimit && b.lo > limit || !haveLimit && b.lo > 1 {
						e.monSet(st, "over", 1)
					} else if haveLimit && b.hi <= limit || !haveLimit && b.hi < 4096 {
						e.monSet(st, "over", 2)
					}
				}
				if d := dueOf(cond, taken, ro.pktRT); d != 0 {
					e.monSet(st, "due", d)
				}
			},
			OnEvent: func(e *Eng, st *State, ev *Event) {
				if !in(e) {
					return
				}
				c := instrName(ev.In, ev.Instr)
				switch ev.Kind {
				case EvLoad:
					// measured times are not negative, attempts were counted from 0
					if f := addrField(ev.Addr); ev.Type != nil && ev.Type.String() == "time.Duration" && f != nil && e.p.inModVar(f) {
						st.setBnd(e, ev.Val, iv{0, int64(time.Hour)})
					} else if f == ro.pktRA && ev.Val.kind == KSym {
						st.setBnd(e, ev.Val, iv{0, 4096})
					}
				case EvRecv:
					if loadedFrom(ev.Addr) == ro.listenStop {
						e.monSet(st, monDead, 1)
					}
				case EvCall:
					n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*container/list.List)."), "(*container/list.Element).")
					if n == ev.Name || len(ev.Args) == 0 {
						return
					}
					switch n {
					case "Front", "Next", "Back", "Prev":
						first := n == "Front" || n == "Back"
						if first && addrField(ev.Args[0]) != ro.sendList || !first && ev.Args[0] != st.mon["elem"] {
							return
						}
						done(e, st, c, ev)
						for _, k := range []string{"due", "sent", "moved", "att", "over"} {
							delete(st.mon, k)
						}
						delete(st.mon, "elem")
						if ev.Res != nil {
							st.mon["elem"] = ev.Res
						}
						e.monSet(st, "started", 1)
					}
				case EvStore:
					switch f := addrField(ev.Addr); {
					case f == ro.destroyed:
						if b, ok := ev.Val.boolVal(); ok && b {
							r.ob(monI(st, "over") == 1, "early", c, ev.Pos, st, "the connection is destroyed before the attempt limit is exceeded")
							e.monSet(st, monDead, 1)
						}
					case f == ro.pktRA && current(e, st, rootBase(ev.Addr)):
						ok := false
						for _, a := range ev.Val.atomsLin() {
							if loadedFrom(a) == ro.pktRA {
								ok = ok || e.isConst(st, e.in.sub(ev.Val, a), 1)
							}
						}
						r.ob(ok && st.mon["att"] == nil, "counted", c, ev.Pos, st, "the attempts become %s", desc(ev.Val))
						st.mon["att"] = ev.Val
					case f == ro.pktRT && current(e, st, rootBase(ev.Addr)):
						ok := ev.Val.kind == KOp && strings.HasSuffix(ev.Val.op, ".Add") && len(ev.Val.args) == 2 && strings.HasPrefix(ev.Val.args[0].String(), "now") && e.bounds(st, ev.Val.args[1]).hi > 0
						r.ob(ok, "moved", c, ev.Pos, st, "the next retransmit time %s is not in the future", desc(ev.Val))
						e.monSet(st, "moved", 1)
					}
				case EvSend:
					if loadedFrom(ev.Addr) != ro.senderCh {
						return
					}
					_, pac, _ := sentItem(e, st, ev.Val, ro)
					r.ob(current(e, st, pac), "same", c, ev.Pos, st, "what is sent is %s, not the packet on record", desc(pac))
					r.ob(monI(st, "due") == 1, "nottoosoon", c, ev.Pos, st, "a packet is sent again although its retransmit time was not found to have passed")
					r.ob(monI(st, "sent") == 0, "once", c, ev.Pos, st, "a packet is sent twice in one round")
					r.ob(monI(st, "over") == 2, "limited", c, ev.Pos, st, "a packet is sent again without any limit of attempts")
					e.monSet(st, "sent", 1)
				case EvTimer:
					if bodies[ev.Callee] {
						e.monSet(st, "armed", 1)
					}
				}
				if ev.Kind == EvCall && ev.Name == "(*time.Timer).Reset" && loadedFrom(ev.Args[0]) == ro.retransmitTimer {
					e.monSet(st, "armed", 1)
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				if !in(e) {
					return
				}
				c := "return of " + fnName(t.Fn)
				if isDead(st) {
					r.ob(true, "ends", c, t.Fn.Pos(), st, "")
					return
				}
				x := st.mon["elem"]
				r.ob(monI(st, "started") == 1 && x != nil && e.isNil(st, x) == 1, "all", c, t.Fn.Pos(), st, "a round of retransmission ends before the last packet and without destroying the connection")
				r.ob(monI(st, "armed") == 1, "rearmed", c, t.Fn.Pos(), st, "the retransmission timer is not armed again")
			},
		}
	}
	for _, f := range armedIn {
		r.run(mk(), apiRoot(f))
	}
	for _, n := range []string{"resent", "counted", "moved", "same", "nottoosoon", "limited", "all", "rearmed"} {
		r.atLeast(n, 1)
	}
	// every registered connection has the timer
	reg := map[*ssa.Function]bool{}
	for _, f := range r.p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.MapUpdate); ok && ssaLoadField(u.Map) == ro.chans {
					reg[f] = true
				}
			}
		}
	}
	for _, f := range r.p.functions() {
		if !reg[f] {
			continue
		}
		f := f
		r.run(&Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
			OnEvent: func(e *Eng, st *State, ev *Event) {
				switch ev.Kind {
				case EvTimer:
					if bodies[ev.Callee] {
						e.monSet(st, "armed", 1)
					}
				case EvMapUpdate:
					if loadedFrom(ev.Addr) == ro.chans {
						e.monSet(st, "registered", 1)
					}
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				if monI(st, "registered") == 1 {
					r.ob(monI(st, "armed") == 1, "started", "return of "+fnName(f), f.Pos(), st, "a connection is registered without a retransmission timer")
				}
			},
		}, apiRoot(f))
	}
	r.atLeast("started", 1)
}

// c03Sender: the goroutine that writes queued packets
func c03Sender(r *Report, ro *roles) {
	n := 0
	takes := r.p.reaches(receives(ro.senderCh))
	for _, f := range r.p.goTargets() {
		if !takes(f) {
			continue
		}
		n++
		p := newPrims(ro)
		finish := func(e *Eng, st *State, c string, ev *Event, f *ssa.Function) {
			if st.mon["item"] == nil {
				return
			}
			ps := f.Pos()
			if ev != nil {
				ps = ev.Pos
			}
			r.ob(monI(st, "wrote") == 1 || isDead(st), "written", c, ps, st, "a queued packet of a live connection is not written to the socket")
		}
		r.run(&Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
			OnCall:  p.call,
			OnFork:  stopFork(ro),
			OnEvent: func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				switch ev.Kind {
				case EvRecv:
					switch loadedFrom(ev.Addr) {
					case ro.listenStop:
						finish(e, st, c, ev, f)
						delete(st.mon, "item")
						e.monSet(st, monDead, 1)
					case ro.senderCh:
						finish(e, st, c, ev, f)
						for _, k := range []string{"wrote", monDead, "item", "itemch"} {
							delete(st.mon, k)
						}
						if pac := itemField(e, st, ev.Val, ro.packet); pac != nil {
							st.mon["item"] = pac
						}
						if ch := itemField(e, st, ev.Val, ro.channel); ch != nil {
							st.mon["itemch"] = ch
						}
					}
				case EvInvoke:
					if ev.Name == "(net.PacketConn).WriteTo" {
						d, to := ev.Args[1], ev.Args[2]
						r.ob(d.kind == KOp && d.op == "wirepkt" && d.args[0] == st.mon["item"], "bytes", c, ev.Pos, st, "what is written is %s, not the queued packet", desc(d))
						ok := loadedFrom(to) == ro.chAddr && rootBase(to.args[0]) == st.mon["itemch"] || to.kind == KIface && loadedFrom(to.args[0]) == ro.chAddr
						r.ob(ok, "address", c, ev.Pos, st, "the packet is written to %s, not to its connection's address", desc(to))
						e.monSet(st, "wrote", 1)
					}
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				if isDead(st) {
					return
				}
				r.ob(false, "runs", "return of "+fnName(f), f.Pos(), st, "the sender goroutine ends although the endpoint is not closed")
			},
		}, apiRoot(f))
	}
	if n == 0 {
		r.fail("no goroutine takes packets off the sender queue")
		return
	}
	r.atLeast("bytes", 1)
	r.atLeast("address", 1)
	r.atLeast("written", 1)
}

// receives: the function itself receives from the channel held in the field
func receives(fld *types.Var) func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Select:
					for _, s := range x.States {
						if s.Send == nil && ssaLoadField(s.Chan) == fld {
							return true
						}
					}
				case *ssa.UnOp:
					if x.Op.String() == "<-" && ssaLoadField(x.X) == fld {
						return true
					}
				}
			}
		}
		return false
	}
}
