package main

// The life of a connection and of an endpoint: C09, C10, L01, L02, L04-L06, A06,
// A07.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// makers are the functions that create a connection and register it, the
// innermost ones
func (p *Program) makers(ro *roles) []*ssa.Function {
	alloc := p.reaches(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.Alloc); ok && types.Identical(a.Type().(*types.Pointer).Elem(), ro.channel) {
					return true
				}
			}
		}
		return false
	})
	reg := p.reaches(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.MapUpdate); ok && ssaLoadField(u.Map) == ro.chans {
					return true
				}
			}
		}
		return false
	})
	var out []*ssa.Function
	for _, f := range p.functions() {
		if !alloc(f) || !reg(f) {
			continue
		}
		inner := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g != f && alloc(g) && reg(g) {
						inner = true
					}
				}
			}
		}
		if !inner {
			out = append(out, f)
		}
	}
	return out
}

// timeOf: the value derives from the content of the field only
func timeOf(v *V, fld *types.Var, d int) bool {
	if v == nil || d > 6 {
		return false
	}
	for x := v; x != nil && x.kind == KSym && len(x.args) > 0; x = x.args[0] {
		if a := x.args[0]; a.kind == KField {
			for ; a.kind == KField; a = a.args[0] {
				if fieldVar(a) == fld {
					return true
				}
			}
			return false
		}
	}
	if v.kind == KStruct {
		for _, a := range v.args {
			if timeOf(a, fld, d+1) {
				return true
			}
		}
	}
	return false
}

func isNow(v *V) bool { return v != nil && strings.HasPrefix(v.String(), "now") }

// elapsed gives what a condition says about the time since the moment kept in
// the field: more than lo, at most hi
func (e *Eng) elapsed(st *State, cond *V, taken bool, fld *types.Var) (lo, hi int64, ok bool) {
	for cond.kind == KOp && cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	if cond.kind != KOp || len(cond.args) != 2 {
		return
	}
	since := func(v *V) bool {
		v = stripConv(v)
		if v.kind == KSym && v.op == "since" && len(v.args) > 0 {
			return timeOf(v.args[0], fld, 0)
		}
		return v.kind == KOp && strings.HasSuffix(v.op, ".Sub") && len(v.args) == 2 && isNow(v.args[0]) && timeOf(v.args[1], fld, 0)
	}
	// moved gives the offset of a moment: la + off
	moved := func(v *V, base func(*V) bool) (int64, bool) {
		if base(v) {
			return 0, true
		}
		if v.kind == KOp && strings.HasSuffix(v.op, ".Add") && len(v.args) == 2 && base(v.args[0]) {
			return v.args[1].intVal()
		}
		return 0, false
	}
	la := func(v *V) bool { return timeOf(v, fld, 0) }
	a, b := cond.args[0], cond.args[1]
	switch {
	case cond.op == "lt" || cond.op == "le":
		for _, v := range []*V{a, b} {
			for _, t := range append([]*V{v}, v.atomsLin()...) {
				if since(t) {
					bd := e.bounds(st, stripConv(t))
					return bd.lo, bd.hi, true
				}
			}
		}
	case strings.HasSuffix(cond.op, "Before") || strings.HasSuffix(cond.op, "After"):
		if strings.HasSuffix(cond.op, "After") {
			a, b = b, a
		}
		// a before b
		if x, ok1 := moved(a, la); ok1 {
			if y, ok2 := moved(b, isNow); ok2 { // la+x < now+y: elapsed > x-y
				if taken {
					return x - y + 1, maxI, true
				}
				return -maxI, x - y, true
			}
		}
		if x, ok1 := moved(a, isNow); ok1 {
			if y, ok2 := moved(b, la); ok2 { // now+x < la+y: elapsed < y-x
				if taken {
					return -maxI, y - x - 1, true
				}
				return y - x, maxI, true
			}
		}
	}
	return
}

// durConst: a constant duration
func durConst(v *V) (int64, bool) {
	if v == nil {
		return 0, false
	}
	if v.kind == KConst && v.aux != nil {
		if c, ok := v.aux.(constant.Value); ok && c.Kind() == constant.Int {
			return constant.Int64Val(c)
		}
	}
	return v.intVal()
}

// ---------------------------------------------------------------- C10

func init() {
	register(&Check{
		ID: "C10", Level: "other", Prep: true,
		Technique:   "typestate monitors over path-sensitive interprocedural dataflow with intervals (go/ssa): datagram handler, activity timer; writer census of the activity time",
		Note:        "On every path of the datagram handler a live datagram marks activity and a ping is answered; on every path of the activity timer the interval of the silence decides between destroying, pinging and nothing, with limits in the right order, and the timer is armed again.",
		Assumptions: []string{"decryption is a primitive step (S01)", "time.AfterFunc and time.Since work as documented"},
		NotCovered:  "whether the network delivers the ping and its answer.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Datagram handler, per status: a ping, a pong, an acknowledgement and a data datagram that decrypts, from the address of a registered connection, stores the current time as this connection's activity; a data datagram that fails decryption does not; a ping queues exactly one pong on this connection, unless the connection or endpoint is found closed. The activity time is written only there and before a connection is registered. A connection is registered only after its activity timer was armed with the activity time set. Activity timer: it destroys only when the silence is known to exceed a limit, returns without destroying only when the silence is known to be within it, and without pinging only in server mode or when the silence is within the shorter limit; the distance of the two limits is at least two timer periods; unless it destroys it arms itself again with a constant period.")
			c10Recv(r, ro)
			c10Timer(r, ro)
		},
	})
}

func c10Recv(r *Report, ro *roles) {
	pingS, pongS, ackS := ro.status("statusPing", 6), ro.status("statusPong", 7), ro.status("statusAck", 5)
	m := &recvMon{r: r, ro: ro, statuses: []int64{4, 5, 6, 7, 0x84}}
	m.onEvent = func(e *Eng, st *State, ev *Event) {
		if ev.Kind == EvStore && addrField(ev.Addr) == ro.lastActivity || ev.Kind == EvStore && underField(ev.Addr, ro.lastActivity) {
			c := instrName(ev.In, ev.Instr)
			b := rootBase(ev.Addr)
			if !e.shared(st, b) {
				return
			}
			ok := r.ob(st.mon["ch"] != nil && e.same(st, b, st.mon["ch"]), "own", c, ev.Pos, st, "activity is stored for another connection")
			ok = ok && r.ob(monI(st, "dec") != 2, "authentic", c, ev.Pos, st, "a datagram that fails decryption counts as activity")
			if ok && isNow(ev.Val) {
				e.monSet(st, "act", 1)
			}
		}
	}
	m.onSend = func(e *Eng, st *State, ev *Event) {
		if loadedFrom(ev.Addr) != ro.senderCh {
			return
		}
		ch, pac, _ := sentItem(e, st, ev.Val, ro)
		s := e.get(st, pac, ro.pktStatus)
		if s == nil || !e.isConst(st, s, pongS) {
			return
		}
		c := instrName(ev.In, ev.Instr)
		n, _ := m.status(st)
		r.ob(n == pingS && monI(st, "pong") == 0, "answer", c, ev.Pos, st, "a pong is sent that answers no ping")
		r.ob(e.same(st, ch, st.mon["ch"]), "answer", c, ev.Pos, st, "the pong goes to another connection")
		e.monSet(st, "pong", 1)
	}
	m.onReturn = func(e *Eng, st *State) {
		n, ok := m.status(st)
		if !ok || st.mon["ch"] == nil {
			return
		}
		c := fmt.Sprintf("status %#x", n)
		dead := isDead(st)
		if m.isData(st) && monI(st, "dec") == 1 || n == pingS || n == pongS || n == ackS {
			r.ob(dead || monI(st, "act") == 1, "activity", c, ro.serve.Pos(), st, "a datagram of the peer does not count as activity")
		}
		if n == pingS {
			r.ob(dead || monI(st, "pong") == 1, "answered", c, ro.serve.Pos(), st, "a ping is not answered")
		}
	}
	r.run(m.rule(), listenerRoot(ro.serve))
	r.atLeast("activity", 5)
	r.atLeast("answered", 1)
	r.atLeast("own", 1)
}

// underField: the address lies within the field
func underField(a *V, f *types.Var) bool {
	for ; a != nil && a.kind == KField; a = a.args[0] {
		if fieldVar(a) == f {
			return true
		}
	}
	return false
}

func c10Timer(r *Report, ro *roles) {
	la := ro.lastActivity
	loads := r.p.reaches(func(f *ssa.Function) bool { return loadsField(f, la) })
	bodies, _ := r.p.timerBodies(loads)
	if len(bodies) == 0 {
		r.fail("no timer function was found that looks at the time of the last activity")
		return
	}
	server := deepField(ro.channel, "serverMode")
	pingS := ro.status("statusPing", 6)
	minDestroy, maxQuiet, maxPeriod := int64(maxI), int64(0), int64(0)
	mk := func() *Rule {
		in := func(e *Eng) bool { return e.root != nil && e.root.Kind == "timer" && bodies[e.root.Fn] }
		return &Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return t.Kind == "timer" && bodies[t.Fn] },
			OnFork: func(e *Eng, st *State, cond *V, taken bool) {
				stopFork(ro)(e, st, cond, taken)
				if !in(e) {
					return
				}
				x, tk := cond, taken
				for x.kind == KOp && x.op == "not" {
					x, tk = x.args[0], !tk
				}
				if server != nil && (loadedFrom(x) == server || x == st.mon["srv"]) && tk {
					e.monSet(st, "server", 1)
				}
				if lo, hi, ok := e.elapsed(st, cond, taken, la); ok {
					if lo > monI(st, "lo") {
						e.monSet(st, "lo", lo)
					}
					if h := monI(st, "hi"); hi < maxI && (h == 0 || hi < h) {
						e.monSet(st, "hi", hi)
					}
				}
			},
			OnEvent: func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				switch ev.Kind {
				case EvLoad:
					if server != nil && in(e) && addrField(ev.Addr) == server {
						st.mon["srv"] = ev.Val
					}
				case EvStore:
					if underField(ev.Addr, la) {
						if !in(e) {
							if isNow(ev.Val) {
								e.monSet(st, "set", 1)
							}
						} else {
							r.ob(false, "bypeer", c, ev.Pos, st, "the activity timer itself counts as activity of the peer")
						}
					}
					if b, ok := ev.Val.boolVal(); in(e) && addrField(ev.Addr) == ro.destroyed && ok && b {
						lo := monI(st, "lo")
						r.ob(lo > 0, "silence", c, ev.Pos, st, "the connection is destroyed without the silence being known to exceed a limit")
						if lo > 0 && lo < minDestroy {
							minDestroy = lo
						}
						e.monSet(st, "destroyed", 1)
						e.monSet(st, monDead, 1)
					}
				case EvRecv:
					if loadedFrom(ev.Addr) == ro.listenStop {
						e.monSet(st, "stopped", 1)
					}
				case EvSend:
					if !in(e) || loadedFrom(ev.Addr) != ro.senderCh {
						return
					}
					_, pac, _ := sentItem(e, st, ev.Val, ro)
					if s := e.get(st, pac, ro.pktStatus); s != nil && e.isConst(st, s, pingS) {
						e.monSet(st, "pinged", 1)
					}
				case EvCall:
					var d *V
					if ev.Name == "time.AfterFunc" && len(ev.Args) == 2 && ev.Args[1].kind == KFunc {
						if f, ok := ev.Args[1].aux.(*ssa.Function); ok && bodies[f] {
							d = ev.Args[0]
						}
					}
					if ev.Name == "(*time.Timer).Reset" && in(e) {
						d = ev.Args[1]
					}
					if d == nil {
						return
					}
					n, ok := durConst(d)
					r.ob(ok && n > 0, "period", c, ev.Pos, st, "the period of the activity timer is not a positive constant")
					if n > maxPeriod {
						maxPeriod = n
					}
					if !in(e) {
						r.ob(monI(st, "set") == 1, "initial", c, ev.Pos, st, "the activity timer is started before the time of the last activity is set")
					}
					e.monSet(st, "armed", 1)
				case EvMapUpdate:
					if loadedFrom(ev.Addr) == ro.chans {
						e.monSet(st, "registered", 1)
					}
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				if !in(e) {
					if monI(st, "registered") == 1 {
						r.ob(isDead(st) || monI(st, "armed") == 1, "started", "return of "+fnName(t.Fn), t.Fn.Pos(), st, "a connection is registered without an activity timer")
					}
					return
				}
				c := "return of " + fnName(t.Fn)
				if isDead(st) {
					r.ob(true, "ends", c, t.Fn.Pos(), st, "")
					return
				}
				hi := monI(st, "hi")
				ok := r.ob(hi > 0, "dropped", c, t.Fn.Pos(), st, "the activity timer leaves a connection alive without knowing that the silence is within a limit")
				ok = ok && r.ob(monI(st, "armed") == 1, "rearmed", c, t.Fn.Pos(), st, "the activity timer is not armed again")
				if ok && monI(st, "pinged") == 0 && monI(st, "server") == 0 && monI(st, "stopped") == 0 {
					r.ob(true, "idle", c, t.Fn.Pos(), st, "")
					if hi > maxQuiet {
						maxQuiet = hi
					}
				}
			},
		}
	}
	mks := r.p.makers(ro)
	for _, f := range mks {
		r.run(mk(), apiRoot(f))
	}
	pos := ro.serve.Pos()
	r.ob(minDestroy < maxI && maxQuiet > 0 && minDestroy >= maxQuiet+2*maxPeriod, "order", "activity timer", pos, nil,
		"a silent peer is pinged after %v at the latest and dropped after %v, checked every %v: there is no time for the answer", time.Duration(maxQuiet), time.Duration(minDestroy), time.Duration(maxPeriod))
	for _, n := range []string{"silence", "dropped", "rearmed", "idle", "period", "initial", "started"} {
		r.atLeast(n, 1)
	}
	// writers: every way to a store goes through the datagram handler or the
	// creation of a connection
	skip := map[*ssa.Function]bool{ro.serve: true}
	for _, f := range mks {
		skip[f] = true
	}
	way := r.p.reachesWithout(func(f *ssa.Function) bool { return storesField(f, la) }, skip)
	for _, f := range append(r.p.goTargets(), r.p.apiRoots()...) {
		w := way(f)
		c, ps := "all others", f.Pos()
		if w != nil {
			c = fnName(w)
		}
		r.ob(w == nil, "bypeer", c, ps, nil, "%s stores the time of the last activity although nothing was received", fnName(f))
	}
	r.atLeast("bypeer", 1)
}

func loadsField(f *ssa.Function, fld *types.Var) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok && ssaLoadField(v) == fld {
				return true
			}
		}
	}
	return false
}

func storesField(f *ssa.Function, fld *types.Var) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && ssaField(s.Addr) == fld {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C09

// handshake runs the datagram handler for handshake statuses with the decoding of
// the handshake body as a primitive step
//
// mon: miss 1 (no connection under the sender's address), uuid 1 equal 2 differs
// (body identifier and the connection's own), pend 1 hit 2 miss (identifier among
// the pending attempts), used 1 (attempt already has a connection) 2 (not yet),
// keyed 1 (connection has a session key) 2 (not)
type handshake struct {
	recvMon
	prims *prims
}

func newHandshake(r *Report, ro *roles, statuses ...int64) *handshake {
	h := &handshake{prims: newPrims(ro)}
	h.r, h.ro, h.statuses = r, ro, statuses
	return h
}

func isWireUUID(v *V) bool {
	for v != nil && v.kind == KOp && len(v.args) > 0 && (v.op == "conv" || v.op == "bytes2str" || v.op == "str2bytes" || v.op == "string") {
		v = v.args[0]
	}
	return v != nil && v.kind == KSym && v.op == "hsUUID"
}

func (h *handshake) addrKey(k *V) bool {
	return k != nil && k.kind == KOp && k.op == "call:String" && k.args[0].kind == KSym && k.args[0].op == addrParam(h.ro.serve)
}

func (h *handshake) rule() *Rule {
	ro := h.ro
	rule := h.recvMon.rule()
	call, event := rule.OnCall, rule.OnEvent
	rule.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.Callee != nil && ci.Callee == ro.cpUnmarshal {
			f := st.clone()
			f.note(ci.Pos, "the handshake body can not be decoded")
			e.monSet(f, "badbody", 1)
			cp := ci.Args[0]
			u := e.freshA(st, "hsUUID", ro.cpUUID.Type(), symKey{tag: "hsUUID"})
			e.set(st, cp, ro.cpUUID, u)
			e.set(st, cp, ro.cpData, e.freshA(st, "hsData", ro.cpData.Type(), symKey{tag: "hsData"}))
			return []Outcome{{st: st, ret: []*V{e.in.Nil()}}, {st: f, ret: []*V{e.newErr(f, ci)}}}, true
		}
		if o, ok := call(e, st, ci); ok {
			return o, ok
		}
		return h.prims.call(e, st, ci)
	}
	rule.OnEvent = func(e *Eng, st *State, ev *Event) {
		if ev.Kind == EvLookup {
			switch loadedFrom(ev.Addr) {
			case ro.chans:
				if h.addrKey(ev.Key) && ev.Hit != 1 {
					e.monSet(st, "miss", 1)
				}
			case ro.connects:
				if isWireUUID(ev.Key) {
					if ev.Hit == 1 {
						st.mon["pendCD"] = ev.Val
						e.monSet(st, "pend", 1)
					} else {
						e.monSet(st, "pend", 2)
					}
				}
			}
		}
		event(e, st, ev)
	}
	fork := rule.OnFork
	rule.OnFork = func(e *Eng, st *State, cond *V, taken bool) {
		fork(e, st, cond, taken)
		h.facts(e, st, cond, taken)
	}
	return rule
}

func (h *handshake) facts(e *Eng, st *State, cond *V, taken bool) {
	ro := h.ro
	for cond.kind == KOp && cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	var look func(v *V, d int)
	look = func(v *V, d int) {
		if v == nil || d > 4 {
			return
		}
		if v.kind == KSym && loadedFrom(v) == ro.key {
			b := e.bounds(st, e.lenOf(st, v, nil))
			if b.lo > 0 {
				e.monSet(st, "keyed", 1)
				st.mon["keych"] = chanOfCrypt(rootBase(v.args[0]), ro)
			} else if b.hi <= 0 {
				e.monSet(st, "keyed", 2)
				st.mon["keych"] = chanOfCrypt(rootBase(v.args[0]), ro)
			}
			return
		}
		for _, a := range v.args {
			look(a, d+1)
		}
		for _, a := range v.atomsLin() {
			if a != v {
				look(a, d+1)
			}
		}
	}
	look(cond, 0)
	if cond.kind != KOp || cond.op != "eq" {
		return
	}
	for i, a := range cond.args {
		b := cond.args[1-i]
		switch f := loadedFrom(a); {
		case f == ro.chUUID && isWireUUID(b):
			st.mon["uuidch"] = rootBase(a.args[0])
			if taken {
				e.monSet(st, "uuid", 1)
			} else {
				e.monSet(st, "uuid", 2)
			}
		case f == ro.cdCh && e.isNil(st, b) == 1:
			if taken {
				e.monSet(st, "used", 2)
			} else {
				e.monSet(st, "used", 1)
			}
		}
	}
}

// ofSender: the value is the connection found under the sender's address
func (h *handshake) ofSender(v *V) bool {
	return v != nil && v.kind == KSym && len(v.args) == 2 && loadedFrom(v.args[0]) == h.ro.chans && h.addrKey(v.args[1])
}

func init() {
	register(&Check{
		ID: "C09", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow (go/ssa) of the datagram handler for handshake statuses",
		Note:        "Per path of the datagram handler: every step that destroys, replaces, re-keys or re-labels a connection is reached only under facts that identify the handshake the datagram belongs to.",
		Assumptions: []string{"decoding, encoding and public-key steps are primitive (C04, S01)", "handshake datagrams are handled one after the other by one goroutine (checked by C01)"},
		NotCovered:  "forged datagrams with the peer's address and a new identifier: the protocol does not authenticate connect requests.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Events on every path of the datagram handler for statuses 0 to 3: an existing connection is marked destroyed, its registration removed or replaced, its session key, identifier or reader stored. For a connect request these happen only after its body was decoded and the sender's address was found to have no connection, or one with another identifier; never a key, identifier or reader store on an existing connection. For a server answer only after its identifier was found pending and that attempt was found to have no connection yet. For a client answer only the session key is stored, only on the connection of the sender's address, after identifier and body identifier were found equal and its session key empty. For a done datagram nothing. The connect callback runs only on the path that installs the session key.")
			h := newHandshake(r, ro, 0, 1, 2, 3)
			fresh := func(st *State, b *V) bool { return b != nil && b.kind == KObj }
			permit := func(e *Eng, st *State, what, c string, ev *Event, ch *V) {
				if fresh(st, ch) {
					r.ob(true, "own "+what, c, ev.Pos, st, "")
					return
				}
				n, ok := h.status(st)
				switch {
				case !ok:
					r.ob(false, what, c, ev.Pos, st, "a datagram that can not be decoded has a connection %s", what)
				case n == 0:
					r.ob(monI(st, "badbody") == 0 && (monI(st, "miss") == 1 || monI(st, "uuid") == 2 && h.ofSender(st.mon["uuidch"])), what, c, ev.Pos, st, "a connect request has a connection %s although it may be a repeat of that connection's own handshake", what)
				case n == 1:
					r.ob(monI(st, "badbody") == 0 && monI(st, "pend") == 1 && monI(st, "used") == 2, what, c, ev.Pos, st, "a server answer has a connection %s although it may be stray or repeated", what)
				default:
					r.ob(false, what, c, ev.Pos, st, "a datagram of status %d has a connection %s", n, what)
				}
			}
			h.onEvent = func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				n, ok := h.status(st)
				switch ev.Kind {
				case EvStore:
					b := rootBase(ev.Addr)
					switch addrField(ev.Addr) {
					case ro.destroyed:
						if v, ok := ev.Val.boolVal(); ok && v {
							permit(e, st, "destroyed", c, ev, b)
						}
					case ro.chans:
						r.ob(fresh(st, b), "replaced", c, ev.Pos, st, "the table of connections is replaced by a datagram")
					case ro.key:
						ch := chanOfCrypt(b, ro)
						if fresh(st, b) || fresh(st, ch) {
							r.ob(true, "own keyed", c, ev.Pos, st, "")
							return
						}
						good := ok && n == 2 && monI(st, "badbody") == 0 && monI(st, "uuid") == 1 && monI(st, "keyed") == 2
						good = good && h.ofSender(ch) && h.ofSender(st.mon["uuidch"]) && h.ofSender(st.mon["keych"])
						if r.ob(good, "rekeyed", c, ev.Pos, st, "a session key is installed by a datagram that may not belong to this connection's handshake or repeat it") {
							e.monSet(st, "installed", 1)
						}
					case ro.chUUID, ro.chReader, ro.chAddr:
						r.ob(fresh(st, b), "relabelled", c, ev.Pos, st, "%s of an existing connection is stored by a handshake datagram", addrField(ev.Addr).Name())
					case ro.cdCh:
						r.ob(ok && n == 1 && monI(st, "pend") == 1 && monI(st, "used") == 2, "pending", c, ev.Pos, st, "the connection of a pending attempt is set by a datagram that may be stray or repeated")
					}
				case EvMapUpdate:
					if loadedFrom(ev.Addr) == ro.chans {
						if r.ob(h.addrKey(ev.Key) || loadedFrom(stripCall(ev.Key)) == ro.chAddr, "address", c, ev.Pos, st, "a connection is registered under %s, not under the sender's address", desc(ev.Key)) {
							permit(e, st, "replaced", c, ev, nil)
						}
					}
				case EvMapDelete:
					switch loadedFrom(ev.Addr) {
					case ro.chans:
						if !fresh(st, st.mon["torn"]) {
							permit(e, st, "unregistered", c, ev, nil)
						}
					case ro.connects:
						r.ob(false, "pending", c, ev.Pos, st, "a datagram removes a pending attempt: the waiting caller is never answered")
					}
				case EvDyn:
					if loadedFrom(ev.Fn) == ro.connectcb {
						r.ob(monI(st, "installed") == 1, "callback", c, ev.Pos, st, "the connect callback runs although this datagram did not complete a handshake")
						r.ob(monI(st, "called") == 0, "callback", c, ev.Pos, st, "the connect callback runs twice")
						e.monSet(st, "called", 1)
					}
				}
			}
			r.run(h.rule(), listenerRoot(ro.serve))
			r.atLeast("destroyed", 1)
			r.atLeast("rekeyed", 1)
			r.atLeast("replaced", 1)
			r.atLeast("callback", 1)
			r.atLeast("pending", 1)
		},
	})
}

func stripCall(v *V) *V {
	if v != nil && v.kind == KOp && strings.HasPrefix(v.op, "call:") && len(v.args) > 0 {
		return v.args[0]
	}
	return v
}

// ---------------------------------------------------------------- L01

// critical remembers facts found while a lock is held and drops them when the
// outermost lock that was held then is released
func critical(e *Eng, st *State, ev *Event) {
	if ev.Kind != EvUnlock {
		return
	}
	for k := range st.mon {
		if !strings.HasPrefix(k, "cs:") {
			continue
		}
		held := false
		for _, l := range st.locks {
			held = held || l.addr == st.mon["by:"+k] && l.addr != ev.Addr // the event comes before the release
		}
		if !held {
			delete(st.mon, k)
			delete(st.mon, "by:"+k)
		}
	}
}

// critSet remembers a fact until critical drops it
func critSet(e *Eng, st *State, k string, v *V) {
	st.mon["cs:"+k] = v
	delete(st.mon, "by:cs:"+k)
	if len(st.locks) > 0 {
		st.mon["by:cs:"+k] = st.locks[0].addr
	}
}

func heldWrite(st *State) bool {
	for _, l := range st.locks {
		if l.mode == 'W' {
			return true
		}
	}
	return false
}

// pathOf names the fields that lead from the object to the address
func pathOf(a *V) string {
	var s []string
	for ; a != nil && (a.kind == KField || a.kind == KIndex); a = a.args[0] {
		if f := fieldVar(a); f != nil {
			s = append([]string{f.Name()}, s...)
		}
	}
	return strings.Join(s, ".")
}

// globalName is the global a value was loaded from
func globalName(v *V) string {
	if v != nil && v.kind == KSym && len(v.args) > 0 && v.args[0].kind == KGlobal {
		return v.args[0].String()
	}
	return ""
}

// teardown follows the destruction of connections on a path
type teardown struct {
	ob   func(ok bool, rule, construct string, ev *Event, st *State, format string, a ...interface{}) bool
	ro   *roles
	done func(e *Eng, st *State, c string, ev *Event) // a destruction is complete, or should be
}

func (t *teardown) fork(e *Eng, st *State, cond *V, taken bool) {
	ro := t.ro
	for cond.kind == KOp && cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	if loadedFrom(cond) == ro.destroyed && !taken && heldWrite(st) {
		critSet(e, st, "open", rootBase(cond.args[0]))
	}
	if cond.kind != KOp || cond.op != "eq" {
		return
	}
	win := st.mon["win"]
	for i, a := range cond.args {
		b := cond.args[1-i]
		if e.isNil(st, b) == 1 && taken && win != nil {
			switch loadedFrom(a) {
			case ro.chReader:
				if rootBase(a.args[0]) == win {
					e.monSet(st, "n1", 1)
				}
			case ro.truReader:
				e.monSet(st, "n2", 1)
			}
		}
		if a.kind == KSym && len(a.args) == 2 && loadedFrom(a.args[0]) == ro.chans && win != nil && (b == win || e.same(st, b, win)) {
			if taken {
				critSet(e, st, "mine", a.args[1])
			} else if t.ownKey(win, a.args[1]) {
				e.monSet(st, "rm", 1)
			}
		}
	}
}

// ownKey: the key is the address of the connection
func (t *teardown) ownKey(win, k *V) bool {
	a := stripCall(k)
	return win != nil && (win.kind == KObj || loadedFrom(a) == t.ro.chAddr && rootBase(a.args[0]) == win)
}

func (t *teardown) finished(st *State) bool {
	return monI(st, "n1") == 1 && monI(st, "n2") == 1 && monI(st, "rm") == 1
}

func (t *teardown) finish(e *Eng, st *State, c string, ev *Event) {
	if st.mon["win"] == nil {
		return
	}
	if t.done != nil {
		t.done(e, st, c, ev)
	} else {
		t.ob(monI(st, "n1") == 1, "notified", c, ev, st, "the reader of a destroyed connection is not notified")
		t.ob(monI(st, "n2") == 1, "notified", c, ev, st, "the global reader is not notified of a destroyed connection")
		t.ob(monI(st, "rm") == 1, "removed", c, ev, st, "a destroyed connection stays registered")
	}
	for _, k := range []string{"win", "n1", "n2", "rm", "disc"} {
		delete(st.mon, k)
	}
}

func (t *teardown) event(e *Eng, st *State, ev *Event) {
	ro := t.ro
	c := instrName(ev.In, ev.Instr)
	win := st.mon["win"]
	switch ev.Kind {
	case EvLookup:
		if loadedFrom(ev.Addr) == ro.chans && ev.Hit == 0 && t.ownKey(win, ev.Key) {
			e.monSet(st, "rm", 1)
		}
	case EvStore:
		if addrField(ev.Addr) != ro.destroyed {
			break
		}
		b := rootBase(ev.Addr)
		if v, ok := ev.Val.boolVal(); !ok || !v {
			t.ob(!e.shared(st, b), "final", c, ev, st, "the destroyed mark of a connection is taken back")
			break
		}
		if e.truth(st, e.load(st, ev.Addr, ro.destroyed.Type())) == 1 {
			break // already marked
		}
		ok := heldWrite(st) && st.mon["cs:open"] != nil && e.same(st, st.mon["cs:open"], b)
		if t.ob(ok, "first", c, ev, st, "a connection is marked destroyed without finding it not destroyed under the same lock: two causes both tear it down") {
			t.finish(e, st, c, ev)
			st.mon["win"] = b
		}
	case EvDyn:
		f := loadedFrom(ev.Fn)
		if f != ro.chReader && f != ro.truReader || len(ev.Args) != 3 || e.isNil(st, ev.Args[2]) == 1 {
			break
		}
		if !strings.Contains(globalName(ev.Args[2]), "ErrChannelDestroyed") {
			break
		}
		if !t.ob(win != nil && e.same(st, ev.Args[0], win), "winner", c, ev, st, "the destroyed notification is sent by a path that did not mark the connection destroyed itself") {
			break
		}
		k := "n1"
		if f == ro.truReader {
			k = "n2"
		}
		if k == "n1" && rootBase(ev.Fn.args[0]) != win {
			t.ob(false, "winner", c, ev, st, "the reader of another connection is notified")
			break
		}
		t.ob(monI(st, k) == 0, "once", c, ev, st, "a reader is notified twice")
		e.monSet(st, k, 1)
	case EvMapDelete:
		if loadedFrom(ev.Addr) != ro.chans {
			break
		}
		k := st.mon["cs:mine"]
		t.ob(win != nil, "winner", c, ev, st, "a registration is removed by a path that did not mark the connection destroyed itself")
		if t.ob(k != nil && e.same(st, k, ev.Key) && heldWrite(st), "own", c, ev, st, "the registration under %s is removed without finding this connection there under the same lock", desc(ev.Key)) {
			e.monSet(st, "rm", 1)
		}
	case EvPanic:
	}
	critical(e, st, ev)
}

func init() {
	register(&Check{
		ID: "L01", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow with lock sets (go/ssa), on every goroutine of the library",
		Note:        "On every path of every goroutine: marking a connection destroyed is a test-and-set under its lock; only the path that wins notifies the readers, each exactly once, and removes the registration, only after finding this very connection registered under the lock it is removed under; a disconnect datagram always takes this way.",
		Assumptions: []string{"mutexes exclude each other; accesses are under their locks (K01)"},
		NotCovered:  "readers that panic.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("The destroyed mark is stored true only in a critical section in which it was found false, and never taken back. A call of a connection's reader or the global reader with the destroyed error, and a removal from the table of connections, occur only on a path that has stored the mark of that connection; each reader at most once. The removal is preceded, under the same lock, by a comparison that finds the connection itself registered under the same key. Before the path ends or destroys another connection, the connection's reader and the global reader were called or found nil and the registration was removed or found to be another one. A disconnect datagram of a registered connection stores the mark or finds it set.")
			r.runThreads(func(q *Report) *Rule {
				t := &teardown{ro: ro, ob: func(ok bool, rule, c string, ev *Event, st *State, f string, a ...interface{}) bool {
					return q.ob(ok, rule, c, ev.Pos, st, f, a...)
				}}
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnFork:  t.fork,
					OnEvent: t.event,
					OnReturn: func(e *Eng, st *State, task *Task, ret []*V) {
						t.finish(e, st, "return of "+fnName(task.Fn), &Event{Pos: task.Fn.Pos()})
					},
				}
			}, r.p.reaches(func(f *ssa.Function) bool { return storesField(f, ro.destroyed) || deletesFrom(f, ro.chans) }))
			for _, n := range []string{"first", "winner", "once", "own", "notified", "removed"} {
				r.atLeast(n, 1)
			}
			discS := ro.status("statusDisconnect", 8)
			m := &recvMon{r: r, ro: ro, statuses: []int64{discS}}
			m.onEvent = func(e *Eng, st *State, ev *Event) {
				if ev.Kind == EvStore && addrField(ev.Addr) == ro.destroyed && e.same(st, rootBase(ev.Addr), st.mon["ch"]) {
					e.monSet(st, monDead, 1)
				}
			}
			m.onReturn = func(e *Eng, st *State) {
				if _, ok := m.status(st); ok && st.mon["ch"] != nil {
					r.ob(isDead(st), "disconnect", "return of "+fnName(ro.serve), ro.serve.Pos(), st, "a disconnect datagram leaves its connection alive")
				}
			}
			r.run(m.rule(), listenerRoot(ro.serve))
			r.atLeast("disconnect", 1)
		},
	})
}

func deletesFrom(f *ssa.Function, fld *types.Var) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && ssaLoadField(c.Call.Args[0]) == fld {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- L02

func init() {
	register(&Check{
		ID: "L02", Level: "other", Prep: true,
		Technique:   "lock-aware typestate over path-sensitive interprocedural dataflow (go/ssa): arming sites of periodic timers against the destruction of their connection",
		Note:        "Every timer that a connection's timer function arms again is armed only in a critical section that found a stop flag unset; every path that destroys a connection sets these flags and stops these timers under the same locks.",
		Assumptions: []string{"time.Timer.Stop prevents a timer that has not fired from firing", "accesses are under their locks (K01)"},
		NotCovered:  "one-shot delivery timers of packets.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("A connection is created and every timer it arms, directly or from a timer function, is followed. In a timer function a timer is armed (time.AfterFunc or Reset) only while a write lock is held under which a boolean field of the connection was found false; the flags found at all arming sites of a timer are its stop flags. On every path that marks a connection destroyed, each of its timers is stopped or found nil, and one of its stop flags is stored true before, or in the same critical section as, that stop, under a write lock.")
			flags := map[string]map[string]bool{} // timer path -> stop flags
			arms := map[string]bool{}
			mk := func() *Rule {
				timer := func(e *Eng) bool { return e.root != nil && e.root.Kind == "timer" }
				note := func(e *Eng, st *State, tp, c string, ev *Event) {
					arms[tp] = true
					if !timer(e) {
						return
					}
					fl := map[string]bool{}
					for k := range st.mon {
						if strings.HasPrefix(k, "cs:fl:") {
							fl[strings.TrimPrefix(k, "cs:fl:")] = true
						}
					}
					r.ob(len(fl) > 0 && heldWrite(st), "checked", c+" "+tp, ev.Pos, st, "timer %s is armed again without finding, under a lock, that the connection is not destroyed", tp)
					if old := flags[tp]; old == nil {
						flags[tp] = fl
					} else {
						for k := range old {
							if !fl[k] {
								delete(old, k)
							}
						}
					}
				}
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return t.Kind == "timer" },
					OnFork: func(e *Eng, st *State, cond *V, taken bool) {
						for cond.kind == KOp && cond.op == "not" {
							cond, taken = cond.args[0], !taken
						}
						if f := loadedFrom(cond); f != nil && !taken && heldWrite(st) && types.Identical(f.Type().Underlying(), types.Typ[types.Bool]) {
							critSet(e, st, "fl:"+pathOf(cond.args[0]), e.in.Int(1, nil))
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						switch ev.Kind {
						case EvCall:
							if ev.Name == "(*time.Timer).Reset" && loadedFrom(ev.Args[0]) != nil {
								note(e, st, pathOf(ev.Args[0].args[0]), c, ev)
							}
						case EvStore:
							if f := addrField(ev.Addr); f != nil && f.Type().String() == "*time.Timer" && ev.Val.kind == KSym && strings.HasPrefix(ev.Val.op, "!timer") {
								note(e, st, pathOf(ev.Addr), c, ev)
							}
						}
						critical(e, st, ev)
					},
				}
			}
			for _, f := range r.p.makers(ro) {
				r.run(mk(), apiRoot(f))
			}
			r.atLeast("checked", 1)
			for tp := range arms {
				if len(flags[tp]) == 0 && flags[tp] != nil {
					r.ob(false, "flag", tp, ro.serve.Pos(), nil, "the sites that arm timer %s again do not look at a common stop flag", tp)
				}
			}
			if len(arms) == 0 {
				r.fail("no timer of a connection was found")
				return
			}
			allFlags := map[string]bool{}
			for _, m := range flags {
				for k := range m {
					allFlags[k] = true
				}
			}
			r.runThreads(func(q *Report) *Rule {
				t := &teardown{ro: ro, ob: func(ok bool, rule, c string, ev *Event, st *State, f string, a ...interface{}) bool { return true }}
				flagged := func(st *State, tp string) bool {
					if flags[tp] == nil {
						return true
					}
					for k := range flags[tp] {
						if monI(st, "set:"+k) == 1 {
							return true
						}
					}
					return false
				}
				t.done = func(e *Eng, st *State, c string, ev *Event) {
					for tp := range arms {
						q.ob(monI(st, "stop:"+tp) == 2, "stopped", c+" "+tp, ev.Pos, st, "timer %s of a destroyed connection is not stopped with its stop flag set", tp)
						delete(st.mon, "stop:"+tp)
					}
					for k := range allFlags {
						delete(st.mon, "set:"+k)
					}
				}
				stop := func(e *Eng, st *State, tp string) {
					if arms[tp] {
						n := int64(1)
						if flagged(st, tp) {
							n = 2
						}
						e.monSet(st, "stop:"+tp, n)
					}
				}
				mine := func(e *Eng, st *State, a *V) bool {
					return st.mon["win"] != nil && rootBase(a) == st.mon["win"]
				}
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnFork: func(e *Eng, st *State, cond *V, taken bool) {
						t.fork(e, st, cond, taken)
						for cond.kind == KOp && cond.op == "not" {
							cond, taken = cond.args[0], !taken
						}
						if cond.kind == KOp && cond.op == "eq" && taken {
							for i, a := range cond.args {
								if f := loadedFrom(a); f != nil && e.isNil(st, cond.args[1-i]) == 1 && f.Type().String() == "*time.Timer" && mine(e, st, a.args[0]) {
									stop(e, st, pathOf(a.args[0]))
								}
							}
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						t.event(e, st, ev)
						switch ev.Kind {
						case EvCall:
							if ev.Name == "(*time.Timer).Stop" && loadedFrom(ev.Args[0]) != nil && mine(e, st, ev.Args[0].args[0]) {
								stop(e, st, pathOf(ev.Args[0].args[0]))
							}
						case EvStore:
							if v, ok := ev.Val.boolVal(); ok && v && mine(e, st, ev.Addr) && allFlags[pathOf(ev.Addr)] && heldWrite(st) {
								e.monSet(st, "set:"+pathOf(ev.Addr), 1)
								for tp := range arms {
									if monI(st, "stop:"+tp) == 1 && flagged(st, tp) {
										e.monSet(st, "stop:"+tp, 2)
									}
								}
							}
						case EvUnlock:
							if st.mon["win"] == nil || len(st.locks) > 1 { // the event comes before the release
								return
							}
							for tp := range arms {
								if monI(st, "stop:"+tp) == 1 {
									q.ob(false, "atomic", c+" "+tp, ev.Pos, st, "timer %s is stopped but its stop flag is not set yet when the lock is released: its function arms it again", tp)
								}
							}
						}
					},
					OnReturn: func(e *Eng, st *State, task *Task, ret []*V) {
						t.finish(e, st, "return of "+fnName(task.Fn), &Event{Pos: task.Fn.Pos()})
					},
				}
			}, r.p.reaches(func(f *ssa.Function) bool { return storesField(f, ro.destroyed) }))
			r.atLeast("stopped", 1)
			var names []string
			for tp := range arms {
				names = append(names, tp)
			}
			sort.Strings(names)
			r.note = append(r.note, "timers of a connection: "+strings.Join(names, ", "))
		},
	})
}

// ---------------------------------------------------------------- L03

// destroyedFork gives the connection whose destroyed mark a condition tells: 1
// set, 0 not set
func destroyedFork(ro *roles, cond *V, taken bool) (ch *V, set bool) {
	for cond.kind == KOp && cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	if loadedFrom(cond) != ro.destroyed {
		return nil, false
	}
	return rootBase(cond.args[0]), taken
}

func init() {
	register(&Check{
		ID: "L03", Level: "other", Prep: true,
		Technique:   "typestate over path-sensitive interprocedural dataflow (go/ssa): writing entry points, sender and reader goroutine, closing of a connection",
		Note:        "On every path of a write the destroyed mark is read before anything is queued, and found set means the destroyed error and nothing queued; the goroutines look at the mark of each item's connection before sending or handing over; closing sends one disconnect datagram before the readers are notified, and only when this call destroyed the connection.",
		Assumptions: []string{"encryption and encoding are primitive steps"},
		NotCovered:  "a connection destroyed between the look and the send.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Writing entry points: nothing is recorded or queued before the connection's destroyed mark was found unset on the path; once it was found set nothing is queued or recorded and the result is the destroyed error. Sender goroutine: a packet is written to the socket, and reader goroutine: a message is handed to a reader, only after the mark of the connection it came with was found unset since it was taken from the queue. Closing a connection: on the path that marks it destroyed exactly one datagram, an encoded packet with disconnect status to the connection's address, is written before the readers are notified; on other paths nothing is sent.")
			// writes
			ws := writeRoots(r.p, ro)
			for _, f := range ws {
				pr := newPrims(ro)
				r.run(&Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnCall:  pr.call,
					OnFork: func(e *Eng, st *State, cond *V, taken bool) {
						if ch, set := destroyedFork(ro, cond, taken); ch != nil {
							if set {
								e.monSet(st, "gone", 1)
							} else {
								e.monSet(st, "alive", 1)
							}
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						what := ""
						switch ev.Kind {
						case EvSend:
							if loadedFrom(ev.Addr) == ro.senderCh {
								what = "queued"
							}
						case EvCall:
							if (ev.Name == "(*container/list.List).PushBack" || ev.Name == "(*container/list.List).PushFront") && addrField(ev.Args[0]) == ro.sendList {
								what = "recorded"
							}
						case EvInvoke:
							if ev.Name == "(net.PacketConn).WriteTo" {
								what = "written"
							}
						}
						if what != "" {
							r.ob(monI(st, "gone") == 0, "nothing", c, ev.Pos, st, "a packet is %s although the connection was found destroyed", what)
							r.ob(monI(st, "alive") == 1, "looked", c, ev.Pos, st, "a packet is %s without looking whether the connection is destroyed", what)
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						if monI(st, "gone") == 1 {
							err := ret[len(ret)-1]
							r.ob(strings.Contains(globalName(err), "ErrChannelDestroyed"), "error", "return of "+fnName(t.Fn), t.Fn.Pos(), st, "writing to a destroyed connection returns %s", desc(err))
						}
					},
				}, apiRoot(f))
			}
			r.atLeast("nothing", 2)
			r.atLeast("looked", 2)
			r.atLeast("error", 1)
			// goroutines
			for _, q := range []*types.Var{ro.senderCh, ro.readerCh} {
				takes := r.p.reaches(receives(q))
				n := 0
				for _, f := range r.p.goTargets() {
					if !takes(f) {
						continue
					}
					n++
					q := q
					pr := newPrims(ro)
					r.run(&Rule{
						OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
						OnCall:  pr.call,
						OnFork: func(e *Eng, st *State, cond *V, taken bool) {
							if ch, set := destroyedFork(ro, cond, taken); ch != nil && ch == st.mon["itemch"] {
								if set {
									e.monSet(st, "gone", 1)
								} else {
									e.monSet(st, "alive", 1)
								}
							}
						},
						OnEvent: func(e *Eng, st *State, ev *Event) {
							c := instrName(ev.In, ev.Instr)
							switch ev.Kind {
							case EvRecv:
								if loadedFrom(ev.Addr) == q {
									for _, k := range []string{"gone", "alive", "itemch"} {
										delete(st.mon, k)
									}
									if ch := itemField(e, st, ev.Val, ro.channel); ch != nil {
										st.mon["itemch"] = ch
									}
								}
							case EvInvoke:
								if ev.Name == "(net.PacketConn).WriteTo" {
									r.ob(monI(st, "alive") == 1 && monI(st, "gone") == 0, "discarded", c, ev.Pos, st, "a queued packet is written without finding its connection alive")
								}
							case EvDyn:
								if fl := loadedFrom(ev.Fn); fl == ro.chReader || fl == ro.truReader {
									r.ob(monI(st, "alive") == 1 && monI(st, "gone") == 0, "discarded", c, ev.Pos, st, "a queued message is handed over without finding its connection alive")
								}
							}
						},
					}, apiRoot(f))
				}
				if n == 0 {
					r.fail("no goroutine takes items off the queue %s", q.Name())
				}
			}
			r.atLeast("discarded", 2)
			// close
			cl := r.p.lookupFunc("tru", "(*Channel).Close")
			if cl == nil {
				r.fail("(*Channel).Close not found")
				return
			}
			discS := ro.status("statusDisconnect", 8)
			td := &teardown{ro: ro, ob: func(ok bool, rule, c string, ev *Event, st *State, f string, a ...interface{}) bool { return true }}
			td.done = func(e *Eng, st *State, c string, ev *Event) {
				r.ob(monI(st, "disc") == 1, "disconnect", c, ev.Pos, st, "an open connection is closed without sending a disconnect datagram")
			}
			pr := newPrims(ro)
			r.run(&Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnCall:  pr.call,
				OnFork:  td.fork,
				OnEvent: func(e *Eng, st *State, ev *Event) {
					pin(e, st, ev, ro.pktData, ro.pktID, ro.pktStatus)
					c := instrName(ev.In, ev.Instr)
					switch ev.Kind {
					case EvDyn:
						if f := loadedFrom(ev.Fn); f == ro.chReader || f == ro.truReader {
							r.ob(monI(st, "disc") == 1, "before", c, ev.Pos, st, "the readers are notified before the disconnect datagram is sent")
						}
					case EvMapDelete:
						if loadedFrom(ev.Addr) == ro.chans {
							r.ob(monI(st, "disc") == 1, "before", c, ev.Pos, st, "the connection is unregistered before the disconnect datagram is sent")
						}
					case EvSend:
						if loadedFrom(ev.Addr) == ro.senderCh {
							r.ob(false, "direct", c, ev.Pos, st, "closing queues a packet of a connection that is destroyed: it is discarded")
						}
					case EvInvoke:
						if ev.Name == "(net.PacketConn).WriteTo" {
							d, to := ev.Args[1], ev.Args[2]
							ok := d.kind == KOp && d.op == "wirepkt" && e.isConst(st, d.args[1], discS)
							r.ob(ok, "disconnect", c, ev.Pos, st, "what is sent on close is %s, not a disconnect packet", desc(d))
							w := st.mon["win"]
							r.ob(w != nil, "idle", c, ev.Pos, st, "a datagram is sent for a connection that this call did not destroy")
							r.ob(monI(st, "disc") == 0, "once", c, ev.Pos, st, "two disconnect datagrams are sent")
							a := to
							if a.kind == KIface {
								a = a.args[0]
							}
							r.ob(loadedFrom(a) == ro.chAddr && rootBase(a.args[0]) == w, "to", c, ev.Pos, st, "the disconnect datagram goes to %s", desc(to))
							e.monSet(st, "disc", 1)
						}
					}
					td.event(e, st, ev)
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					td.finish(e, st, "return of "+fnName(t.Fn), &Event{Pos: t.Fn.Pos()})
				},
			}, apiRoot(cl))
			r.atLeast("disconnect", 2)
			r.atLeast("before", 2)
		},
	})
}
