package main

// The receive side: one datagram from decoding to acknowledgement, ordering and
// handover. Decides C01, C02 and the receive part of C10, S02 and M05.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// recvMon runs the function that handles one datagram with decoding, decryption,
// number comparison, number advance and reassembly as primitive steps
type recvMon struct {
	r        *Report
	ro       *roles
	statuses []int64 // statuses to analyse
	other    bool    // and all other statuses

	onSend    func(e *Eng, st *State, ev *Event)
	onEvent   func(e *Eng, st *State, ev *Event)
	onReturn  func(e *Eng, st *State)
	onCombine func(e *Eng, st *State, pac *V, c string, ci *CallInfo)
	onAdvance func(e *Eng, st *State, c string, ci *CallInfo)
	onDecrypt func(e *Eng, st *State, c string, ci *CallInfo)
	onDist    func(e *Eng, st *State, c string, ci *CallInfo)
}

func monI(st *State, k string) int64 {
	if v, ok := st.mon[k]; ok {
		if n, ok := v.intVal(); ok {
			return n
		}
	}
	return 0
}

func (e *Eng) monSet(st *State, k string, n int64) {
	if n == 0 {
		delete(st.mon, k)
		return
	}
	st.mon[k] = e.in.Int(n, nil)
}

// tuple results of a primitive
func errType(ci *CallInfo) types.Type { return ci.ResT.At(ci.ResT.Len() - 1).Type() }

func (e *Eng) newErr(st *State, ci *CallInfo) *V {
	return e.freshA(st, "!err", errType(ci), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "perr"})
}

const monDead = "dead"

// stopFork marks paths on which the endpoint or the connection turned out to be
// closed
func stopFork(ro *roles) func(e *Eng, st *State, cond *V, taken bool) {
	return func(e *Eng, st *State, cond *V, taken bool) {
		for cond.kind == KOp && cond.op == "not" {
			cond, taken = cond.args[0], !taken
		}
		f := loadedFrom(cond)
		if f == nil || !taken {
			return
		}
		if f == ro.destroyed || f == ro.truClosed {
			e.monSet(st, monDead, 1)
		}
	}
}

func isDead(st *State) bool { return monI(st, monDead) == 1 }

func (m *recvMon) status(st *State) (int64, bool) {
	v := st.mon["status"]
	if v == nil {
		return -1, false
	}
	n, ok := v.intVal()
	return n, ok
}

func (m *recvMon) isData(st *State) bool {
	n, ok := m.status(st)
	return ok && (n == m.ro.status("statusData", 4) || n == m.ro.status("statusDataNext", 0x84))
}

func (m *recvMon) rule() *Rule {
	ro := m.ro
	return &Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnFork:  stopFork(ro),
		OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
			name := ""
			if ci.Callee != nil {
				name = instrName(ci.In, ci.Instr)
			}
			switch ci.Callee {
			case nil:
			case ro.unmarshal:
				return m.unmarshal(e, st, ci), true
			case ro.decPkt:
				return m.decrypt(e, st, ci, name), true
			case ro.distance:
				return m.distance(e, st, ci, name), true
			case ro.newExp:
				ch := ci.Args[0]
				old := e.get(st, ch, ro.chExp)
				st.mon["prev"] = old
				if m.onAdvance != nil {
					m.onAdvance(e, st, name, ci)
				}
				v := e.freshA(st, "exp", ro.chExp.Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "exp"})
				st.setBnd(e, v, iv{0, ro.limit - 1})
				e.set(st, ch, ro.chExp, v)
				return []Outcome{{st: st, ret: []*V{v}}}, true
			case ro.combine:
				pac := ci.Args[1]
				if m.onCombine != nil {
					m.onCombine(e, st, pac, name, ci)
				}
				s := st.clone()
				q := e.freshA(st, "!msg", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "msg"})
				st.mon["out"] = q
				return []Outcome{{st: st, ret: []*V{q}}, {st: s, ret: []*V{e.in.Nil()}}}, true
			}
			return nil, false
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			switch ev.Kind {
			case EvRecv:
				if loadedFrom(ev.Addr) == ro.listenStop {
					e.monSet(st, monDead, 1)
				}
			case EvLookup:
				if loadedFrom(ev.Addr) == ro.chans && ev.Hit == 1 {
					st.mon["ch"] = ev.Val
					st.mon["chkey"] = ev.Key
				}
			case EvSend:
				if m.onSend != nil {
					m.onSend(e, st, ev)
				}
			}
			if m.onEvent != nil {
				m.onEvent(e, st, ev)
			}
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			if m.onReturn != nil {
				m.onReturn(e, st)
			}
		},
	}
}

func (m *recvMon) unmarshal(e *Eng, st *State, ci *CallInfo) []Outcome {
	ro := m.ro
	var outs []Outcome
	bad := st.clone()
	bad.mon["status"] = e.in.Str("undecodable")
	bad.note(ci.Pos, "the datagram can not be decoded")
	outs = append(outs, Outcome{st: bad, ret: []*V{e.newErr(bad, ci)}})
	pac := ci.Args[0]
	fill := func(s *State, status *V) {
		e.set(s, pac, ro.pktStatus, status)
		id := e.freshA(s, "wireID", ro.pktID.Type(), symKey{tag: "wireID"})
		s.setBnd(e, id, iv{0, ro.limit - 1})
		e.set(s, pac, ro.pktID, id)
		data := e.freshA(s, "wireData", ro.pktData.Type(), symKey{tag: "wireData"})
		e.set(s, pac, ro.pktData, data)
		s.mon["wireID"] = id
		s.mon["wireData"] = data
		s.mon["pac"] = pac
		s.mon["status"] = status
		outs = append(outs, Outcome{st: s, ret: []*V{e.in.Nil()}})
	}
	all := []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x84}
	for _, n := range m.statuses {
		s := st.clone()
		s.note(ci.Pos, fmt.Sprintf("the datagram has status %#x", n))
		fill(s, e.in.Int(n, nil))
	}
	if m.other {
		s := st.clone()
		v := e.freshA(s, "wireStatus", ro.pktStatus.Type(), symKey{tag: "wireStatus"})
		s.setBnd(e, v, iv{0, 255})
		for _, n := range all {
			e.assume(s, e.mkEq(v, e.in.Int(n, nil)), false)
		}
		s.note(ci.Pos, "the datagram has an unknown status")
		fill(s, v)
	}
	return outs
}

// chanOfCrypt is the connection that embeds the crypt value
func chanOfCrypt(c *V, ro *roles) *V {
	if c == nil {
		return nil
	}
	if f := loadedFrom(c); f != nil {
		return baseOf(c.args[0])
	}
	return baseOf(c)
}

func (m *recvMon) decrypt(e *Eng, st *State, ci *CallInfo, name string) []Outcome {
	ro := m.ro
	data := ci.Args[len(ci.Args)-1]
	id := ci.Args[1]
	st.mon["decch"] = chanOfCrypt(ci.Args[0], ro)
	good := e.same(st, id, st.mon["wireID"]) && e.same(st, data, st.mon["wireData"])
	if m.onDecrypt != nil {
		m.onDecrypt(e, st, name, ci)
	}
	f := st.clone()
	f.note(ci.Pos, "decryption fails")
	e.monSet(f, "dec", 2)
	e.monSet(st, "dec", 1)
	if !good {
		e.monSet(st, "dec", 3) // something else was decrypted
	}
	out := e.freshA(st, "plain", ci.ResT.At(0).Type(), symKey{tag: "plain"})
	st.mon["plain"] = out
	fo := e.freshA(f, "undecoded", ci.ResT.At(0).Type(), symKey{tag: "undecoded"})
	return []Outcome{{st: st, ret: []*V{out, e.in.Nil()}}, {st: f, ret: []*V{fo, e.newErr(f, ci)}}}
}

func (m *recvMon) distance(e *Eng, st *State, ci *CallInfo, name string) []Outcome {
	if m.onDist != nil {
		m.onDist(e, st, name, ci)
	}
	exp, id := ci.Args[1], ci.Args[2]
	half := m.ro.limit / 2
	var outs []Outcome
	for i, b := range []iv{{-half, -1}, {0, 0}, {1, half - 1}} {
		s := st
		if i < 2 {
			s = st.clone()
		}
		if !e.assume(s, e.mkEq(exp, id), i == 1) {
			continue
		}
		var v *V
		if i == 1 {
			v = e.in.Int(0, nil)
		} else {
			v = e.freshA(s, "dist", tInt, symKey{instr: ci.Instr, ctx: ci.Ctx, tag: fmt.Sprint("dist", i)})
			s.setBnd(e, v, b)
		}
		if e.same(s, id, s.mon["wireID"]) {
			e.monSet(s, "dist", int64(i)-1+2) // 1 behind, 2 equal, 3 ahead
			s.mon["distexp"] = exp
		}
		s.note(ci.Pos, []string{"the number is behind the expected one", "the number is the expected one", "the number is ahead of the expected one"}[i])
		outs = append(outs, Outcome{st: s, ret: []*V{v}})
	}
	return outs
}

// sentItem gives channel and packet of an item sent on one of the queues
func sentItem(e *Eng, st *State, v *V, ro *roles) (ch, pac, err *V) {
	if v == nil {
		return
	}
	t := v.typ
	if v.kind != KStruct || t == nil {
		return
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		switch {
		case types.Identical(s.Field(i).Type(), types.NewPointer(ro.channel)):
			ch = v.args[i]
		case types.Identical(s.Field(i).Type(), types.NewPointer(ro.packet)):
			pac = v.args[i]
		case s.Field(i).Type().String() == "error":
			err = v.args[i]
		}
	}
	return
}

// serveConnected: the goroutine that reads datagrams hands every datagram it
// read to the handler
func serveConnected(r *Report, ro *roles) {
	fns := r.p.listenerFns()
	if len(fns) == 0 {
		r.fail("no goroutine that reads datagrams was found")
		return
	}
	for _, f := range fns {
		calls := 0
		rule := &Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
			OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
				if ci.Callee != ro.serve {
					return nil, false
				}
				calls++
				c := instrName(ci.In, ci.Instr)
				n, addr, buf := st.mon["n"], st.mon["addr"], st.mon["buf"]
				got := ci.Args[len(ci.Args)-1]
				okA := false
				for _, a := range ci.Args {
					okA = okA || a == addr
				}
				same := n != nil && buf != nil && e.same(st, e.lenOf(st, got, nil), n) && sliceBase(got) == sliceBase(buf) && e.sliceLow(got) == 0
				r.ob(okA && same, "deliver", c, ci.Pos, st, "the handler does not get exactly the bytes and the address that were read")
				delete(st.mon, "n")
				return []Outcome{{st: st}}, true
			},
			OnEvent: func(e *Eng, st *State, ev *Event) {
				if ev.Kind == EvInvoke && ev.Name == "(net.PacketConn).ReadFrom" {
					c := instrName(ev.In, ev.Instr)
					if old := st.mon["n"]; old != nil {
						r.ob(e.bounds(st, old).hi <= 0, "deliver", c, ev.Pos, st, "a datagram that was read is dropped before the handler sees it")
					}
					delete(st.mon, "n")
					if ev.Hit == 1 && ev.Res != nil && ev.Res.kind == KTuple {
						st.mon["n"], st.mon["addr"], st.mon["buf"] = ev.Res.args[0], ev.Res.args[1], ev.Args[1]
						bl := e.lenOf(st, ev.Args[1], nil)
						r.ob(e.bounds(st, bl).lo >= 65507, "buffer", c, ev.Pos, st, "a datagram may be longer than the buffer it is read into")
					}
				}
			},
		}
		r.run(rule, listenerRoot(f))
		if calls == 0 {
			r.fail("%s does not call the datagram handler", f)
		}
	}
	r.atLeast("deliver", 1)
	r.atLeast("buffer", 1)
}

func sliceBase(v *V) *V {
	for v != nil && v.kind == KOp && v.op == "slice" {
		v = v.args[0]
	}
	return v
}

func (e *Eng) sliceLow(v *V) int64 {
	if v.kind == KOp && v.op == "slice" {
		if n, ok := v.args[1].intVal(); ok {
			return n
		}
		return -1
	}
	return 0
}

// ---------------------------------------------------------------- C02

func init() {
	register(&Check{
		ID: "C02", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow (go/ssa) of the datagram handler",
		Note:        "On every path of the datagram handler the acknowledgements put on the sender queue are compared with what arrived: exactly one, same connection and number, for data that decrypted; none otherwise.",
		Assumptions: []string{"decoding, decryption, number comparison and reassembly are primitive steps (decided by C04, S01, C05, C06)", "the sender goroutine writes queued packets (decided by C03)"},
		NotCovered:  "whether the network delivers the acknowledgement.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Every path of the datagram handler is enumerated per status byte. A data datagram that decrypts under the key of the connection registered for its address is followed by exactly one queued acknowledgement with that datagram's number on that connection, unless the endpoint or connection is found closed; every other path queues none. The receiving goroutine hands each datagram it read, whole and with its address, to the handler.")
			serveConnected(r, ro)
			ack := ro.status("statusAck", 5)
			m := &recvMon{r: r, ro: ro, statuses: []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x84}, other: true}
			m.onDecrypt = func(e *Eng, st *State, c string, ci *CallInfo) {
				r.ob(e.same(st, st.mon["decch"], st.mon["ch"]), "connection", c, ci.Pos, st, "the datagram is not decrypted by the connection it belongs to")
				k := st.mon["chkey"]
				ok := k != nil && k.kind == KOp && k.op == "call:String" && k.args[0].kind == KSym && k.args[0].op == addrParam(ro.serve)
				r.ob(ok, "address", c, ci.Pos, st, "the connection was not looked up under the sender's address")
			}
			m.onEvent = func(e *Eng, st *State, ev *Event) {
				if ev.Kind == EvInvoke && (ev.Name == "(net.PacketConn).WriteTo") {
					r.ob(false, "direct", instrName(ev.In, ev.Instr), ev.Pos, st, "the handler writes to the socket itself: what it writes is not decided")
				}
			}
			m.onSend = func(e *Eng, st *State, ev *Event) {
				if loadedFrom(ev.Addr) != ro.senderCh {
					return
				}
				c := instrName(ev.In, ev.Instr)
				ch, pac, _ := sentItem(e, st, ev.Val, ro)
				s := e.get(st, pac, ro.pktStatus)
				if s == nil {
					r.ob(false, "status", c, ev.Pos, st, "the status of a queued packet is not decided")
					return
				}
				if e.differs(st, s, e.in.Int(ack, nil)) {
					return
				}
				if !r.ob(e.isConst(st, s, ack), "status", c, ev.Pos, st, "a queued packet may or may not be an acknowledgement") {
					return
				}
				r.ob(m.isData(st), "onlydata", c, ev.Pos, st, "an acknowledgement is sent for a datagram that is not data")
				r.ob(monI(st, "dec") == 1, "decrypted", c, ev.Pos, st, "an acknowledgement is sent for a datagram that was not decrypted")
				r.ob(e.same(st, ch, st.mon["ch"]) && e.same(st, ch, st.mon["decch"]), "channel", c, ev.Pos, st, "the acknowledgement goes to another connection")
				r.ob(e.same(st, e.get(st, pac, ro.pktID), st.mon["wireID"]), "number", c, ev.Pos, st, "the acknowledgement carries %s instead of the datagram's own number", desc(e.get(st, pac, ro.pktID)))
				r.ob(monI(st, "acks") == 0, "once", c, ev.Pos, st, "a second acknowledgement is sent for one datagram")
				e.monSet(st, "acks", monI(st, "acks")+1)
			}
			m.onReturn = func(e *Eng, st *State) {
				if m.isData(st) && monI(st, "dec") == 1 && !isDead(st) {
					r.ob(monI(st, "acks") == 1, "acknowledged", "return of "+fnName(ro.serve), ro.serve.Pos(), st, "a data datagram that decrypted is not acknowledged")
				}
				if s, ok := m.status(st); ok && m.isData(st) && st.mon["ch"] != nil {
					r.ob(monI(st, "dec") > 0, "attempted", fmt.Sprintf("status %#x", s), ro.serve.Pos(), st, "a data datagram of a live connection is not decrypted")
				}
			}
			r.run(m.rule(), listenerRoot(ro.serve))
			r.atLeast("onlydata", 1)
			r.atLeast("acknowledged", 1)
			r.atLeast("attempted", 2)
			r.atLeast("connection", 1)
			r.atLeast("address", 1)
		},
	})
}

// addrParam is the name of the address parameter of the handler
func addrParam(f *ssa.Function) string {
	for _, p := range f.Params {
		if p.Type().String() == "net.Addr" {
			return p.Name()
		}
	}
	return ""
}
