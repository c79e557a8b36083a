package main

// L04-L06, A06, A07: creating, connecting and closing endpoints.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hasChan: one of the channels was loaded from the field
func hasChan(l []*V, f *types.Var) bool {
	for _, a := range l {
		if loadedFrom(a) == f {
			return true
		}
	}
	return false
}

// notNil strips negations of a condition
func stripNot(cond *V, taken bool) (*V, bool) {
	for cond.kind == KOp && cond.op == "not" {
		cond, taken = cond.args[0], !taken
	}
	return cond, taken
}

// callersPlus are the functions and the functions that call them directly
func (p *Program) callersPlus(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, u := range p.callersOf()[f] {
		out = append(out, u.Parent())
	}
	return out
}

// timersOf are the functions of timers that are stored in the field
func (p *Program) timersOf(fld *types.Var) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	all, arm := p.timerBodies(func(f *ssa.Function) bool { return true })
	_ = all
	for _, a := range arm {
		ok := false
		for _, f := range p.callersPlus(a) {
			ok = ok || storesField(f, fld)
		}
		if !ok {
			continue
		}
		for b := range all {
			if b.Parent() == a {
				out[b] = true
			}
			for _, blk := range a.Blocks {
				for _, i := range blk.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && fullName(c.Common().StaticCallee()) == "time.AfterFunc" {
						if m, ok := c.Common().Args[1].(*ssa.MakeClosure); c.Common().Args[1] == ssa.Value(b) || ok && m.Fn == ssa.Value(b) {
							out[b] = true
						}
					}
				}
			}
		}
	}
	return out
}

// receiverEnds follows a goroutine after it learned that the endpoint was
// closed: it must not go on with its work
type stopMon struct {
	r  *Report
	ro *roles
}

func (m *stopMon) event(e *Eng, st *State, ev *Event) {
	c := instrName(ev.In, ev.Instr)
	work := ""
	switch ev.Kind {
	case EvRecv:
		if loadedFrom(ev.Addr) == m.ro.listenStop {
			if monI(st, "stop") == 1 {
				m.r.ob(false, "ends", c, ev.Pos, st, "the goroutine goes on after it found the endpoint closed")
			}
			e.monSet(st, "stop", 1)
			e.monSet(st, "polled", 1)
			if ev.Ok != nil {
				e.assume(st, ev.Ok, false) // nothing is ever sent on this channel
			}
			return
		}
		if !ev.Default {
			work = "receives"
		}
	case EvDefault:
		if hasChan(ev.Alts, m.ro.listenStop) {
			if monI(st, "stop") == 1 {
				st.dead = true // a closed channel is always ready
				return
			}
			e.monSet(st, "polled", 1)
		}
	case EvSend:
		work = "sends"
	case EvInvoke:
		if ev.Name == "(net.PacketConn).ReadFrom" {
			m.r.ob(monI(st, "polled") == 1, "polls", c, ev.Pos, st, "the next datagram is read without looking whether the endpoint was closed: the goroutine never ends")
			delete(st.mon, "polled")
			work = "reads"
		}
	}
	if work != "" {
		m.r.ob(monI(st, "stop") == 0, "ends", c, ev.Pos, st, "the goroutine %s after it found the endpoint closed", work)
	}
}

func init() {
	register(&Check{
		ID: "L04", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow with lock sets (go/ssa): closing an endpoint, and every blocking hand-over and goroutine it must release",
		Note:        "On every path of closing: a test-and-set under a lock decides; the path that wins notifies the global reader, closes every connection registered after that point, closes the socket and the stop channel once, and stops the statistic timer; other paths do nothing. Every blocking hand-over and every goroutine of the endpoint looks at the stop channel; connections are registered and the statistic timer is armed only after finding the endpoint open under the same lock.",
		Assumptions: []string{"closing a socket makes a blocked read return", "mutexes exclude each other; accesses are under their locks (K01)"},
		NotCovered:  "readers that panic or never return.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			cl := r.p.lookupFunc("tru", "(*Tru).Close")
			if cl == nil {
				r.fail("(*Tru).Close not found")
				return
			}
			r.rule("Close: the closed mark is stored true only in a critical section that found it false. On the path that stored it: the global reader is called with the closed error or found nil; the table of connections is ranged over afterwards and every connection taken from it is marked destroyed or found so before the next is taken; the stop channel is closed exactly once; the socket is closed; the statistic timer is found nil or stopped and cleared under a lock after the mark. On a path that found the mark set, none of these is done. Everywhere: sends and receives on the queues that may block have the stop channel as alternative; a goroutine of the endpoint that received from the stop channel does not receive, send or read again, and the listening goroutine looks at the stop channel between two reads; a connection is registered and the statistic timer is armed only in a critical section that found the endpoint open (for re-arming: found its own timer still current).")
			done := []string{"rd", "rng", "stopc", "sock", "timer"}
			rule := &Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnFork: func(e *Eng, st *State, cond *V, taken bool) {
					if x, isNil, ok := nilFork(cond, taken); ok && isNil && monI(st, "win") == 1 {
						switch loadedFrom(x) {
						case ro.truReader:
							e.monSet(st, "rd", 1)
						case ro.truTimer:
							e.monSet(st, "timer", 3)
						}
					}
					cond, taken = stripNot(cond, taken)
					switch loadedFrom(cond) {
					case ro.truClosed:
						if taken {
							e.monSet(st, "lost", 1)
						} else if heldWrite(st) {
							critSet(e, st, "open", e.in.Int(1, nil))
						}
					case ro.destroyed:
						if taken && monI(st, "pend") == 1 {
							e.monSet(st, "pend", 0)
							e.monSet(st, "some", 2)
						}
					}
				},
				OnEvent: func(e *Eng, st *State, ev *Event) {
					c := instrName(ev.In, ev.Instr)
					won := monI(st, "win") == 1
					act := func(k string, n int64) {
						r.ob(won, "idle", c, ev.Pos, st, "this is done by a call that did not close the endpoint itself, or before it is marked closed")
						e.monSet(st, k, n)
					}
					take := func(ch *V) {
						if l := e.ghost(st, "taken"); l != nil && monI(st, "pend") == 1 && (l == ch || e.same(st, l, ch)) {
							return
						}
						e.setGhost(st, "taken", ch)
						r.ob(monI(st, "pend") == 0, "every", c, ev.Pos, st, "a connection taken from the table is left open")
						e.monSet(st, "pend", 1)
					}
					switch ev.Kind {
					case EvStore:
						switch addrField(ev.Addr) {
						case ro.truClosed:
							if v, ok := ev.Val.boolVal(); ok && v && e.truth(st, e.load(st, ev.Addr, ro.truClosed.Type())) != 1 {
								r.ob(heldWrite(st) && monI(st, "cs:open") == 1, "first", c, ev.Pos, st, "the endpoint is marked closed without finding it open under the same lock: two closes both go on")
								e.monSet(st, "win", 1)
							}
						case ro.truTimer:
							if e.isNil(st, ev.Val) == 1 && won && monI(st, "timer") == 1 && heldWrite(st) {
								e.monSet(st, "timer", 3)
							}
						case ro.destroyed:
							if v, ok := ev.Val.boolVal(); ok && v && monI(st, "pend") == 1 {
								e.monSet(st, "pend", 0)
								e.monSet(st, "some", 2)
							}
						}
					case EvDyn:
						if loadedFrom(ev.Fn) == ro.truReader && len(ev.Args) == 3 && strings.Contains(globalName(ev.Args[2]), "ErrTruClosed") {
							r.ob(monI(st, "rd") == 0, "once", c, ev.Pos, st, "the global reader is told twice that the endpoint is closed")
							act("rd", 1)
						}
					case EvRange:
						if loadedFrom(ev.Addr) == ro.chans && won {
							e.monSet(st, "rng", 1)
						}
					case EvLookup:
						// a step of ranging over the table that finds a connection
						if _, ok := ev.Instr.(*ssa.Next); ok && loadedFrom(ev.Addr) == ro.chans && won && monI(st, "some") == 0 {
							e.monSet(st, "some", 1)
						}
					case EvLoad:
						if ev.Addr.kind == KIndex && ev.Val != nil && types.Identical(ev.Type, types.NewPointer(ro.channel)) && won {
							take(ev.Val)
						}
					case EvClose:
						if loadedFrom(ev.Addr) == ro.listenStop {
							r.ob(monI(st, "stopc") == 0, "once", c, ev.Pos, st, "the stop channel is closed twice")
							act("stopc", 1)
						}
					case EvInvoke:
						if ev.Name == "(net.PacketConn).Close" && loadedFrom(ev.Args[0]) == ro.truConn {
							act("sock", 1)
						}
					case EvCall:
						if ev.Name == "(*time.Timer).Stop" && loadedFrom(ev.Args[0]) == ro.truTimer {
							if heldWrite(st) {
								act("timer", 1)
							}
						}
					case EvUnlock:
						if monI(st, "timer") == 1 {
							r.ob(false, "timer", c, ev.Pos, st, "the statistic timer is stopped but not cleared when the lock is released: its function arms it again")
						}
					}
					critical(e, st, ev)
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(t.Fn)
					if monI(st, "win") == 0 {
						r.ob(monI(st, "lost") == 1, "decides", c, cl.Pos(), st, "close returns without closing the endpoint and without finding it closed")
						return
					}
					txt := map[string]string{"rd": "the global reader is not told that the endpoint is closed", "rng": "the connections are not closed", "stopc": "the stop channel is not closed", "sock": "the socket is not closed", "timer": "the statistic timer is not stopped"}
					for _, k := range done {
						r.ob(monI(st, k) != 0, "done:"+k, c, cl.Pos(), st, "%s", txt[k])
					}
					r.ob(monI(st, "pend") == 0, "every", c, cl.Pos(), st, "a connection taken from the table is left open")
					r.ob(monI(st, "some") != 1, "every", c, cl.Pos(), st, "a registered connection is left open")
				},
			}
			r.run(rule, apiRoot(cl))
			for _, n := range []string{"first", "idle", "every", "decides"} {
				r.atLeast(n, 1)
			}

			// goroutines of the endpoint
			n := 0
			takes := r.p.reaches(func(f *ssa.Function) bool {
				return receives(ro.readerCh)(f) || receives(ro.senderCh)(f)
			})
			listens := map[*ssa.Function]bool{}
			for _, f := range r.p.listenerFns() {
				listens[f] = true
			}
			for _, f := range r.p.goTargets() {
				if !takes(f) && !listens[f] {
					continue
				}
				n++
				m := &stopMon{r: r, ro: ro}
				pr := newPrims(ro)
				rule := &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
						if ci.Callee == ro.serve {
							return []Outcome{{st: st}}, true
						}
						return pr.call(e, st, ci)
					},
					OnEvent: m.event,
				}
				if listens[f] {
					r.run(rule, listenerRoot(f))
				} else {
					r.run(rule, apiRoot(f))
				}
			}
			if n == 0 {
				r.fail("no goroutine of the endpoint was found")
			}
			r.atLeast("ends", 1)
			r.atLeast("polls", 1)

			// blocking hand-overs, registration and timer, on every goroutine
			var accept *types.Var
			if t := r.p.structType("tru", "Trunet"); t != nil {
				accept = deepField(t, "accept")
			}
			queues := map[*types.Var]bool{ro.readerCh: true, ro.senderCh: true}
			if accept != nil {
				queues[accept] = true
			}
			isQueue := func(v ssa.Value) bool { f := ssaLoadField(v); return f != nil && queues[f] }
			bodies := r.p.timersOf(ro.truTimer)
			keep := r.p.reaches(func(f *ssa.Function) bool {
				if sendsOn(isQueue)(f) || storesField(f, ro.truTimer) {
					return true
				}
				for q := range queues {
					if receives(q)(f) {
						return true
					}
				}
				return false
			})
			makes := map[*ssa.Function]bool{}
			for _, f := range r.p.makers(ro) {
				makes[f] = true
			}
			keep2 := r.p.reaches(func(f *ssa.Function) bool { return makes[f] })
			r.runThreads(func(q *Report) *Rule {
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnFork: func(e *Eng, st *State, cond *V, taken bool) {
						if len(st.locks) == 0 {
							return
						}
						cond, taken = stripNot(cond, taken)
						if loadedFrom(cond) == ro.truClosed && !taken {
							critSet(e, st, "open", e.in.Int(1, nil))
						}
						if cond.kind == KOp && cond.op == "eq" {
							for i, a := range cond.args {
								if loadedFrom(a) == ro.truTimer {
									if b := cond.args[1-i]; e.isNil(st, b) == 1 && !taken || e.isNil(st, b) != 1 && taken {
										critSet(e, st, "mine", e.in.Int(1, nil))
									}
								}
							}
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						switch ev.Kind {
						case EvSend, EvRecv:
							if f := loadedFrom(ev.Addr); f != nil && queues[f] && ev.Block {
								q.ob(hasChan(ev.Alts, ro.listenStop), "released", c+" "+f.Name(), ev.Pos, st, "a goroutine that waits on %s is not released when the endpoint is closed", f.Name())
							}
						case EvMapUpdate:
							if loadedFrom(ev.Addr) == ro.chans {
								q.ob(monI(st, "cs:open") == 1 && heldWrite(st), "registers", c, ev.Pos, st, "a connection is registered without finding the endpoint open under the same lock: close does not see it")
							}
						case EvStore:
							if addrField(ev.Addr) == ro.truTimer && e.isNil(st, ev.Val) != 1 {
								q.ob(monI(st, "cs:open") == 1 && heldWrite(st), "arms", c, ev.Pos, st, "the statistic timer is started without finding the endpoint open under the same lock")
							}
						case EvCall:
							if ev.Name == "(*time.Timer).Reset" && (loadedFrom(ev.Args[0]) == ro.truTimer || e.root != nil && e.root.Kind == "timer" && bodies[e.root.Fn]) {
								q.ob(monI(st, "cs:mine") == 1, "arms", c, ev.Pos, st, "the statistic timer is armed again without looking, under the lock, whether it was stopped")
							}
						}
						critical(e, st, ev)
					},
				}
			}, func(f *ssa.Function) bool { return keep(f) || keep2(f) })
			r.atLeast("released", 1)
			r.atLeast("registers", 1)
			r.atLeast("arms", 1)
		},
	})
}

var _ = token.NoPos

// ---------------------------------------------------------------- L05

func init() {
	register(&Check{
		ID: "L05", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow (go/ssa) of the constructor, with a split at every step that can fail",
		Note:        "On every path of the constructor, each fallible step failing in turn: an error result means no goroutine or timer was started and an opened socket was closed; no error means socket, tables and channels are set and the listener, reader and sender goroutines run; each goroutine is started only when what it uses is set.",
		Assumptions: []string{"a fallible call of the standard library fails or gives a usable result"},
		NotCovered:  "running out of memory or goroutines.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			nw := r.p.lookupFunc("tru", "New")
			if nw == nil {
				r.fail("New not found")
				return
			}
			r.rule("Paths of New, split at every fallible step. At a return whose error is not nil: no go statement and no time.AfterFunc was executed on the path, and if net.ListenPacket (or another opener of a packet connection) succeeded its connection was closed. At a return whose error is nil: the endpoint returned is the one created here, its socket, channel table, pending table, stop channel and queues are not nil, the socket was not closed, and goroutines that read datagrams, take from the reader queue and take from the sender queue were started exactly once each. At every go statement: every field of the endpoint among these that the goroutine's code uses is not nil.")
			type fu struct {
				f *types.Var
				u func(*ssa.Function) bool
			}
			var uses []fu
			for _, f := range []*types.Var{ro.chans, ro.connects, ro.readerCh, ro.senderCh, ro.listenStop, ro.truConn, ro.truKey} {
				f := f
				uses = append(uses, fu{f, r.p.reaches(func(g *ssa.Function) bool { return loadsField(g, f) })})
			}
			listens := map[*ssa.Function]bool{}
			for _, f := range r.p.listenerFns() {
				listens[f] = true
			}
			kinds := map[string]func(*ssa.Function) bool{
				"listener": r.p.reaches(func(g *ssa.Function) bool { return listens[g] }),
				"reader":   r.p.reaches(receives(ro.readerCh)),
				"sender":   r.p.reaches(receives(ro.senderCh)),
			}
			field := func(e *Eng, st *State, obj *V, f *types.Var) *V {
				if f == ro.connects {
					for _, emb := range []string{"connect"} {
						if c := deepField(ro.tru, emb); c != nil {
							return e.get(st, e.addrOf(obj, c), f)
						}
					}
				}
				return e.get(st, obj, f)
			}
			rule := &Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnEvent: func(e *Eng, st *State, ev *Event) {
					c := instrName(ev.In, ev.Instr)
					switch ev.Kind {
					case EvCall:
						if ev.Hit == 1 && ev.Res != nil && ev.Res.kind == KTuple && len(ev.Res.args) == 2 && strings.HasPrefix(ev.Name, "net.Listen") {
							st.mon["sock"] = ev.Res.args[0]
						}
					case EvInvoke:
						if ev.Name == "(net.PacketConn).Close" {
							e.monSet(st, "closed", 1)
						}
					case EvGo, EvTimer:
						e.monSet(st, "started", 1)
						if ev.Callee == nil {
							break
						}
						for k, is := range kinds {
							if is(ev.Callee) {
								r.ob(monI(st, "go:"+k) == 0, "one", c+" "+k, ev.Pos, st, "two %s goroutines are started", k)
								e.monSet(st, "go:"+k, 1)
							}
						}
						obj := st.mon["obj"]
						if obj == nil {
							break
						}
						for _, u := range uses {
							// a value stored here, not one that the field is
							// known to have in finished endpoints only; others do
							// not change these fields, so they keep it from here on
							if v := field(e, st, obj, u.f); v != nil && loadedFrom(v) != u.f && e.isNil(st, v) == 0 {
								e.monSet(st, "nn:"+u.f.Name(), 1)
							}
							if !u.u(ev.Callee) {
								continue
							}
							r.ob(monI(st, "nn:"+u.f.Name()) == 1, "ready", c+" "+u.f.Name(), ev.Pos, st, "the goroutine started here uses %s before it is set", u.f.Name())
						}
					case EvStore:
						b := rootBase(ev.Addr)
						if b.kind != KObj || b.typ == nil {
							break
						}
						if n := derefNamed(b.typ); n == ro.tru {
							st.mon["obj"] = b
							if f := addrField(ev.Addr); f != nil {
								if e.isNil(st, ev.Val) == 0 {
									e.monSet(st, "nn:"+f.Name(), 1)
								} else {
									delete(st.mon, "nn:"+f.Name())
								}
							}
						}
					}
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(t.Fn)
					switch e.isNil(st, ret[1]) {
					case 1:
						r.ob(ret[0] == st.mon["obj"] && ret[0] != nil, "result", c, nw.Pos(), st, "without error the result is %s, not the endpoint created here", desc(ret[0]))
						for _, u := range uses {
							ok := monI(st, "nn:"+u.f.Name()) == 1
							if !ok && st.mon["obj"] != nil {
								v := field(e, st, st.mon["obj"], u.f)
								ok = v != nil && loadedFrom(v) != u.f && e.isNil(st, v) == 0
							}
							if u.f == ro.truKey {
								continue
							}
							r.ob(ok, "set", c+" "+u.f.Name(), nw.Pos(), st, "a working endpoint is returned without %s", u.f.Name())
						}
						for k := range kinds {
							r.ob(monI(st, "go:"+k) == 1, "runs", c+" "+k, nw.Pos(), st, "a working endpoint is returned without its %s goroutine", k)
						}
						r.ob(st.mon["sock"] != nil && monI(st, "closed") == 0, "open", c, nw.Pos(), st, "a working endpoint is returned without an open socket")
					case 0:
						r.ob(monI(st, "started") == 0, "nothing", c, nw.Pos(), st, "an error is returned but a goroutine or timer of the endpoint runs")
						r.ob(st.mon["sock"] == nil || monI(st, "closed") == 1, "socket", c, nw.Pos(), st, "an error is returned but the socket stays open")
					default:
						r.ob(false, "result", c, nw.Pos(), st, "the error returned may be nil or not: %s", desc(ret[1]))
					}
				},
			}
			r.run(rule, apiRoot(nw))
			for _, n := range []string{"one", "ready", "result", "set", "runs", "open", "nothing", "socket"} {
				r.atLeast(n, 1)
			}
		},
	})
}

// derefNamed gives the named type a pointer type points to
func derefNamed(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// ---------------------------------------------------------------- L06

func timerChan(v *V) bool {
	return v != nil && v.typ != nil && strings.Contains(v.typ.String(), "chan time.Time")
}

func init() {
	register(&Check{
		ID: "L06", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow (go/ssa): the connecting call and the handshake answers",
		Note:        "On every path of a connect: the pending entry is added before the request is sent and removed before the call returns; the wait has the stop channel and a constant timeout as alternatives; the result is the connection of the received item and no error, or no connection and an error, in which case a half-open connection is destroyed. In the datagram handler a connection is given to a pending attempt only after its session key is set, and the waiting caller is answered without blocking and only with a connection.",
		Assumptions: []string{"time.After and timers fire after their duration", "accesses are under their locks (K01)"},
		NotCovered:  "connections destroyed between the answer and the return.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			cn := r.p.lookupFunc("tru", "(*Tru).Connect")
			if cn == nil {
				r.fail("(*Tru).Connect not found")
				return
			}
			r.rule("Connect: a datagram is written only after a pending entry was added on the path; every added key is removed (or found absent) under a lock before return; every receive from the wait channel of the entry that may block has the stop channel and a timer channel of constant duration not above ClientConnectTimeout as alternatives; the wait channel is made with a buffer and not closed (or closed and sent on under locks); at a return with error the connection is nil and the entry's connection was read after the removal under the same lock and marked destroyed, found destroyed or found nil; at a return without error the connection is the one in the item received on the wait channel. Datagram handler: a store of the connection into a pending entry is preceded by the store of a session key into that connection; a send on a wait channel does not block and its item carries a connection known not to be nil.")
			isWait := func(v *V) bool {
				if v == nil {
					return false
				}
				return loadedFrom(v) == ro.cdWch || v.typ != nil && types.Identical(v.typ.Underlying(), ro.cdWch.Type().Underlying())
			}
			// the longest wait: what the package promises, or a minute
			limit := int64(60e9)
			if o, ok := r.p.pkgs["tru"].Pkg.Scope().Lookup("ClientConnectTimeout").(*types.Const); ok {
				if n, ok := constant.Int64Val(constant.ToInt(o.Val())); ok && n > 0 && n < limit {
					limit = n
				}
			}
			// how wait channels are made and closed
			closes := ""
			for f := range r.p.allFuncs() {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.MakeChan:
							if types.Identical(x.Type().Underlying(), ro.cdWch.Type().Underlying()) {
								n, ok := x.Size.(*ssa.Const)
								r.ob(!ok || n.Int64() >= 1, "buffered", instrName(f, x), x.Pos(), nil, "the wait channel has no buffer: an answer that arrives before the caller waits is lost")
							}
						case ssa.CallInstruction:
							if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && len(x.Common().Args) == 1 && types.Identical(x.Common().Args[0].Type().Underlying(), ro.cdWch.Type().Underlying()) {
								closes = instrName(f, in)
							}
						}
					}
				}
			}
			pr := newPrims(ro)
			r.run(&Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnCall:  pr.call,
				OnFork: func(e *Eng, st *State, cond *V, taken bool) {
					if x, isNil, ok := nilFork(cond, taken); ok && isNil && (loadedFrom(x) == ro.cdCh || x == st.mon["half"]) && monI(st, "removed") == 1 {
						e.monSet(st, "half0", 1)
					}
					if ch, set := destroyedFork(ro, cond, taken); ch != nil && set && monI(st, "removed") == 1 && ch == st.mon["half"] {
						e.monSet(st, "half0", 1)
					}
				},
				OnEvent: func(e *Eng, st *State, ev *Event) {
					c := instrName(ev.In, ev.Instr)
					switch ev.Kind {
					case EvMapUpdate:
						if loadedFrom(ev.Addr) == ro.connects {
							r.ob(monI(st, "added") == 0, "entry", c, ev.Pos, st, "two pending entries are added")
							e.monSet(st, "added", 1)
							st.mon["key"] = ev.Key
						}
					case EvMapDelete:
						if loadedFrom(ev.Addr) == ro.connects {
							r.ob(st.mon["key"] != nil && e.same(st, ev.Key, st.mon["key"]), "entry", c, ev.Pos, st, "the entry of another attempt is removed")
							e.monSet(st, "removed", 1)
						}
					case EvLookup:
						if loadedFrom(ev.Addr) == ro.connects && st.mon["key"] != nil && e.same(st, ev.Key, st.mon["key"]) && ev.Hit != 1 {
							e.monSet(st, "removed", 1)
							e.monSet(st, "half0", 1)
						}
					case EvLoad:
						// the connection as it was when the entry was removed
						if addrField(ev.Addr) == ro.cdCh && len(st.locks) > 0 {
							st.mon["half"] = ev.Val
							critSet(e, st, "half", ev.Val)
							e.monSet(st, "half0", 0)
							if e.isNil(st, ev.Val) == 1 {
								e.monSet(st, "half0", 1)
							}
						}
					case EvUnlock:
						if st.mon["cs:half"] != nil && monI(st, "removed") == 0 && monI(st, "added") == 1 {
							r.ob(false, "late", c, ev.Pos, st, "the connection of the attempt is read before its entry is removed: an answer in between leaves it half-open")
						}
					case EvStore:
						if addrField(ev.Addr) == ro.destroyed {
							if v, ok := ev.Val.boolVal(); ok && v {
								r.ob(monI(st, "okret") == 0, "alive", c, ev.Pos, st, "")
								if rootBase(ev.Addr) == st.mon["half"] {
									e.monSet(st, "half0", 1)
								}
								e.monSet(st, "killed", 1)
							}
						}
					case EvInvoke:
						if ev.Name == "(net.PacketConn).WriteTo" && monI(st, "killed") == 0 {
							r.ob(monI(st, "added") == 1 && monI(st, "removed") == 0, "order", c, ev.Pos, st, "the request is sent while its attempt is not pending: the answer is lost")
							e.monSet(st, "sent", 1)
						}
					case EvRecv:
						if isWait(ev.Addr) {
							st.mon["item"] = ev.Val
							e.monSet(st, "sent", 1)
							tm := false
							for _, a := range ev.Alts {
								tm = tm || timerChan(a)
							}
							if ev.Block {
								r.ob(tm, "timeout", c, ev.Pos, st, "the wait for an answer has no timeout")
								r.ob(hasChan(ev.Alts, ro.listenStop), "closed", c, ev.Pos, st, "the wait for an answer is not ended by closing the endpoint")
							}
						}
					case EvCall:
						switch ev.Name {
						case "time.After", "time.NewTimer":
							n, ok := durConst(ev.Args[0])
							r.ob(ok && n > 0 && n <= limit, "duration", c, ev.Pos, st, "the timeout of a connect is %s", desc(ev.Args[0]))
						}
					}
					critical(e, st, ev)
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(t.Fn)
					if monI(st, "added") == 1 {
						r.ob(monI(st, "removed") == 1, "removed", c, cn.Pos(), st, "the pending entry stays when the connect ends")
					}
					ch, err := ret[0], ret[1]
					switch e.isNil(st, err) {
					case 1:
						from := loadedFrom(ch) == ro.cdCh
						r.ob(from && st.mon["item"] != nil && rootBase(ch.args[0]) == st.mon["item"], "result", c, cn.Pos(), st, "without error the connection returned is %s, not the one of the answer", desc(ch))
						r.ob(monI(st, "killed") == 0, "alive", c, cn.Pos(), st, "the connection is returned without error after it was destroyed")
					case 0:
						r.ob(e.isNil(st, ch) == 1, "neither", c, cn.Pos(), st, "an error is returned together with a connection")
						if monI(st, "added") == 1 {
							r.ob(monI(st, "half0") == 1, "half-open", c, cn.Pos(), st, "a failed connect leaves its half-open connection registered")
						}
					default:
						r.ob(false, "result", c, cn.Pos(), st, "the error returned may be nil or not: %s", desc(err))
					}
				},
			}, apiRoot(cn))
			for _, n := range []string{"entry", "order", "timeout", "closed", "duration", "removed", "result", "neither", "half-open"} {
				r.atLeast(n, 1)
			}
			// answers
			h := newHandshake(r, ro, ro.status("statusConnectServerAnswer", 1), ro.status("statusConnectDone", 3))
			h.onEvent = func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				switch ev.Kind {
				case EvStore:
					switch addrField(ev.Addr) {
					case nil:
					case ro.chCrypt:
						st.mon["crch"], st.mon["cr"] = rootBase(ev.Addr), ev.Val
					case ro.key:
						b := rootBase(ev.Addr)
						if b == st.mon["cr"] {
							st.mon["keyset"] = st.mon["crch"]
						} else if ch := chanOfCrypt(b, ro); ch != nil {
							st.mon["keyset"] = ch
						}
					case ro.cdCh:
						if e.shared(st, rootBase(ev.Addr)) {
							k := st.mon["keyset"]
							r.ob(k != nil && (k == ev.Val || e.same(st, k, ev.Val)), "keyed", c, ev.Pos, st, "a connection is given to a pending attempt before its session key is set")
						}
					}
				case EvSend:
					if isWait(ev.Addr) {
						r.ob(closes == "" || len(st.locks) > 0, "open", c, ev.Pos, st, "the wait channel may be closed (%s) when a late answer is sent on it", closes)
						r.ob(ev.Default, "blocks", c, ev.Pos, st, "a repeated answer blocks the datagram handler")
						ch := e.get(st, ev.Val, ro.cdCh)
						r.ob(ch != nil && (e.isNil(st, ch) == 0 || monI(st, "used") == 1), "answer", c, ev.Pos, st, "the waiting caller is answered with connection %s, which may be nil", desc(ch))
						n, ok := h.status(st)
						r.ob(ok && n == ro.status("statusConnectDone", 3), "done", c, ev.Pos, st, "the waiting caller is answered before the handshake is done")
						e.monSet(st, "answered", 1)
					}
				}
			}
			h.onReturn = func(e *Eng, st *State) {
				n, ok := h.status(st)
				if ok && n == ro.status("statusConnectDone", 3) && monI(st, "pend") == 1 && monI(st, "used") == 1 {
					r.ob(monI(st, "answered") == 1 || monI(st, "full") == 1, "told", "return of "+fnName(ro.serve), ro.serve.Pos(), st, "the waiting caller is not told that its handshake is done")
				}
			}
			rule := h.rule()
			own := rule.OnEvent
			rule.OnEvent = func(e *Eng, st *State, ev *Event) {
				if ev.Kind == EvDefault {
					for _, a := range ev.Alts {
						if isWait(a) {
							e.monSet(st, "full", 1)
						}
					}
				}
				own(e, st, ev)
			}
			r.run(rule, listenerRoot(ro.serve))
			for _, n := range []string{"keyed", "blocks", "answer", "told"} {
				r.atLeast(n, 1)
			}
		},
	})
}
