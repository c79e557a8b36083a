package main

// What a caller of a write gets back: the delivery callback (A03), its buffer
// (A04) and the errors (A05).

import (
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// delivery knows what calls a delivery callback
type delivery struct {
	ro     *roles
	sig    types.Type
	bodies map[*ssa.Function]bool
	within func(f *ssa.Function) bool // the function's own code calls one
}

func newDelivery(p *Program, ro *roles) *delivery {
	d := &delivery{ro: ro, sig: ro.pktDelivery.Type().Underlying()}
	d.bodies = p.timersOf(ro.pktTimer)
	d.within = func(f *ssa.Function) bool {
		if d.bodies[f] {
			return false
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if ok && c.Common().StaticCallee() == nil && !c.Common().IsInvoke() && d.is(c.Common().Value.Type()) {
					return true
				}
			}
		}
		return false
	}
	return d
}

func (d *delivery) is(t types.Type) bool { return t != nil && types.Identical(t.Underlying(), d.sig) }

// calls: the event calls a delivery callback, here or in the goroutine it starts
func (d *delivery) calls(ev *Event) (direct, ok bool) {
	switch ev.Kind {
	case EvDyn:
		return true, ev.Fn != nil && d.is(ev.Fn.typ)
	case EvGo:
		if ev.Fn != nil && ev.Callee == nil {
			return true, d.is(ev.Fn.typ)
		}
		return false, ev.Callee != nil && d.within(ev.Callee)
	}
	return false, false
}

func init() {
	register(&Check{
		ID: "A03", Level: "other", Prep: true,
		Technique:   "typestate of packet and delivery timer over path-sensitive interprocedural dataflow (go/ssa) of every goroutine and timer",
		Note:        "One token per packet, its delivery timer: armed once, before the packet can be answered; whoever wins the timer (its function, or the acknowledgement for which Stop returned true) calls the callback once, with a timeout error or without one; nobody else calls it.",
		Assumptions: []string{"(*time.Timer).Stop returns true to at most one caller and only if the timer function was not started", "encryption is a primitive step (S01)"},
		NotCovered:  "SetDelivery called by the application on packets of its own; what the callback does.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			d := newDelivery(r.p, ro)
			if len(d.bodies) == 0 {
				r.fail("no timer function was found for the delivery timer of packets")
				return
			}
			r.rule("Writes: when a packet that ends a message is recorded as unacknowledged on a path where a callback was given and found non-nil, its callback field holds it and its timer field holds a timer armed on this path with the delivery timer function and the given timeout (the default if none was given); no timer is armed and no callback is set on a path without callback or on a continued piece, and at most one timer is armed per write. Timer function: on every path exactly one call of a delivery callback, with the packet and a non-nil error. Everywhere else: a delivery callback is called only with a nil error on a path where Stop on that packet's delivery timer returned true, and then exactly once; a packet taken off the index of unacknowledged packets by its number has its timer stopped on that path unless it was found to have no callback. No delivery timer is reset, and timer and callback of a recorded packet are not replaced.")
			def, _ := r.p.constInt("DeliveryTimeout")
			for _, f := range writeRoots(r.p, ro) {
				a03Write(r, ro, d, f, def)
			}
			a03Calls(r, ro, d)
			for _, n := range []string{"armed", "given", "timeout", "once", "error", "licence", "settled", "body"} {
				r.atLeast(n, 1)
			}
		},
	})
}

func a03Write(r *Report, ro *roles, d *delivery, root *ssa.Function, def int64) {
	p := newPrims(ro)
	rule := &Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnCall:  p.call,
		OnFork: func(e *Eng, st *State, cond *V, taken bool) {
			if x, isNil, ok := nilFork(cond, taken); ok && x == st.mon["cbv"] && x != nil {
				if isNil {
					e.monSet(st, "cbnil", 1)
				} else {
					e.monSet(st, "cbset", 1)
				}
			}
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			pin(e, st, ev, ro.pktStatus, ro.pktDelivery, ro.pktTimer)
			if ev.Kind == EvStore && (addrField(ev.Addr) == ro.pktDelivery || addrField(ev.Addr) == ro.pktTimer) {
				e.monSet(st, "set:"+addrField(ev.Addr).Name(), 1)
			}
			c := instrName(ev.In, ev.Instr)
			switch ev.Kind {
			case EvIs, EvAssert:
				if ev.Kind == EvAssert || ev.Hit != 1 {
					break
				}
				if d.is(ev.Type) {
					e.monSet(st, "cb", 1)
					st.mon["cbv"] = ev.Res
					delete(st.mon, "cbnil")
					delete(st.mon, "cbset")
				} else if ev.Type.String() == "time.Duration" {
					e.monSet(st, "to", 1)
					st.mon["tov"] = ev.Res
				}
			case EvTimer:
				if ev.Callee == nil || !d.bodies[ev.Callee] {
					break
				}
				r.ob(monI(st, "arms") == 0, "once", c, ev.Pos, st, "two delivery timers are armed for one write")
				e.monSet(st, "arms", 1)
				r.ob(monI(st, "cb") > 0 && monI(st, "cbnil") == 0, "armed", c, ev.Pos, st, "a delivery timer is armed although no callback was given")
			case EvCall:
				if ev.Name == "time.AfterFunc" && ev.Args[1].kind == KFunc && d.bodies[ev.Args[1].aux.(*ssa.Function)] {
					if monI(st, "to") == 1 {
						r.ob(e.same(st, stripConv(ev.Args[0]), stripConv(st.mon["tov"])), "timeout", c, ev.Pos, st, "the delivery timer runs for %s, not for the given time", desc(ev.Args[0]))
					} else {
						n, ok := durConst(ev.Args[0])
						if monI(st, "to") == 2 && ev.Args[0] == st.mon["tov"] {
							break
						}
						r.ob(ok && n > 0 && (def == 0 || n == def), "timeout", c, ev.Pos, st, "without a given time the delivery timer runs for %s, not for the default %s", desc(ev.Args[0]), time.Duration(def))
					}
				}
				if (ev.Name == "(*container/list.List).PushBack" || ev.Name == "(*container/list.List).PushFront") && addrField(ev.Args[0]) == ro.sendList && len(ev.Args) > 1 {
					pac := unbox(ev.Args[1])
					s := pinned(e, st, pac, ro.pktStatus)
					of := func(f *types.Var) *V {
						if pac.kind == KObj && monI(st, "set:"+f.Name()) == 0 {
							return e.in.Nil()
						}
						return pinned(e, st, pac, f)
					}
					cb, tm := of(ro.pktDelivery), of(ro.pktTimer)
					timed := tm != nil && e.isNil(st, tm) == 0 && monI(st, "arms") == 1
					switch {
					case e.isConst(st, s, ro.status("statusDataNext", 0x84)):
						r.ob(cb == nil || e.isNil(st, cb) == 1, "piece", c, ev.Pos, st, "a piece that does not end the message has a delivery callback")
						r.ob(tm == nil || e.isNil(st, tm) == 1, "piece", c, ev.Pos, st, "a piece that does not end the message has a delivery timer")
					case monI(st, "cb") == 1 && monI(st, "cbnil") == 0:
						ok := r.ob(cb != nil && (cb == st.mon["cbv"] || e.same(st, cb, st.mon["cbv"])), "given", c, ev.Pos, st, "the packet is recorded with the callback %s, not with the one given: an acknowledgement or a timeout would not call it", desc(cb))
						if ok {
							r.ob(timed, "given", c, ev.Pos, st, "the packet is recorded before its delivery timer is armed")
						}
					case monI(st, "cb") == 2:
						// what was given is known from before the previous piece
						r.ob(cb == nil || e.isNil(st, cb) == 1 || cb == st.mon["cbv"] && timed, "given", c, ev.Pos, st, "the packet is recorded with the callback %s and without an armed timer", desc(cb))
					default:
						r.ob(cb == nil || e.isNil(st, cb) == 1 || monI(st, "cbnil") == 1 && cb == st.mon["cbv"], "given", c, ev.Pos, st, "no callback was given but the packet has %s", desc(cb))
					}
					for _, k := range []string{"cb", "to"} {
						if monI(st, k) == 1 {
							e.monSet(st, k, 2)
						}
					}
				}
			}
		},
	}
	r.run(rule, apiRoot(root))
}

func a03Calls(r *Report, ro *roles, d *delivery) {
	named := map[*ssa.Function]bool{}
	for _, f := range r.p.goTargets() {
		named[f] = d.within(f)
	}
	keep := r.p.reaches(func(f *ssa.Function) bool {
		if d.bodies[f] || loadsField(f, ro.pktTimer) || storesField(f, ro.pktTimer) || storesField(f, ro.pktDelivery) || deletesFrom(f, ro.sendIndex) {
			return true
		}
		return d.within(f)
	})
	passed := func(e *Eng, st *State) bool { return monI(st, "passed") == 1 || named[e.root.Fn] }
	isParam := func(e *Eng, v *V) bool {
		for _, a := range e.root.Args {
			if a == v {
				return true
			}
		}
		return false
	}
	inBody := func(e *Eng) bool { return e.root.Kind == "timer" && d.bodies[e.root.Fn] }
	own := func(e *Eng) bool {
		f := e.root.Fn
		return f.Signature.Recv() != nil && derefNamed(f.Signature.Recv().Type()) == ro.packet
	}
	settle := func(q *Report, e *Eng, st *State, c string) {
		pos := e.root.Fn.Pos()
		if monI(st, "won") == 1 {
			q.ob(monI(st, "called") == 1, "settled", c, pos, st, "the delivery timer was stopped but the callback is never called")
		}
		if monI(st, "removed") == 1 {
			q.ob(monI(st, "won") == 1 || monI(st, "late") == 1 || monI(st, "none") == 1, "settled", c, pos, st, "an acknowledged packet's delivery timer is left running: the callback gets a timeout for a message that was delivered in time")
		}
	}
	clear := func(st *State) {
		for _, k := range []string{"won", "called", "late", "none", "removed", "pac", "entry"} {
			delete(st.mon, k)
		}
	}
	r.runThreads(func(q *Report) *Rule {
		prim := newPrims(ro).call
		var licence map[string]*V // of the goroutine being started
		return &Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool {
				if t.Kind == "go" && licence != nil {
					for k, v := range licence {
						st.mon[k] = v
					}
					licence = nil
				}
				return true
			},
			OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
				if outs, ok := prim(e, st, ci); ok {
					return outs, true
				}
				if ci.Callee == nil || fullName(ci.Callee) != "(*time.Timer).Stop" || loadedFrom(ci.Args[0]) != ro.pktTimer {
					return nil, false
				}
				pac := ci.Args[0].args[0].args[0]
				a, b := st.clone(), st.clone()
				e.monSet(a, "won", 1)
				a.mon["pac"] = pac
				delete(a.mon, "called")
				e.monSet(b, "late", 1)
				return []Outcome{{st: a, ret: []*V{e.in.Bool(true)}}, {st: b, ret: []*V{e.in.Bool(false)}}}, true
			},
			OnFork: func(e *Eng, st *State, cond *V, taken bool) {
				x, isNil, ok := nilFork(cond, taken)
				if ok && isNil && (loadedFrom(x) == ro.pktDelivery || loadedFrom(x) == ro.pktTimer) {
					e.monSet(st, "none", 1)
				}
			},
			OnEvent: func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				if ev.Kind == EvGo {
					licence = nil
				}
				if direct, ok := d.calls(ev); ok {
					switch {
					case inBody(e):
						if direct {
							q.ob(len(ev.Args) == 2 && e.isNil(st, ev.Args[1]) == 0, "error", c, ev.Pos, st, "the timer function calls the delivery callback with the error %s, which may be nil", desc(ev.Args[1]))
							if b := ev.Fn; loadedFrom(b) == ro.pktDelivery {
								q.ob(e.same(st, b.args[0].args[0], ev.Args[0]), "packet", c, ev.Pos, st, "the callback of one packet is called with another")
							}
						}
						q.ob(monI(st, "called") == 0, "once", c, ev.Pos, st, "the timer function calls the delivery callback twice")
					case direct:
						q.ob(monI(st, "won") == 1 && monI(st, "called") == 0 || passed(e, st) && monI(st, "called") == 0, "licence", c, ev.Pos, st, "the delivery callback is called on a path where its timer was not stopped by this call: it may be called a second time")
						if !passed(e, st) || !isParam(e, ev.Args[1]) {
							q.ob(e.isNil(st, ev.Args[1]) == 1, "error", c, ev.Pos, st, "an acknowledged message is reported with the error %s", desc(ev.Args[1]))
						}
						if st.mon["pac"] != nil {
							q.ob(e.same(st, ev.Args[0], st.mon["pac"]), "packet", c, ev.Pos, st, "the timer of one packet was stopped, the callback is called for another")
						}
					default:
						q.ob(monI(st, "won") == 1 && monI(st, "called") == 0, "licence", c, ev.Pos, st, "a goroutine that calls the delivery callback is started on a path where its timer was not stopped by this call")
						for _, a := range ev.Args {
							if a.typ != nil && a.typ.String() == "error" || a.kind == KIface {
								q.ob(e.isNil(st, a) == 1, "error", c, ev.Pos, st, "an acknowledged message is reported with the error %s", desc(a))
							}
						}
						licence = map[string]*V{"passed": e.in.Int(1, nil)}
					}
					e.monSet(st, "called", 1)
					return
				}
				switch ev.Kind {
				case EvInvoke:
					if ev.Name == "(net.PacketConn).ReadFrom" {
						settle(q, e, st, "next datagram in "+fnName(e.root.Fn))
						clear(st)
					}
				case EvCall:
					if (ev.Name == "(*time.Timer).Reset") && loadedFrom(ev.Args[0]) == ro.pktTimer {
						q.ob(false, "rearmed", c, ev.Pos, st, "a delivery timer is started again")
					}
				case EvStore:
					if f := addrField(ev.Addr); f == ro.pktDelivery || f == ro.pktTimer {
						b := rootBase(ev.Addr)
						q.ob(b.kind == KObj || own(e) || inBody(e) && e.isNil(st, ev.Val) == 1, "kept", c, ev.Pos, st, "callback or timer of a packet that may be recorded is replaced")
					}
				case EvMapDelete:
					if loadedFrom(ev.Addr) == ro.sendIndex && ev.Hit != 0 {
						e.monSet(st, "removed", 1)
					}
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				c := "return of " + fnName(t.Fn)
				switch {
				case inBody(e) && d.bodies[t.Fn]:
					q.ob(monI(st, "called") == 1, "body", c, t.Fn.Pos(), st, "the delivery timer fires and the callback is not called")
				case passed(e, st):
					q.ob(monI(st, "called") == 1, "settled", c, t.Fn.Pos(), st, "the goroutine that was to call the delivery callback does not")
				default:
					settle(q, e, st, c)
				}
			},
		}
	}, keep)
}

// ---------------------------------------------------------------- A04

// sliceDst are the arguments (the receiver of a method is argument 0) a function
// of another package writes to
var sliceDst = map[string]int{
	"io.ReadFull": 1, "io.ReadAtLeast": 1, "crypto/rand.Read": 0, "math/rand.Read": 0, "(*math/rand.Rand).Read": 1,
	"encoding/binary.Read": 2, "crypto/subtle.XORBytes": 0, "crypto/subtle.ConstantTimeCopy": 1,
	"(crypto/cipher.AEAD).Seal": 1, "(crypto/cipher.AEAD).Open": 1,
	"(crypto/cipher.Stream).XORKeyStream": 1, "(crypto/cipher.Block).Encrypt": 1, "(crypto/cipher.Block).Decrypt": 1,
	"(crypto/cipher.BlockMode).CryptBlocks": 1, "(*crypto/rc4.Cipher).XORKeyStream": 1,
	"(io.Reader).Read": 1, "(net.Conn).Read": 1, "(net.PacketConn).ReadFrom": 1, "(hash.Hash).Sum": 1,
	"(encoding/binary.littleEndian).PutUint16": 1, "(encoding/binary.littleEndian).PutUint32": 1, "(encoding/binary.littleEndian).PutUint64": 1,
	"(encoding/binary.bigEndian).PutUint16": 1, "(encoding/binary.bigEndian).PutUint32": 1, "(encoding/binary.bigEndian).PutUint64": 1,
	"(encoding/binary.littleEndian).AppendUint32": 1, "(encoding/binary.bigEndian).AppendUint32": 1,
	"encoding/binary.PutUvarint": 0, "encoding/binary.PutVarint": 0,
	"encoding/hex.Encode": 0, "encoding/hex.Decode": 0, "(*encoding/base64.Encoding).Encode": 1, "(*encoding/base64.Encoding).Decode": 1,
	"sort.Slice": 0, "slices.Reverse": 0, "slices.Sort": 0, "clear": 0, "(*bytes.Reader).Read": 1, "(*bytes.Buffer).Read": 1,
}

// senders are the exported functions that take bytes to send
func (p *Program) senders(ro *roles) []*ssa.Function {
	out := p.reaches(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "WriteTo" && c.Common().Method.Pkg() != nil && c.Common().Method.Pkg().Path() == "net" {
					return true
				}
			}
		}
		return f == ro.encPkt
	})
	var l []*ssa.Function
	for _, f := range p.apiRoots() {
		if dataParam(f) >= 0 && out(f) && f.Pkg != nil && f.Pkg.Pkg.Path() == modPath && f != ro.serve {
			l = append(l, f)
		}
	}
	return l
}

func init() {
	register(&Check{
		ID: "A04", Level: "other", Prep: true,
		Technique:   "alias and escape dataflow of the caller's byte slice over path-sensitive interprocedural abstract interpretation (go/ssa)",
		Note:        "On every path of every exported write, with encryption followed into its steps: no store, copy, append or library call has the caller's bytes as destination, and nothing that outlives the call (queue, index, channel, goroutine, timer, field of a shared object) holds a slice of them.",
		Assumptions: []string{"functions of the standard library write only to their documented destinations and keep none of their byte slice arguments", "the socket keeps no reference to what it was given"},
		NotCovered:  "what a delivery callback or reader of the application does with packets.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Roots: exported functions with a []byte parameter that can encrypt packets or write to the socket. A value aliases the caller's bytes if it is the parameter, a part of an alias, an append to an alias, or contains one. On no path is an alias the destination of an indexed store, copy, append (unless its capacity was cut) or of a standard library call that writes there. At every send, map update, list insertion, goroutine or timer start, and store into an object that other goroutines can reach, what is published neither aliases the bytes nor reaches an alias through fields stored on this path.")
			for _, f := range r.p.senders(ro) {
				a04Root(r, ro, f)
			}
			r.atLeast("recorded", 1)
			r.atLeast("queued", 1)
			r.atLeast("written", 1)
		},
	})
}

func a04Root(r *Report, ro *roles, root *ssa.Function) {
	var data *V
	cut := map[*V]bool{} // results of append to a slice with no room left
	taint := func(e *Eng, v *V) *V { return e.in.Op("keep:taint", nil, v) }
	var alias func(e *Eng, st *State, v *V, d int) bool
	alias = func(e *Eng, st *State, v *V, d int) bool {
		if v == nil || d > 12 || cut[v] {
			return false
		}
		if v == data || st.heap[taint(e, v)] != nil {
			return true
		}
		switch v.kind {
		case KOp:
			switch v.op {
			case "slice", "append", "unbox", "conv", "slice2arr":
				return alias(e, st, v.args[0], d+1)
			}
		case KIface, KStruct, KTuple, KFunc:
			for _, a := range v.args {
				if alias(e, st, a, d+1) {
					return true
				}
			}
		case KField, KIndex:
			return alias(e, st, v.args[0], d+1)
		}
		return false
	}
	ghost := func(e *Eng, a *V) *V { return e.in.Op("keep:alias", nil, a) }
	// reach: an alias can be reached from v
	reach := func(e *Eng, st *State, v *V) string {
		seen := map[*V]bool{}
		var walk func(v *V) string
		walk = func(v *V) string {
			if v == nil || seen[v] {
				return ""
			}
			seen[v] = true
			if alias(e, st, v, 0) {
				return desc(v)
			}
			switch v.kind {
			case KIface, KStruct, KTuple, KFunc:
				for _, a := range v.args {
					if s := walk(a); s != "" {
						return s
					}
				}
			case KObj:
				for k, x := range st.heap {
					if k.kind == KOp && k.op == "keep:alias" && rootBase(k.args[0]) == v {
						if s := walk(x); s != "" {
							return desc(k.args[0])
						}
					}
				}
			case KField, KIndex:
				return walk(rootBase(v))
			}
			return ""
		}
		return walk(v)
	}
	rule := &Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnJoin: func(e *Eng, A, B, J *State, a, b, s *V) {
			if alias(e, A, a, 0) || alias(e, B, b, 0) {
				J.heap[taint(e, s)] = e.in.Int(1, nil)
			}
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			c := instrName(ev.In, ev.Instr)
			publish := func(n string, what string, vs ...*V) {
				for _, v := range vs {
					s := reach(e, st, v)
					r.ob(s == "", n, c, ev.Pos, st, "%s, which is the caller's buffer, is %s: it is used after the call returned", s, what)
				}
			}
			switch ev.Kind {
			case EvStore:
				if ev.Addr.kind == KIndex {
					if ix := rootBase(ev.Addr); alias(e, st, ev.Addr.args[0], 0) || alias(e, st, ix, 0) {
						r.ob(false, "written", c, ev.Pos, st, "a byte of the caller's buffer is changed")
					} else if b, ok := ev.Val.typ, true; ok && b != nil && b.String() == "byte" {
						r.ob(true, "written", c, ev.Pos, st, "")
					}
				}
				b := rootBase(ev.Addr)
				if b.kind == KObj {
					st.heap[ghost(e, ev.Addr)] = ev.Val
				}
				if b.kind != KObj || e.shared(st, b) {
					if s := reach(e, st, ev.Val); s != "" {
						r.ob(false, "stored", c, ev.Pos, st, "%s, which is the caller's buffer, is stored in %s", s, desc(ev.Addr))
					}
				}
			case EvCopy:
				r.ob(!alias(e, st, ev.Addr, 0), "copy", c, ev.Pos, st, "bytes are copied into the caller's buffer")
			case EvMapDelete:
				r.ob(!alias(e, st, ev.Addr, 0), "written", c, ev.Pos, st, "the caller's buffer is cleared")
			case EvCall, EvInvoke:
				switch {
				case ev.Name == "append":
					if len(ev.Args) > 1 && alias(e, st, ev.Args[0], 0) {
						if x, ok := ev.Instr.(*ssa.Call); ok {
							if s, ok := x.Call.Args[0].(*ssa.Slice); ok && s.Max != nil {
								cut[ev.Res] = true
								return
							}
						}
						r.ob(false, "written", c, ev.Pos, st, "append to %s may overwrite the caller's buffer behind it", desc(ev.Args[0]))
					}
				case ev.Name == "(*container/list.List).PushBack" || ev.Name == "(*container/list.List).PushFront" || ev.Name == "(*container/list.List).InsertBefore" || ev.Name == "(*container/list.List).InsertAfter":
					n := "listed"
					if addrField(ev.Args[0]) == ro.sendList {
						n = "recorded"
					}
					publish(n, "kept for retransmission", ev.Args[1])
				case ev.Name == "(*sync.Pool).Put" || ev.Name == "(*sync/atomic.Value).Store" || ev.Name == "(*sync.Map).Store":
					publish("stored", "kept", ev.Args[1:]...)
				default:
					if i, ok := sliceDst[ev.Name]; ok && i < len(ev.Args) {
						r.ob(!alias(e, st, ev.Args[i], 0), "written", c, ev.Pos, st, "%s writes to the caller's buffer", ev.Name)
					}
				}
			case EvSend:
				n := "sent"
				if loadedFrom(ev.Addr) == ro.senderCh {
					n = "queued"
				}
				publish(n, "given to another goroutine", ev.Val)
			case EvMapUpdate:
				publish("indexed", "kept in a map", ev.Key, ev.Val)
			case EvGo, EvTimer:
				publish("started", "used by a goroutine or timer", append([]*V{ev.Fn}, ev.Args...)...)
			}
		},
	}
	r.run(rule, func(e *Eng) *Task {
		t := e.RootTask(root)
		data = t.Args[dataParam(root)]
		return t
	})
}

// ---------------------------------------------------------------- A05

func mustSucceed(name string) bool {
	for _, p := range []string{"net.Resolve", "net.Listen", "net.Dial", "net.ParseIP", "crypto/", "(*crypto/", "(crypto/", "io.ReadFull", "strconv.Ato", "strconv.Parse", "encoding/pem."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return name == "(net.PacketConn).WriteTo" || name == "(*net.UDPConn).WriteTo" || name == "(*net.UDPConn).WriteToUDP"
}

func init() {
	register(&Check{
		ID: "A05", Level: "other", Prep: true,
		Technique:   "error-flow analysis: path-sensitive interprocedural dataflow (go/ssa) with a split at every step that can fail, and exhaustiveness of type switches over parameters",
		Note:        "For each exported send, connect and create operation and each failing step (resolving, opening, writing, encrypting, encoding, key generation, parsing) no path from the failure ends without an error; the byte count of a write is zero unless the error is nil; a parameter no case of the type switch matches ends in an error.",
		Assumptions: []string{"a fallible call of the standard library fails or succeeds as its error says", "encoding into a memory buffer can not fail"},
		NotCovered:  "failures of the sender goroutine after the write returned: the message stays recorded and is sent again (C03); the farewell datagram of a close.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			n := r.p.netRoles()
			if !n.need(r) {
				return
			}
			r.rule("Roots: exported senders of bytes, packet encryption, New, Connect, Dial and Listen. Every call that can fail (address resolution, sockets, cryptography, number parsing, packet encryption and encoding) is split into success and failure, also when its result is not looked at; on a path with a failed call the error returned is provably not nil. Where the root returns a count (int, error) as a net.Conn does, the count is 0 on every path where the error may be non-nil. On every path where a value of a parameter of interface type matched none of the types it was compared with, before it was followed by the next value or by the return, the error is not nil. A case for a parameter type does something with it.")
			roots := r.p.senders(ro)
			for _, f := range []*ssa.Function{n.nw, n.connect, n.dial, n.listen} {
				if f != nil {
					roots = append(roots, f)
				}
			}
			seen := map[*ssa.Function]bool{}
			for _, f := range roots {
				if seen[f] || f.Signature.Results().Len() == 0 || f.Signature.Results().At(f.Signature.Results().Len()-1).Type().String() != "error" {
					continue
				}
				seen[f] = true
				a05Root(r, ro, n, f)
			}
			a05Root(r, ro, n, ro.encPkt)
			a05Cases(r, roots)
			r.atLeast("reported", 5)
			r.atLeast("count", 1)
			r.atLeast("matched", 2)
		},
	})
}

// paramValue: the value is an interface parameter of the root or an element of
// its last, variadic one
func paramValue(e *Eng, v *V) bool {
	for d := 0; v != nil && d < 6; d++ {
		for _, a := range e.root.Args {
			if a == v {
				return true
			}
		}
		switch v.kind {
		case KSym:
			if len(v.args) == 0 || v.args[0].kind != KIndex {
				return false
			}
			v = sliceBase(v.args[0].args[0])
		default:
			return false
		}
	}
	return false
}

func a05Root(r *Report, ro *roles, n *netRoles, root *ssa.Function) {
	p := newPrims(ro)
	isConnWrite := n.write == root
	rule := &Rule{
		Faults:  mustSucceed,
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.Callee == root {
				return nil, false
			}
			outs, ok := p.call(e, st, ci)
			if ok && len(outs) == 2 {
				c := instrName(ci.In, ci.Instr)
				for _, o := range outs[1:] {
					o.st.mon["why"] = e.in.Str(c)
				}
			}
			return outs, ok
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			c := instrName(ev.In, ev.Instr)
			switch ev.Kind {
			case EvCall, EvInvoke:
				if ev.Hit == 0 && mustSucceed(ev.Name) && ev.Res != nil && lastIsErr(ev.Res) {
					e.monSet(st, "failed", 1)
					st.mon["why"] = e.in.Str(c + " " + ev.Name)
				}
			case EvIs:
				if !paramValue(e, ev.Val) {
					break
				}
				if monI(st, "unk") == 1 && st.mon["unkv"] != nil && st.mon["unkv"] != ev.Val {
					r.ob(false, "matched", c, ev.Pos, st, "a parameter of a type that is not known is skipped")
					return
				}
				if ev.Hit == 1 {
					delete(st.mon, "unk")
					delete(st.mon, "unkv")
				} else {
					e.monSet(st, "unk", 1)
					st.mon["unkv"] = ev.Val
				}
			}
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			c := "return of " + fnName(root)
			err := ret[len(ret)-1]
			if monI(st, "failed") == 1 {
				why := "a step"
				if w := st.mon["why"]; w != nil {
					why = w.String()
				}
				r.ob(e.isNil(st, err) == 0, "reported", c, root.Pos(), st, "%s failed and the error returned is %s", why, desc(err))
			}
			if monI(st, "unk") == 1 {
				r.ob(e.isNil(st, err) == 0, "matched", c, root.Pos(), st, "a parameter of a type that is not known is ignored: the error returned is %s", desc(err))
			}
			if isConnWrite {
				zero := e.isConst(st, ret[0], 0)
				r.ob(e.isNil(st, err) == 1 || zero, "count", c, root.Pos(), st, "a count of %s bytes is returned together with the error %s", desc(ret[0]), desc(err))
				if e.isNil(st, err) == 1 {
					ln := e.lenOf(st, t.Args[dataParam(root)], nil)
					r.ob(e.same(st, ret[0], ln), "count", c, root.Pos(), st, "without error the count is %s, not the %s bytes that were accepted", desc(ret[0]), desc(ln))
				}
			}
		},
	}
	r.run(rule, apiRoot(root))
}

func lastIsErr(v *V) bool {
	if v.kind == KTuple && len(v.args) > 0 {
		v = v.args[len(v.args)-1]
	}
	return strings.HasPrefix(v.op, "!err") || v.typ != nil && v.typ.String() == "error"
}

// a05Cases: a case of a type switch over a parameter that does nothing
func a05Cases(r *Report, roots []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !r.p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
				if x, ok := i.(*ssa.TypeAssert); ok && x.CommaOk && types.IsInterface(x.X.Type()) && x.X.Type().Underlying().(*types.Interface).NumMethods() == 0 {
					r.ob(!idleCase(x), "used", fnName(f)+" case "+types.TypeString(x.AssertedType, func(p *types.Package) string { return p.Name() }), x.Pos(), nil, "a parameter of this type is accepted and ignored")
				}
			}
		}
	}
	for _, f := range roots {
		walk(f)
	}
}

// idleCase: the branch taken when the assertion holds does nothing
func idleCase(x *ssa.TypeAssert) bool {
	used := false
	var ok ssa.Value
	for _, u := range *x.Referrers() {
		if ex, y := u.(*ssa.Extract); y {
			n := 0
			for _, v := range *ex.Referrers() {
				if _, dbg := v.(*ssa.DebugRef); !dbg {
					n++
				}
			}
			if ex.Index == 0 && n > 0 {
				used = true
			}
			if ex.Index == 1 {
				ok = ex
			}
		}
	}
	if used || ok == nil {
		return false
	}
	for _, u := range *ok.Referrers() {
		br, y := u.(*ssa.If)
		if !y {
			continue
		}
		from, to := br.Block(), br.Block().Succs[0]
		for len(to.Instrs) == 1 {
			if _, j := to.Instrs[0].(*ssa.Jump); !j {
				return false
			}
			from, to = to, to.Succs[0]
		}
		if to == br.Block().Succs[0] {
			return false
		}
		// back to a loop head, changing nothing
		if !to.Dominates(from) {
			return false
		}
		for k, pr := range to.Preds {
			if pr != from {
				continue
			}
			for _, i := range to.Instrs {
				if ph, y := i.(*ssa.Phi); y {
					e := ph.Edges[k]
					if e == ssa.Value(ph) {
						continue
					}
					if _, c := e.(*ssa.Const); c {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}
