package main

// What is put on the wire: S02 (sent and received data is sealed), S03, S04.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// prims replaces encryption, encoding and the handshake's public-key transport
// by terms that remember what went in
type prims struct {
	ro       *roles
	rsaEnc   *ssa.Function
	rsaDec   *ssa.Function
	onWire   func(e *Eng, st *State, pac *V, ci *CallInfo) // a packet is encoded
	onSealed func(e *Eng, st *State, ci *CallInfo)
}

func newPrims(ro *roles) *prims {
	return &prims{ro: ro, rsaEnc: ro.p.callerFn("(*crypt).encrypt", "crypto/rsa.EncryptOAEP"), rsaDec: ro.p.callerFn("(*crypt).decrypt", "(*crypto/rsa.PrivateKey).Decrypt")}
}

// term makes the non-nil byte slice that a primitive step gives
func (e *Eng) term(st *State, op string, args ...*V) *V {
	v := e.in.mk(V{kind: KOp, op: op, typ: tBytes, args: args})
	e.assume(st, e.mkEq(v, e.in.Nil()), false)
	return v
}

func (p *prims) call(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
	ro := p.ro
	if ci.Callee == nil {
		return nil, false
	}
	split := func(good *V) []Outcome {
		f := st.clone()
		e.monSet(f, "failed", 1)
		return []Outcome{{st: st, ret: []*V{good, e.in.Nil()}}, {st: f, ret: []*V{e.in.Nil(), e.newErr(f, ci)}}}
	}
	switch ci.Callee {
	case ro.encPkt:
		if p.onSealed != nil {
			p.onSealed(e, st, ci)
		}
		n := len(ci.Args)
		return split(e.term(st, "sealedpkt", chanOfCrypt(ci.Args[0], ro), ci.Args[n-2], ci.Args[n-1])), true
	case ro.marshal:
		pac := ci.Args[0]
		if p.onWire != nil {
			p.onWire(e, st, pac, ci)
		}
		g := func(f *types.Var) *V {
			if v := pinned(e, st, pac, f); v != nil {
				return v
			}
			return e.in.Nil()
		}
		// encoding writes to a memory buffer and can not fail
		return []Outcome{{st: st, ret: []*V{e.term(st, "wirepkt", pac, g(ro.pktStatus), g(ro.pktID), g(ro.pktData)), e.in.Nil()}}}, true
	case ro.cpMarshal:
		d := e.get(st, ci.Args[0], ro.cpData)
		u := e.get(st, ci.Args[0], ro.cpUUID)
		return split(e.term(st, "cpwire", u, e.contentOf(st, d), d)), true
	case p.rsaEnc:
		n := len(ci.Args)
		return split(e.term(st, "rsaenc", ci.Args[n-2], ci.Args[n-1])), true
	case p.rsaDec:
		n := len(ci.Args)
		return split(e.term(st, "rsadec", ci.Args[n-1])), true
	}
	return nil, false
}

// pin remembers what was stored in a field of an object made on this path, also
// after other goroutines can reach the object
func pin(e *Eng, st *State, ev *Event, fs ...*types.Var) {
	if ev.Kind != EvStore || ev.Addr.kind != KField || rootBase(ev.Addr).kind != KObj {
		return
	}
	f := fieldVar(ev.Addr)
	for _, x := range fs {
		if f == x {
			st.heap[e.in.Op("ghost:pin", nil, ev.Addr)] = ev.Val
		}
	}
}

// pinned is the field's value as far as this path stored it
func pinned(e *Eng, st *State, ptr *V, f *types.Var) *V {
	if a := e.addrOf(ptr, f); a != nil {
		if v := st.heap[e.in.Op("ghost:pin", nil, a)]; v != nil {
			return v
		}
	}
	return e.get(st, ptr, f)
}

// queued: the packet was taken from the queue of unacknowledged packets or of
// packets to send
func queued(v *V, ro *roles) bool {
	for d := 0; v != nil && d < 6; d++ {
		switch v.kind {
		case KOp:
			if v.op == "unbox" && len(v.args) > 0 {
				v = v.args[0]
				continue
			}
			return false
		case KSym:
			if len(v.args) == 0 {
				return false
			}
			a := v.args[0]
			if a.kind == KField {
				if f := fieldVar(a); f != nil && f.Pkg() != nil && f.Pkg().Path() == "container/list" && f.Name() == "Value" {
					return true
				}
			}
			v = a
		default:
			return false
		}
	}
	return false
}

// mayBeData: the status may be one of application data
func mayBeData(e *Eng, st *State, s *V, ro *roles) bool {
	if s == nil {
		return true
	}
	return !e.differs(st, s, e.in.Int(ro.status("statusData", 4), nil)) || !e.differs(st, s, e.in.Int(ro.status("statusDataNext", 0x84), nil))
}

// mustBeData: the status is one of application data
func mustBeData(e *Eng, st *State, s *V, ro *roles) bool {
	return s != nil && (e.isConst(st, s, ro.status("statusData", 4)) || e.isConst(st, s, ro.status("statusDataNext", 0x84)))
}

// sealedFor: the packet's data is the output of encryption for the connection
// and the packet's own number
func sealedFor(e *Eng, st *State, ch, pac *V, ro *roles) (bool, string) {
	d := pinned(e, st, pac, ro.pktData)
	id := pinned(e, st, pac, ro.pktID)
	if d == nil || d.kind != KOp || d.op != "sealedpkt" {
		return false, "its payload is " + desc(d) + ", not the output of encryption"
	}
	if ch != nil && !e.same(st, d.args[0], ch) {
		return false, "it is encrypted for another connection"
	}
	if id == nil || !(e.same(st, d.args[1], id) || e.same(st, stripConv(d.args[1]), stripConv(id))) {
		return false, "it is encrypted under number " + desc(d.args[1]) + " and carries number " + desc(id)
	}
	return true, ""
}

func stripConv(v *V) *V {
	for v != nil && v.kind == KOp && (v.op == "conv" || v.op == "trunc") && len(v.args) > 0 {
		v = v.args[0]
	}
	return v
}

func touchesSending(p *Program, ro *roles) func(f *ssa.Function) bool {
	snd := sendsOn(func(ch ssa.Value) bool { return ssaLoadField(ch) == ro.senderCh })
	return p.reaches(func(f *ssa.Function) bool { return f == ro.marshal || f == ro.rawWrite || snd(f) })
}

func init() {
	register(&Check{
		ID: "S02", Level: "other", Prep: true,
		Technique:   "provenance dataflow of packet payloads over path-sensitive interprocedural abstract interpretation (go/ssa), typestate of the receive handler",
		Note:        "Wherever a packet is queued, recorded or encoded, a payload of application data must be the output of encryption for that connection and number; on the receive side only the output of a successful decryption is used.",
		Assumptions: []string{"encryption and decryption are primitive steps whose agreement S01 decides", "AES-GCM authenticates (standard library)"},
		NotCovered:  "payloads of 64 bytes and less carry no authentication in this protocol.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("At every send on the sender queue, at every record in the queue of unacknowledged packets and at every encoding of a packet whose status may be data, the payload is the result of packet encryption by the same connection under the number the packet carries, or the packet comes from one of these queues. What is written to the socket is an encoded packet or the bytes given to the exported raw write. Packet encryption and decryption succeed only when a session key was found to be non-empty, decryption never after authentication failed, and only non-empty session keys are installed. In the datagram handler, for data statuses, only the result of a successful decryption of this datagram by its own connection and number is held, joined, handed over or acknowledged.")
			pr := func(q *Report) *Rule {
				p := newPrims(ro)
				okPkt := func(e *Eng, st *State, ch, pac *V, what, c string, ev *Event, pos *CallInfo) {
					ps := ro.serve.Pos()
					if ev != nil {
						ps = ev.Pos
					} else if pos != nil {
						ps = pos.Pos
					}
					if queued(pac, ro) || pac == st.mon["item"] && pac != nil {
						return
					}
					if !mayBeData(e, st, pinned(e, st, pac, ro.pktStatus), ro) {
						q.ob(true, "notdata "+what, c, ps, st, "")
						return
					}
					ok, why := sealedFor(e, st, ch, pac, ro)
					q.ob(ok, what, c, ps, st, "a data packet is %s but %s", what, why)
				}
				p.onWire = func(e *Eng, st *State, pac *V, ci *CallInfo) {
					okPkt(e, st, nil, pac, "encoded", instrName(ci.In, ci.Instr), nil, ci)
				}
				p.onSealed = func(e *Eng, st *State, ci *CallInfo) {
					q.ob(true, "seals", instrName(ci.In, ci.Instr), ci.Pos, st, "")
				}
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnCall:  p.call,
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						pin(e, st, ev, ro.pktData, ro.pktID, ro.pktStatus)
						switch ev.Kind {
						case EvRecv:
							if loadedFrom(ev.Addr) == ro.senderCh {
								if pac := itemField(e, st, ev.Val, ro.packet); pac != nil {
									st.mon["item"] = pac
								}
							}
						case EvSend:
							if loadedFrom(ev.Addr) == ro.senderCh {
								ch, pac, _ := sentItem(e, st, ev.Val, ro)
								okPkt(e, st, ch, pac, "queued to be sent", c, ev, nil)
							}
						case EvCall:
							if ev.Name == "(*container/list.List).PushBack" || ev.Name == "(*container/list.List).PushFront" {
								if addrField(ev.Args[0]) == ro.sendList && len(ev.Args) > 1 {
									okPkt(e, st, rootBase(ev.Args[0]), unbox(ev.Args[1]), "recorded", c, ev, nil)
								}
							}
						case EvStore:
							if addrField(ev.Addr) == ro.key && !ssaFreshStore(ev) {
								q.ob(e.bounds(st, e.lenOf(st, ev.Val, nil)).lo > 0, "nonempty", c, ev.Pos, st, "an empty session key may be installed")
							}
							if f := addrField(ev.Addr); (f == ro.pktData || f == ro.pktID || f == ro.pktStatus) && (queued(rootBase(ev.Addr), ro) || rootBase(ev.Addr) == st.mon["item"]) {
								q.ob(false, "unchanged", c, ev.Pos, st, "a queued packet is changed")
							}
						case EvInvoke:
							if ev.Name == "(net.PacketConn).WriteTo" {
								d := ev.Args[1]
								ok := d.kind == KOp && d.op == "wirepkt" || ro.rawWrite != nil && e.root.Fn == ro.rawWrite
								q.ob(ok, "written", c, ev.Pos, st, "%s is written to the socket, which is not an encoded packet", desc(d))
							}
						}
					},
				}
			}
			r.runThreads(pr, nil)
			// keys are there
			for _, f := range []*ssa.Function{ro.encPkt, ro.decPkt} {
				f := f
				r.run(&Rule{
					NoMerge: true,
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnEvent: func(e *Eng, st *State, ev *Event) {
						if ev.Kind == EvInvoke && ev.Name == "(crypto/cipher.AEAD).Open" && ev.Hit == 0 {
							e.monSet(st, "forged", 1)
						}
						if ev.Kind == EvLoad && addrField(ev.Addr) == ro.key && st.mon["key0"] == nil {
							st.mon["key0"] = ev.Val
						} else if ev.Kind == EvLoad && addrField(ev.Addr) == ro.key {
							st.mon["key1"] = ev.Val
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						if e.isNil(st, ret[1]) == 0 {
							return
						}
						ok := false
						for _, k := range []string{"key0", "key1"} {
							if v := st.mon[k]; v != nil && e.bounds(st, e.lenOf(st, v, nil)).lo > 0 {
								ok = true
							}
						}
						r.ob(monI(st, "forged") == 0, "authentic", "return of "+fnName(f), f.Pos(), st, "it succeeds although authentication failed")
						r.ob(ok, "key", "return of "+fnName(f), f.Pos(), st, "it succeeds although there may be no session key")
					},
				}, apiRoot(f))
			}
			s02Recv(r, ro)
			r.atLeast("seals", 1)
			r.atLeast("queued to be sent", 1)
			r.atLeast("recorded", 1)
			r.atLeast("written", 1)
			r.atLeast("key", 2)
			r.atLeast("authentic", 1)
			r.atLeast("nonempty", 1)
			r.atLeast("plain", 2)
		},
	})
}

func ssaFreshStore(ev *Event) bool {
	if s, ok := ev.Instr.(*ssa.Store); ok {
		if c, ok := s.Val.(*ssa.Const); ok && c.Value == nil && ssaFresh(s.Addr) {
			return true
		}
	}
	return false
}

// s02Recv: received payloads
func s02Recv(r *Report, ro *roles) {
	m := &recvMon{r: r, ro: ro, statuses: []int64{4, 0x84, 5, 6, 7, 8}, other: true}
	m.onDecrypt = func(e *Eng, st *State, c string, ci *CallInfo) {
		n := len(ci.Args)
		r.ob(e.same(st, ci.Args[n-2], st.mon["wireID"]), "ownnumber", c, ci.Pos, st, "a payload is decrypted under %s, not under its own number", desc(ci.Args[n-2]))
		r.ob(e.same(st, st.mon["decch"], st.mon["ch"]), "ownkey", c, ci.Pos, st, "a payload is decrypted with another connection's key")
	}
	plain := func(e *Eng, st *State, pac *V) bool {
		return monI(st, "dec") == 1 && st.mon["plain"] != nil && e.same(st, e.get(st, pac, ro.pktData), st.mon["plain"])
	}
	held := func(st *State, pac *V) bool { return heldKey(pac, ro) != nil }
	m.onCombine = func(e *Eng, st *State, pac *V, c string, ci *CallInfo) {
		r.ob(monI(st, "dec") == 1, "plain", c, ci.Pos, st, "a packet is passed on although it was not decrypted")
		r.ob(held(st, pac) || plain(e, st, pac), "plain", c, ci.Pos, st, "a packet is passed on whose payload is not the decrypted one")
	}
	m.onEvent = func(e *Eng, st *State, ev *Event) {
		c := instrName(ev.In, ev.Instr)
		switch ev.Kind {
		case EvMapUpdate:
			if loadedFrom(ev.Addr) == ro.recvMap {
				r.ob(plain(e, st, ev.Val), "plain", c, ev.Pos, st, "a packet is held whose payload is not the decrypted one")
			}
		case EvStore:
			if addrField(ev.Addr) == ro.pktData && heldKey(rootBase(ev.Addr), ro) != nil {
				r.ob(false, "unchanged", c, ev.Pos, st, "the payload of a held packet is changed")
			}
			if addrField(ev.Addr) == ro.key {
				r.ob(false, "rekey", c, ev.Pos, st, "a datagram that is no handshake changes the session key")
			}
		}
	}
	m.onSend = func(e *Eng, st *State, ev *Event) {
		c := instrName(ev.In, ev.Instr)
		switch loadedFrom(ev.Addr) {
		case ro.readerCh:
			_, pac, _ := sentItem(e, st, ev.Val, ro)
			r.ob(pac != nil && (pac == st.mon["out"] || held(st, pac) || plain(e, st, pac)) && monI(st, "dec") == 1, "handed", c, ev.Pos, st, "what is handed to the reader is not a decrypted message")
		case ro.senderCh:
			_, pac, _ := sentItem(e, st, ev.Val, ro)
			if m.isData(st) && e.isConst(st, e.get(st, pac, ro.pktStatus), ro.status("statusAck", 5)) {
				r.ob(monI(st, "dec") == 1, "acked", c, ev.Pos, st, "a datagram that was not decrypted is acknowledged")
			}
		}
	}
	r.run(m.rule(), listenerRoot(ro.serve))
}

// ---------------------------------------------------------------- S03

// fromRandReader: the argument is the cryptographic generator
func fromRandReader(v *V) bool {
	return isRandReader(v) || v != nil && v.kind == KIface && isRandReader(v.args[0])
}

// randomOf is the fresh random value the bytes are, nil if they are anything
// else
func (e *Eng) randomOf(st *State, v *V) *V {
	segs, ok := e.flatten(st, v, 0)
	if !ok {
		return nil
	}
	segs = e.nonEmpty(st, segs)
	if len(segs) != 1 || segs[0].b != nil || segs[0].base.kind != KSym || segs[0].base.op != "random" {
		return nil
	}
	if !e.isConst(st, segs[0].lo, 0) || !e.same(st, segs[0].n, e.lenOf(st, segs[0].base, nil)) {
		return nil
	}
	return segs[0].base
}

func init() {
	register(&Check{
		ID: "S03", Level: "other", Prep: true,
		Technique:   "provenance dataflow of keys and nonces over path-sensitive interprocedural abstract interpretation (go/ssa)",
		Note:        "Every value that becomes a session key, a nonce or a private key is traced to a draw from crypto/rand on the same path, and a failed draw to an error.",
		Assumptions: []string{"crypto/rand and crypto/rsa work as documented"},
		NotCovered:  "the identifier of a connect attempt, which is no secret.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("A value stored as session key is a buffer of at least 16 bytes filled completely from crypto/rand.Reader on this path, or the result of public-key decryption; a value stored as private key is the result of rsa.GenerateKey with crypto/rand.Reader and at least 1024 bits, or a private key stored so before. Every nonce given to Seal is completely drawn from crypto/rand.Reader since the call began and used once. Public-key operations take crypto/rand.Reader. An operation during which a draw failed returns an error and sends nothing.")
			isKeyPtr := func(t types.Type) bool { return t != nil && t.String() == "*crypto/rsa.PrivateKey" }
			common := func(q *Report, e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				if ev.Kind != EvCall {
					return
				}
				switch ev.Name {
				case "crypto/rsa.GenerateKey":
					q.ob(fromRandReader(ev.Args[0]), "source", c, ev.Pos, st, "the key pair is made from %s", desc(ev.Args[0]))
					q.ob(e.bounds(st, ev.Args[1]).lo >= 1024, "bits", c, ev.Pos, st, "the key pair may have %d bits", e.bounds(st, ev.Args[1]).lo)
					if ev.Hit != 1 {
						e.monSet(st, "drawfail", 1)
					} else if ev.Res != nil && ev.Res.kind == KTuple {
						st.mon["pair"] = ev.Res.args[0]
					}
				case "crypto/rsa.EncryptOAEP", "crypto/rsa.EncryptPKCS1v15":
					k := 1
					if ev.Name == "crypto/rsa.EncryptPKCS1v15" {
						k = 0
					}
					q.ob(fromRandReader(ev.Args[k]), "source", c, ev.Pos, st, "public-key encryption uses %s", desc(ev.Args[k]))
				case "io.ReadFull":
					if fromRandReader(ev.Args[0]) && ev.Hit != 1 {
						e.monSet(st, "drawfail", 1)
					}
				case "crypto/rand.Read":
					if ev.Hit != 1 {
						e.monSet(st, "drawfail", 1)
					}
				case "crypto/rand.Int", "crypto/rand.Prime":
					if ev.Hit != 1 {
						e.monSet(st, "drawfail", 1)
					}
				}
			}
			failRule := func(q *Report, e *Eng, st *State, t *Task, ret []*V) {
				if monI(st, "drawfail") != 1 || len(ret) == 0 {
					return
				}
				res := t.Fn.Signature.Results()
				if res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" {
					return
				}
				q.ob(e.isNil(st, ret[len(ret)-1]) == 0, "failure", "return of "+fnName(t.Fn), t.Fn.Pos(), st, "a failed draw of random bytes is not reported as an error")
			}
			r.runThreads(func(q *Report) *Rule {
				p := newPrims(ro)
				return &Rule{
					OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
						if ci.Callee == p.rsaEnc {
							return nil, false
						}
						return p.call(e, st, ci)
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						common(q, e, st, ev)
						switch ev.Kind {
						case EvInvoke:
							if ev.Name == "(net.PacketConn).ReadFrom" {
								e.monSet(st, "drawfail", 0) // the next datagram
							}
						case EvStore:
							if addrField(ev.Addr) == ro.key && !ssaFreshStore(ev) {
								ok := false
								if segs, k := e.flatten(st, ev.Val, 0); k {
									segs = e.nonEmpty(st, segs)
									ok = len(segs) == 1 && segs[0].b == nil && segs[0].base.kind == KOp && segs[0].base.op == "rsadec"
								}
								if rnd := e.randomOf(st, ev.Val); rnd != nil {
									ok = e.bounds(st, e.lenOf(st, rnd, nil)).lo >= 16
								}
								if v := sliceBase(ev.Val); v.kind == KOp && v.op == "rsadec" {
									ok = true
								}
								q.ob(ok, "key", c, ev.Pos, st, "the session key is %s, not bytes drawn from crypto/rand or decrypted from the peer", desc(e.contentOf(st, ev.Val)))
							}
							if f := addrField(ev.Addr); f != nil && fieldVar(ev.Addr) == f && isKeyPtr(f.Type()) && !ssaFreshStore(ev) {
								ok := ev.Val == st.mon["pair"] || isKeyPtr(ev.Type) && loadedFrom(ev.Val) != nil && isKeyPtr(loadedFrom(ev.Val).Type()) || monI(st, "drawfail") == 1 || e.isNil(st, ev.Val) == 1
								q.ob(ok, "private key", c, ev.Pos, st, "the private key is %s", desc(ev.Val))
							}
						case EvSend:
							q.ob(monI(st, "drawfail") == 0 || loadedFrom(ev.Addr) != ro.senderCh, "nosend", c, ev.Pos, st, "a packet is sent although random bytes could not be drawn")
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) { failRule(q, e, st, t, ret) },
				}
			}, nil)
			r.run(&Rule{
				NoMerge: true,
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnEvent: func(e *Eng, st *State, ev *Event) {
					common(r, e, st, ev)
					if ev.Kind == EvInvoke && ev.Name == "(crypto/cipher.AEAD).Seal" {
						c := instrName(ev.In, ev.Instr)
						rnd := e.randomOf(st, ev.Args[2])
						r.ob(rnd != nil, "nonce", c, ev.Pos, st, "the nonce is %s, not freshly drawn from crypto/rand", desc(e.contentOf(st, ev.Args[2])))
						r.ob(rnd == nil || st.mon["nonce"] != rnd, "once", c, ev.Pos, st, "a nonce is used twice")
						st.mon["nonce"] = rnd
						if rnd == nil {
							delete(st.mon, "nonce")
						}
					}
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) { failRule(r, e, st, t, ret) },
			}, apiRoot(ro.encPkt))
			r.atLeast("nonce", 1)
			r.atLeast("key", 1)
			r.atLeast("private key", 1)
			r.atLeast("source", 2)
			r.atLeast("failure", 2)
		},
	})
}
