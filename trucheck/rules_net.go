package main

// A06, A07, A01, A02: stream connections and listeners.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type netRoles struct {
	trunet, conn                         *types.Named
	accept, netTru                       *types.Var // Trunet
	connCh, connRead, connBuf, connQueue *types.Var // Conn
	connClosed                           *types.Var
	nw, connect, listen, dial, acceptFn  *ssa.Function
	read, write, closeFn                 *ssa.Function
	missing                              []string
}

func (p *Program) netRoles() *netRoles {
	n := &netRoles{trunet: p.structType("tru", "Trunet"), conn: p.structType("tru", "Conn")}
	tru := p.structType("tru", "Tru")
	channel := p.structType("tru", "Channel")
	miss := func(ok bool, s string) {
		if !ok {
			n.missing = append(n.missing, s)
		}
	}
	miss(n.trunet != nil, "Trunet")
	miss(n.conn != nil, "Conn")
	if n.trunet == nil || n.conn == nil {
		return n
	}
	var walk func(t types.Type, d int, f func(v *types.Var))
	walk = func(t types.Type, d int, f func(v *types.Var)) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || d > 3 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f(s.Field(i))
			walk(s.Field(i).Type(), d+1, f)
		}
	}
	walk(n.trunet, 0, func(v *types.Var) {
		if c, ok := v.Type().Underlying().(*types.Chan); ok && derefNamed(c.Elem()) == n.conn {
			n.accept = v
		}
		if p, ok := v.Type().(*types.Pointer); ok && p.Elem() == types.Type(tru) {
			n.netTru = v
		}
	})
	walk(n.conn, 0, func(v *types.Var) {
		switch t := v.Type().Underlying().(type) {
		case *types.Pointer:
			if derefNamed(t) == channel {
				n.connCh = v
			}
		case *types.Chan:
			if s, ok := t.Elem().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Uint8]) {
				n.connQueue = v
			} else if s, ok := t.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
				n.connClosed = v
			}
		case *types.Slice:
			if types.Identical(t.Elem(), types.Typ[types.Uint8]) {
				n.connBuf = v
			}
		}
	})
	miss(n.accept != nil, "Trunet accept channel")
	miss(n.netTru != nil, "Trunet endpoint")
	miss(n.connCh != nil, "Conn connection")
	miss(n.connQueue != nil, "Conn read channel")
	miss(n.connBuf != nil, "Conn read buffer")
	miss(n.connClosed != nil, "Conn closed channel")
	fn := func(name string) *ssa.Function {
		f := p.lookupFunc("tru", name)
		miss(f != nil, name)
		return f
	}
	n.nw, n.connect = fn("New"), fn("(*Tru).Connect")
	n.listen, n.dial = fn("Listen"), fn("Dial")
	n.read, n.write, n.closeFn = fn("(*Conn).Read"), fn("(*Conn).Write"), fn("(*Conn).Close")
	n.acceptFn = p.lookupFunc("tru", "(Trunet).Accept")
	if n.acceptFn == nil {
		n.acceptFn = fn("(*Trunet).Accept")
	}
	return n
}

func (n *netRoles) need(r *Report) bool {
	for _, m := range n.missing {
		r.fail("%s not found", m)
	}
	return len(n.missing) == 0
}

// primitives: creating an endpoint and connecting
func (n *netRoles) prim(onNew, onConnect func(e *Eng, st *State, ci *CallInfo)) func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
	return func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
		var tag string
		switch ci.Callee {
		case nil:
			return nil, false
		case n.nw:
			if onNew != nil {
				onNew(e, st, ci)
			}
			tag = "!primTru"
		case n.connect:
			if onConnect != nil {
				onConnect(e, st, ci)
			}
			tag = "!primCh"
		default:
			return nil, false
		}
		f := st.clone()
		f.note(ci.Pos, ci.Callee.Name()+" fails")
		v := e.freshA(st, tag, ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: tag})
		z := e.in.Nil()
		if ci.Callee == n.nw {
			z = e.freshA(f, "!badTru", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "bad"})
		}
		return []Outcome{{st: st, ret: []*V{v, e.in.Nil()}}, {st: f, ret: []*V{z, e.newErr(f, ci)}}}, true
	}
}

// elems gives the elements of a slice built here
func (e *Eng) elems(st *State, s *V) ([]*V, bool) {
	s = e.freezeSlice(st, s)
	switch {
	case s.kind == KNil:
		return nil, true
	case s.kind == KOp && s.op == "elems":
		return s.args[1:], true
	case s.kind == KOp && s.op == "append":
		var out []*V
		for _, a := range s.args {
			el, ok := e.elems(st, a)
			if !ok {
				return out, false
			}
			out = append(out, el...)
		}
		return out, true
	}
	l, ok := e.lenOf(st, s, nil).intVal()
	return nil, ok && l == 0
}

// mentions: the value is computed from p
func mentions(v, p *V) bool {
	if v == nil {
		return false
	}
	if v == p {
		return true
	}
	for _, a := range v.args {
		if mentions(a, p) {
			return true
		}
	}
	return false
}

// boundTo gives the object a method value or closure is bound to, of one of the types
func (e *Eng) boundTo(st *State, f *V, t *types.Named) *V {
	for f != nil && f.kind == KIface {
		f = f.args[0]
	}
	if f == nil || f.kind != KFunc {
		return nil
	}
	for _, a := range f.args {
		v := a
		if a.kind == KObj && derefNamed(a.typ) != t {
			if c := st.heap[a]; c != nil {
				v = c
			}
		}
		if v.typ != nil && derefNamed(v.typ) == t {
			return v
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID: "A06", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow (go/ssa): installation of readers against the handling of the next datagram",
		Note:        "The goroutine that handles datagrams installs the reader of a connect attempt on the connection it registers, and runs the connect callback, before it takes the next datagram; the listener's callback installs the reader of the very stream connection it hands to accept; dial gives its stream's reader to the connect.",
		Assumptions: []string{"data is handed over only from the goroutine that handles datagrams (C01)", "decoding and key steps are primitive"},
		NotCovered:  "applications that install a reader themselves later.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			n := r.p.netRoles()
			if !n.need(r) {
				return
			}
			r.rule("Datagram handler, server answer: on a path that registers a connection for a pending attempt, the reader stored in the attempt's entry is stored as that connection's reader before the handler returns. Client answer: on a path that installs the session key and meets no error, the connect callback is called (or found nil) by the datagram goroutine itself before the handler returns; no other goroutine calls it. Connect: the reader argument is stored in the entry before the entry is added. Listener callback: a reader bound to a stream connection is stored on the connection given, and that stream connection is sent to accept. Dial: the reader given to Connect is bound to the stream connection that is returned.")
			ans, cli := ro.status("statusConnectServerAnswer", 1), ro.status("statusConnectClientAnswer", 2)
			h := newHandshake(r, ro, ans, cli)
			h.onEvent = func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				switch ev.Kind {
				case EvMapUpdate:
					if loadedFrom(ev.Addr) == ro.chans {
						st.mon["reg"] = ev.Val
						e.monSet(st, "installed", 0)
					}
				case EvStore:
					switch addrField(ev.Addr) {
					case nil:
					case ro.chReader:
						b := rootBase(ev.Addr)
						if e.shared(st, b) || b == st.mon["reg"] {
							ok := loadedFrom(ev.Val) == ro.cdReader
							r.ob(ok, "reader", c, ev.Pos, st, "the reader stored is %s, not the one of the attempt", desc(ev.Val))
							if ok && b == st.mon["reg"] {
								e.monSet(st, "reader", 1)
							}
						} else if loadedFrom(ev.Val) == ro.cdReader {
							st.mon["early"] = b
						}
					case ro.destroyed:
						e.monSet(st, monDead, 1)
					case ro.key:
						if !isFresh(rootBase(ev.Addr)) {
							e.monSet(st, "installed", 1)
						}
					}
				case EvDyn:
					if loadedFrom(ev.Fn) == ro.connectcb {
						r.ob(threadOf(e) == "listener", "synchronous", c, ev.Pos, st, "the connect callback runs in another goroutine than the one that handles datagrams: a message may be handed over before the callback installed its reader")
						e.monSet(st, "called", 1)
					}
				case EvGo:
					if loadedFrom(ev.Fn) == ro.connectcb {
						r.ob(false, "synchronous", c, ev.Pos, st, "the connect callback runs in another goroutine than the one that handles datagrams: a message may be handed over before the callback installed its reader")
					}
				}
			}
			h.onReturn = func(e *Eng, st *State) {
				c := "return of " + fnName(ro.serve)
				s, ok := h.status(st)
				if !ok {
					return
				}
				if s == ans && st.mon["reg"] != nil && monI(st, "failed") == 0 {
					ok := monI(st, "reader") == 1 || isDead(st) || st.mon["early"] == st.mon["reg"]
					r.ob(ok, "installed", c, ro.serve.Pos(), st, "a connection is registered for a pending attempt but the attempt's reader is not installed before the next datagram is handled")
				}
				if s == cli && monI(st, "installed") == 1 {
					r.ob(monI(st, "called") == 1 || monI(st, "failed") == 1 || isDead(st) || monI(st, "closed") == 1, "callback", c, ro.serve.Pos(), st, "a connection is established but the connect callback is not called before the next datagram is handled")
				}
			}
			rule := h.rule()
			fork := rule.OnFork
			rule.OnSpawn = func(e *Eng, st *State, t *Task) bool { return t.Kind == "go" }
			rule.OnFork = func(e *Eng, st *State, cond *V, taken bool) {
				fork(e, st, cond, taken)
				if x, isNil, ok := nilFork(cond, taken); ok && isNil && loadedFrom(x) == ro.connectcb {
					e.monSet(st, "called", 1)
				}
			}
			own := rule.OnEvent
			rule.OnEvent = func(e *Eng, st *State, ev *Event) {
				if ev.Kind == EvRecv && loadedFrom(ev.Addr) == ro.listenStop {
					e.monSet(st, "closed", 1)
				}
				own(e, st, ev)
			}
			r.run(rule, listenerRoot(ro.serve))
			for _, k := range []string{"reader", "installed", "synchronous", "callback"} {
				r.atLeast(k, 1)
			}
			// the entry of a connect has its reader before it is added
			pr := newPrims(ro)
			r.run(&Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnCall:  pr.call,
				OnFork: func(e *Eng, st *State, cond *V, taken bool) {
					// no reader was given
					l := e.lenOf(st, e.Param(n.connect, n.connect.Params[len(n.connect.Params)-1]), nil)
					if b := e.bounds(st, l); b.hi <= 0 {
						e.monSet(st, "given", 2)
					} else if b.lo >= 1 {
						e.monSet(st, "given", 1)
					}
				},
				OnEvent: func(e *Eng, st *State, ev *Event) {
					c := instrName(ev.In, ev.Instr)
					if ev.Kind == EvMapUpdate && loadedFrom(ev.Addr) == ro.connects {
						if monI(st, "given") == 1 {
							v := e.get(st, ev.Val, ro.cdReader)
							ok := v != nil && v.kind == KSym && len(v.args) > 0 && strings.Contains(v.args[0].String(), n.connect.Params[len(n.connect.Params)-1].Name())
							r.ob(ok, "entry", c, ev.Pos, st, "the entry of a connect is added with reader %s, not the one given", desc(v))
						} else {
							r.ob(monI(st, "given") == 2, "entry", c, ev.Pos, st, "the entry of a connect is added without looking whether a reader was given")
						}
					}
				},
			}, apiRoot(n.connect))
			r.atLeast("entry", 1)
			a06Listener(r, ro, n)
			a06Dial(r, ro, n)
		},
	})
}

func isFresh(v *V) bool { return v != nil && v.kind == KObj }

func threadOf(e *Eng) string {
	if e.root == nil {
		return ""
	}
	return e.root.Kind
}

func (n *netRoles) sendsAccept(p *Program) func(f *ssa.Function) bool {
	return p.reaches(sendsOn(func(c ssa.Value) bool {
		f := ssaLoadField(c)
		return f != nil && f == n.accept || types.Identical(c.Type().Underlying(), n.accept.Type().Underlying())
	}))
}

// connectedFns are the callbacks that hand stream connections to accept
func (n *netRoles) connectedFns(p *Program, ro *roles) []*ssa.Function {
	sends := n.sendsAccept(p)
	var out []*ssa.Function
	cb, _ := ro.connectcb.Type().Underlying().(*types.Signature)
	for _, f := range p.functions() {
		if f.Synthetic != "" || cb == nil || f.Signature.Params().Len() != cb.Params().Len() || f.Signature.Results().Len() != 0 {
			continue
		}
		same := true
		for i := 0; i < cb.Params().Len(); i++ {
			same = same && types.Identical(cb.Params().At(i).Type(), f.Signature.Params().At(i).Type())
		}
		if same && sends(f) {
			out = append(out, f)
		}
	}
	return out
}

func a06Listener(r *Report, ro *roles, n *netRoles) {
	fns := n.connectedFns(r.p, ro)
	sends := n.sendsAccept(r.p)
	if len(fns) == 0 {
		r.fail("no callback hands connections to accept")
		return
	}
	for _, f := range fns {
		ps := f.Params[len(f.Params)-f.Signature.Params().Len():]
		r.run(&Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
			OnFork: func(e *Eng, st *State, cond *V, taken bool) {
				if e.isNil(st, e.Param(f, ps[len(ps)-1])) == 0 {
					e.monSet(st, "err", 1)
				}
			},
			OnEvent: func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				switch ev.Kind {
				case EvStore:
					if f := addrField(ev.Addr); f != nil && f == ro.chReader {
						conn := e.boundTo(st, ev.Val, n.conn)
						r.ob(conn != nil, "bound", c, ev.Pos, st, "the reader installed on an accepted connection is %s, not bound to a stream connection", desc(ev.Val))
						if conn != nil {
							st.mon["reader"] = conn
							ch := e.get(st, conn, n.connCh)
							r.ob(rootBase(ev.Addr) == ch || ch == nil || ch.kind == KNil, "bound", c+" connection", ev.Pos, st, "the reader of a stream connection is installed on another connection")
						}
					}
				case EvSend:
					if loadedFrom(ev.Addr) == n.accept || ev.Addr.typ != nil && types.Identical(ev.Addr.typ.Underlying(), n.accept.Type().Underlying()) {
						st.mon["sent"] = ev.Val
					}
				case EvGo:
					if ev.Callee != nil && sends(ev.Callee) {
						st.mon["sent"] = e.in.Nil()
						if v := e.boundTo(st, ev.Fn, n.conn); v != nil {
							st.mon["sent"] = v
						}
						for _, a := range ev.Args {
							if a.typ != nil && derefNamed(a.typ) == n.conn {
								st.mon["sent"] = a
							}
						}
					}
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				if monI(st, "err") == 1 {
					return
				}
				c := "return of " + fnName(f)
				r.ob(st.mon["reader"] != nil, "accepted", c, f.Pos(), st, "a new connection reaches the listener's callback and no stream reader is installed before it returns")
				r.ob(st.mon["sent"] != nil, "accepted", c+" sent", f.Pos(), st, "a new connection reaches the listener's callback and is not handed to accept")
				r.ob(st.mon["sent"] == st.mon["reader"], "same", c, f.Pos(), st, "the stream connection handed to accept is not the one whose reader was installed")
			},
		}, apiRoot(f))
	}
	r.atLeast("bound", 1)
	r.atLeast("accepted", 1)
	r.atLeast("same", 1)
}

func a06Dial(r *Report, ro *roles, n *netRoles) {
	r.run(&Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnCall: n.prim(nil, func(e *Eng, st *State, ci *CallInfo) {
			c := instrName(ci.In, ci.Instr)
			el, ok := e.elems(st, ci.Args[len(ci.Args)-1])
			var conn *V
			if ok && len(el) > 0 && el[0] != nil {
				conn = e.boundTo(st, el[0], n.conn)
			}
			if r.ob(conn != nil, "dial", c, ci.Pos, st, "dial connects without the reader of a stream connection") {
				st.mon["conn"] = conn
			}
		}),
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			c := "return of " + fnName(t.Fn)
			if e.isNil(st, ret[1]) == 1 {
				v := ret[0]
				for v.kind == KIface {
					v = v.args[0]
				}
				r.ob(v == st.mon["conn"] && v != nil, "dialled", c, t.Fn.Pos(), st, "dial returns %s, not the stream connection whose reader was installed", desc(v))
				if v == st.mon["conn"] && v != nil {
					ch := e.get(st, v, n.connCh)
					r.ob(ch != nil && ch.kind == KSym && ch.op == "!primCh", "dialled", c+" connection", t.Fn.Pos(), st, "the stream connection returned by dial works on %s, not on the connection just made", desc(ch))
				}
			}
		},
	}, apiRoot(n.dial))
	r.atLeast("dial", 1)
	r.atLeast("dialled", 1)
}

// ---------------------------------------------------------------- A07

func init() {
	register(&Check{
		ID: "A07", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow (go/ssa) of listen, dial, accept and addr, with the constructor as a primitive step",
		Note:        "Every path of Listen creates an endpoint of its own with the requested port and a callback that hands connections to the accept channel of the very listener returned; dials use an endpoint created without such a callback, kept in the shared variable under its lock and reused only after finding it open; accept returns what its own channel delivers; the address is the socket's.",
		Assumptions: []string{"net.ListenPacket binds the port it is given"},
		NotCovered:  "the host part of a listen address, which the library ignores.",
		Run: func(r *Report) {
			ro := r.p.roles()
			n := r.p.netRoles()
			if !ro.need(r) || !n.need(r) {
				return
			}
			r.rule("Listen: at a return without error the endpoint of the returned listener is the result of New called on this path; the port given to New is the number parsed on this path from the address; among its parameters is exactly one connect callback, bound to a listener value whose accept channel is the one of the listener returned. Dial: parameters of New hold no connect callback. The shared endpoint variable is written only on dial paths, with an endpoint created on the path, under a lock; an endpoint read from it is used only after it was found not nil and not closed on the path. New: the packet connection is opened with the port parameter. Accept: a connection returned without error is the value received from the listener's own accept channel, otherwise nil. Addr returns the local address of the socket of the listener's own endpoint. A connection offered to accept is not given up because of a default or a timer.")
			isCallback := func(v *V) bool {
				for v != nil && v.kind == KIface {
					v = v.args[0]
				}
				if v == nil || v.typ == nil {
					return false
				}
				_, ok := v.typ.Underlying().(*types.Signature)
				return ok && types.Identical(v.typ.Underlying(), ro.connectcb.Type().Underlying())
			}
			for _, root := range []*ssa.Function{n.listen, n.dial} {
				lis := root == n.listen
				r.run(&Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnCall: n.prim(func(e *Eng, st *State, ci *CallInfo) {
						c := instrName(ci.In, ci.Instr)
						el, ok := e.elems(st, ci.Args[1])
						cbs := 0
						for _, v := range el {
							if v == nil {
								ok = false
							}
							if isCallback(v) {
								cbs++
								for v.kind == KIface {
									v = v.args[0]
								}
								if len(v.args) > 0 {
									st.mon["bound"] = v.args[0]
								}
							}
						}
						r.ob(ok, "params", c, ci.Pos, st, "the parameters of the endpoint are not known")
						if lis {
							r.ob(cbs == 1, "callback", c, ci.Pos, st, "a listener's endpoint is created with %d connect callbacks", cbs)
							pt := stripConv(ci.Args[0])
							r.ob(pt.kind == KOp && strings.HasPrefix(pt.op, "call:strconv.") && mentions(pt, e.Param(root, root.Params[1])), "port", c, ci.Pos, st, "a listener's endpoint is created on port %s, not on the port parsed from its address", desc(ci.Args[0]))
						} else {
							r.ob(cbs == 0, "callback", c+" dial", ci.Pos, st, "an endpoint for dialling is created with a connect callback: connections made to it reach an accept")
						}
						e.monSet(st, "new", 1)
					}, func(e *Eng, st *State, ci *CallInfo) {
						if !lis {
							c := instrName(ci.In, ci.Instr)
							t := ci.Args[0]
							own := t.kind == KSym && t.op == "!primTru"
							r.ob(own || monI(st, "open") == 1 && t == st.mon["shared"], "reuse", c, ci.Pos, st, "dial uses the shared endpoint without finding it open")
						}
					}),
					OnFork: func(e *Eng, st *State, cond *V, taken bool) {
						cond, taken = stripNot(cond, taken)
						if loadedFrom(cond) == ro.truClosed && !taken && rootBase(cond.args[0]) == st.mon["shared"] {
							e.monSet(st, "open", 1)
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						switch ev.Kind {
						case EvLoad:
							if rb := rootBase(ev.Addr); rb.kind == KGlobal && ev.Val != nil && ev.Val.typ != nil && derefNamed(ev.Val.typ) == ro.tru {
								st.mon["shared"] = ev.Val
								r.ob(len(st.locks) > 0, "lock", c, ev.Pos, st, "the shared endpoint is read without a lock")
							}
						case EvStore:
							if rb := rootBase(ev.Addr); rb.kind == KGlobal && ev.Val.typ != nil && derefNamed(ev.Val.typ) == ro.tru {
								r.ob(!lis, "shared", c, ev.Pos, st, "the endpoint of a listener becomes the shared endpoint of the dialers")
								r.ob(ev.Val.kind == KSym && ev.Val.op == "!primTru", "shared", c+" value", ev.Pos, st, "the shared endpoint becomes %s, not an endpoint that was just created", desc(ev.Val))
								r.ob(heldWrite(st), "lock", c, ev.Pos, st, "the shared endpoint is written without its lock")
							}
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						c := "return of " + fnName(t.Fn)
						if e.isNil(st, ret[1]) != 1 || !lis {
							return
						}
						v := ret[0]
						for v.kind == KIface {
							v = v.args[0]
						}
						tr := e.get(st, v, n.netTru)
						r.ob(tr != nil && tr.kind == KSym && tr.op == "!primTru", "own", c, t.Fn.Pos(), st, "the listener returned works on endpoint %s, not on one created for it", desc(tr))
						acc := e.get(st, v, n.accept)
						b := st.mon["bound"]
						var bacc *V
						if b != nil && b.kind == KStruct {
							s := b.typ.Underlying().(*types.Struct)
							for i := 0; i < s.NumFields(); i++ {
								if s.Field(i) == n.accept {
									bacc = b.args[i]
								}
							}
						} else if b != nil {
							bacc = e.get(st, b, n.accept)
						}
						r.ob(bacc != nil && bacc == acc, "accepts", c, t.Fn.Pos(), st, "the callback of the endpoint hands connections to %s, but the listener accepts from %s", desc(bacc), desc(acc))
					},
				}, apiRoot(root))
			}
			for _, k := range []string{"params", "callback", "port", "reuse", "lock", "shared", "own", "accepts"} {
				r.atLeast(k, 1)
			}
			// the port reaches the socket
			r.run(&Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnEvent: func(e *Eng, st *State, ev *Event) {
					if ev.Kind == EvCall && strings.HasPrefix(ev.Name, "net.Listen") {
						c := instrName(ev.In, ev.Instr)
						p := e.Param(n.nw, n.nw.Params[0])
						found := false
						for _, a := range ev.Args {
							found = found || mentions(a, p)
						}
						r.ob(found, "bind", c, ev.Pos, st, "the socket is opened on %s, which does not depend on the port asked for", desc(ev.Args[len(ev.Args)-1]))
						st.dead = true
					}
				},
			}, apiRoot(n.nw))
			r.atLeast("bind", 1)
			// accept and addr
			r.run(&Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnEvent: func(e *Eng, st *State, ev *Event) {
					if ev.Kind == EvRecv && ev.Addr.typ != nil && types.Identical(ev.Addr.typ.Underlying(), n.accept.Type().Underlying()) {
						c := instrName(ev.In, ev.Instr)
						own := e.Param(n.acceptFn, n.acceptFn.Params[0])
						r.ob(loadedFrom(ev.Addr) == n.accept && rootBase(ev.Addr.args[0]) == own || e.isFieldOf(ev.Addr, own), "channel", c, ev.Pos, st, "accept takes connections from %s, not from its own channel", desc(ev.Addr))
						st.mon["got"] = ev.Val
					}
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(t.Fn)
					v := ret[0]
					for v.kind == KIface {
						v = v.args[0]
					}
					switch e.isNil(st, ret[1]) {
					case 1:
						r.ob(v == st.mon["got"] && v != nil, "accept", c, t.Fn.Pos(), st, "accept returns %s, not the connection it took", desc(v))
					case 0:
						r.ob(e.isNil(st, ret[0]) == 1 && st.mon["got"] == nil, "accept", c+" error", t.Fn.Pos(), st, "accept returns an error and drops a connection")
					default:
						r.ob(false, "accept", c, t.Fn.Pos(), st, "the error returned may be nil or not: %s", desc(ret[1]))
					}
				},
			}, apiRoot(n.acceptFn))
			r.atLeast("channel", 1)
			r.atLeast("accept", 1)
			// connections wait for accept as long as the endpoint is open
			for _, f := range n.connectedFns(r.p, ro) {
				r.run(&Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnEvent: func(e *Eng, st *State, ev *Event) {
						if ev.Kind == EvSend && (loadedFrom(ev.Addr) == n.accept || ev.Addr.typ != nil && types.Identical(ev.Addr.typ.Underlying(), n.accept.Type().Underlying())) {
							lost := ev.Default
							for _, a := range ev.Alts {
								lost = lost || timerChan(a)
							}
							r.ob(!lost, "waits", instrName(ev.In, ev.Instr), ev.Pos, st, "a connection is given up when accept does not take it at once or in time")
						}
					},
				}, apiRoot(f))
			}
			r.atLeast("waits", 1)
			addr := r.p.lookupFunc("tru", "(Trunet).Addr")
			if addr == nil {
				addr = r.p.lookupFunc("tru", "(*Trunet).Addr")
			}
			if addr == nil {
				r.fail("Addr not found")
				return
			}
			r.run(&Rule{
				OnEvent: func(e *Eng, st *State, ev *Event) {
					if ev.Kind == EvInvoke && ev.Name == "(net.PacketConn).LocalAddr" && loadedFrom(ev.Args[0]) == ro.truConn {
						own := e.Param(addr, addr.Params[0])
						ep := rootBase(ev.Args[0].args[0])
						if loadedFrom(ep) == n.netTru && rootBase(ep.args[0]) == own || e.isFieldOf(ep, own) {
							st.mon["addr"] = ev.Res
						}
					}
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					r.ob(ret[0] == st.mon["addr"] && ret[0] != nil, "addr", "return of "+fnName(t.Fn), t.Fn.Pos(), st, "the address of a listener is %s, not its socket's", desc(ret[0]))
				},
			}, apiRoot(addr))
			r.atLeast("addr", 1)
		},
	})
}

// isFieldOf: the value is a field of the struct value
func (e *Eng) isFieldOf(v, s *V) bool {
	return v != nil && v.kind == KOp && strings.HasPrefix(v.op, "field") && len(v.args) == 1 && v.args[0] == s
}

// ---------------------------------------------------------------- A01, A02

// flagField is the boolean next to a field in the same struct
func flagField(t *types.Named, next *types.Var) *types.Var {
	var res *types.Var
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || d > 3 {
			return
		}
		has := false
		for i := 0; i < s.NumFields(); i++ {
			has = has || s.Field(i) == next
		}
		for i := 0; i < s.NumFields(); i++ {
			if has && types.Identical(s.Field(i).Type(), types.Typ[types.Bool]) {
				res = s.Field(i)
			}
			walk(s.Field(i).Type(), d+1)
		}
	}
	walk(t, 0)
	return res
}

// readers are the functions that put messages on the read channel of a stream
// connection
func (n *netRoles) feeders(p *Program, ro *roles) []*ssa.Function {
	sends := p.reaches(sendsOn(func(c ssa.Value) bool { f := ssaLoadField(c); return f != nil && f == n.connQueue }))
	var out []*ssa.Function
	for _, f := range p.functions() {
		if f.Synthetic == "" && f.Signature.Params().Len() == 3 && sends(f) && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), false), ro.chReader.Type().Underlying()) {
			out = append(out, f)
		}
	}
	return out
}

func init() {
	register(&Check{
		ID: "A01", Level: "other", Prep: true,
		Technique:   "typestate monitor with symbolic slices over path-sensitive dataflow (go/ssa) of the stream read and of the reader that feeds it",
		Note:        "One call of Read is followed from any state of the connection: the rest of the message held and the end-of-message flag before and after each path obey the transition rules whose repetition gives the property for every sequence of reads and every buffer size.",
		Assumptions: []string{"copy returns the number of bytes copied, the smaller of the two lengths", "reads exclude each other (K01)"},
		NotCovered:  "several readers that share a stream.",
		Run: func(r *Report) {
			ro := r.p.roles()
			n := r.p.netRoles()
			if !ro.need(r) || !n.need(r) {
				return
			}
			flag := flagField(n.conn, n.connBuf)
			if flag == nil {
				r.fail("the end-of-message flag of a stream connection was not found")
				return
			}
			r.rule("Per path of Read: a message is received only when the rest held was found empty and the end-of-message flag was found false or stored false; what is received becomes the rest, unchanged, and the flag is stored true; at most one message is received and a path that received one ends without error. Bytes are copied from the start of the rest to the start of the caller's buffer, at most once; after a copy of n bytes the rest becomes itself without its first n bytes; the rest is changed in no other way. The count returned is n, or 0 if nothing was copied; with the rest not empty the path copies. io.EOF is returned exactly on paths that found the rest empty and the flag true, and such a path stores the flag false and does nothing else. Reader: for a message without error the bytes of that message are put on the read channel exactly once, or the connection was found closed.")
			buf := e0param(n.read, 1)
			r.run(&Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnFork: func(e *Eng, st *State, cond *V, taken bool) {
					if cur := st.mon["cur"]; cur != nil {
						b := e.bounds(st, e.lenOf(st, cur, nil))
						if b.hi <= 0 {
							e.monSet(st, "empty", 1)
						} else if b.lo > 0 {
							e.monSet(st, "empty", 2)
						}
					}
					cond, taken = stripNot(cond, taken)
					if loadedFrom(cond) == flag && monI(st, "flag") == 0 {
						if taken {
							e.monSet(st, "flag", 1)
						} else {
							e.monSet(st, "flag", 2)
						}
					}
				},
				OnEvent: func(e *Eng, st *State, ev *Event) {
					c := instrName(ev.In, ev.Instr)
					p := e.Param(n.read, buf)
					switch ev.Kind {
					case EvLoad:
						if addrField(ev.Addr) == n.connBuf && ev.Val != nil {
							st.mon["cur"], st.mon["at"] = ev.Val, ev.Addr
						}
					case EvRecv:
						if loadedFrom(ev.Addr) == n.connQueue {
							r.ob(monI(st, "empty") == 1, "next", c, ev.Pos, st, "the next message is taken while bytes of the last one may not have been read")
							r.ob(monI(st, "flag") == 2, "mark", c, ev.Pos, st, "the next message is taken while the end of the last one may not have been reported")
							r.ob(monI(st, "recv") == 0, "single", c, ev.Pos, st, "one read takes two messages")
							e.monSet(st, "recv", 1)
							st.mon["msg"] = ev.Val
						}
					case EvCopy:
						if sliceBase(ev.Addr) != p {
							break
						}
						cur := st.heap[st.mon["at"]]
						ok := cur != nil && ev.Val == cur && e.sliceLow(ev.Addr) == 0
						r.ob(ok, "copies", c, ev.Pos, st, "the bytes copied to the caller are %s, not the rest of the message from its start", desc(ev.Val))
						if monI(st, "recv") == 1 {
							r.ob(monI(st, "held") == 1, "held", c, ev.Pos, st, "bytes are copied before the received message is kept")
						}
						r.ob(st.mon["n"] == nil, "copies", c+" once", ev.Pos, st, "bytes are copied twice")
						st.mon["n"], st.mon["src"] = ev.Res, ev.Val
					case EvStore:
						switch addrField(ev.Addr) {
						case nil:
						case n.connBuf:
							if msg := st.mon["msg"]; msg != nil && monI(st, "held") == 0 {
								r.ob(ev.Val == msg, "held", c, ev.Pos, st, "%s is kept, not the message received", desc(ev.Val))
								e.monSet(st, "held", 1)
								delete(st.mon, "empty")
								break
							}
							n, src := st.mon["n"], st.mon["src"]
							ok := false
							if n != nil {
								rest := e.in.sub(e.lenOf(st, src, nil), n)
								if ev.Val.kind == KNil || e.bounds(st, e.lenOf(st, ev.Val, nil)).hi <= 0 {
									ok = e.bounds(st, rest).hi <= 0
								} else {
									l, d := sliceSpan(ev.Val)
									l0, _ := sliceSpan(src)
									ok = sliceBase(ev.Val) == sliceBase(src) && e.same(st, e.lenOf(st, ev.Val, nil), rest) && d && e.spanFrom(st, l, l0, n)
								}
							} else if ev.Val == st.mon["cur"] || monI(st, "empty") == 1 && e.bounds(st, e.lenOf(st, ev.Val, nil)).hi <= 0 {
								ok = true
							}
							if r.ob(ok, "rest", c, ev.Pos, st, "the rest becomes %s: bytes are lost or repeated", desc(ev.Val)) && n != nil {
								e.monSet(st, "cut", 1)
							}
						case flag:
							v, ok := ev.Val.boolVal()
							if r.ob(ok, "flag", c, ev.Pos, st, "the end-of-message flag becomes %s", desc(ev.Val)) {
								if v {
									e.monSet(st, "set", 1)
								} else {
									e.monSet(st, "set", 2)
								}
							}
						}
					}
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(t.Fn)
					p := t.Fn.Pos()
					cnt := st.mon["n"]
					eof := strings.Contains(globalName(ret[1]), "EOF")
					if cnt != nil {
						r.ob(e.same(st, ret[0], cnt), "count", c, p, st, "read returns %s after copying %s bytes", desc(ret[0]), desc(cnt))
						r.ob(monI(st, "cut") == 1, "rest", c, p, st, "bytes were copied to the caller and stay in the rest: they are read twice")
						r.ob(e.isNil(st, ret[1]) == 1, "error", c, p, st, "bytes were copied and an error is returned")
					} else {
						r.ob(e.isConst(st, ret[0], 0), "count", c+" none", p, st, "read returns %s although nothing was copied", desc(ret[0]))
						r.ob(e.isNil(st, ret[1]) != 1, "progress", c, p, st, "read returns neither bytes nor an error")
						r.ob(monI(st, "empty") != 2, "progress", c+" rest", p, st, "a rest is held but nothing is copied")
					}
					if monI(st, "recv") == 1 {
						r.ob(monI(st, "held") == 1 && cnt != nil, "held", c, p, st, "a received message is dropped")
						r.ob(monI(st, "set") == 1, "mark", c, p, st, "a message was received but its end will not be reported")
					} else {
						r.ob(monI(st, "set") != 1, "mark", c+" none", p, st, "an end of message will be reported though no message was received")
					}
					if eof {
						r.ob(monI(st, "empty") == 1 && monI(st, "flag") == 1 && monI(st, "set") == 2 && monI(st, "recv") == 0, "eof", c, p, st, "an end of message is reported that is not due, or it will be reported again")
					} else {
						r.ob(monI(st, "set") != 2, "eof", c+" none", p, st, "the end of a message is never reported")
						if cnt == nil {
							r.ob(!(monI(st, "empty") == 1 && monI(st, "flag") == 1), "eof", c+" due", p, st, "the end of a message is due and another error is returned")
						}
					}
				},
			}, apiRoot(n.read))
			for _, k := range []string{"next", "mark", "copies", "held", "rest", "flag", "count", "error", "progress", "eof"} {
				r.atLeast(k, 1)
			}
			fs := n.feeders(r.p, ro)
			if len(fs) == 0 {
				r.fail("no reader feeds the read channel")
			}
			for _, f := range fs {
				ps := f.Params[len(f.Params)-3:]
				r.run(&Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnFork: func(e *Eng, st *State, cond *V, taken bool) {
						switch e.isNil(st, e.Param(f, ps[2])) {
						case 1:
							e.monSet(st, "err", 2)
						case 0:
							e.monSet(st, "err", 1)
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						switch ev.Kind {
						case EvSend:
							if loadedFrom(ev.Addr) == n.connQueue {
								r.ob(loadedFrom(stripConv(ev.Val)) == ro.pktData && rootBase(stripConv(ev.Val).args[0]) == e.Param(f, ps[1]), "bytes", c, ev.Pos, st, "%s is put on the read channel, not the bytes of the message", desc(ev.Val))
								r.ob(monI(st, "fed") == 0, "fed", c, ev.Pos, st, "a message is put on the read channel twice")
								r.ob(monI(st, "err") != 1, "fed", c+" error", ev.Pos, st, "an error notification is put on the read channel as a message")
								r.ob(ev.Block, "fed", c+" waits", ev.Pos, st, "a message is dropped when nobody reads at the moment")
								e.monSet(st, "fed", 1)
							}
						case EvRecv:
							if loadedFrom(ev.Addr) == n.connClosed {
								e.monSet(st, "fed", 2)
							}
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						if monI(st, "err") != 1 {
							r.ob(monI(st, "fed") != 0, "fed", "return of "+fnName(f), f.Pos(), st, "a message is not put on the read channel")
						}
					},
				}, apiRoot(f))
			}
			r.atLeast("bytes", 1)
			r.atLeast("fed", 1)
		},
	})
}

// e0param is the i-th parameter, the receiver is parameter 0
func e0param(f *ssa.Function, i int) *ssa.Parameter { return f.Params[i] }

// sliceSpan is the start of a slice within its base
func sliceSpan(v *V) (lo *V, ok bool) {
	if v != nil && v.kind == KOp && v.op == "slice" {
		return v.args[1], true
	}
	return nil, v != nil
}

// spanFrom: lo is l0 plus n
func (e *Eng) spanFrom(st *State, lo, l0, n *V) bool {
	if lo == nil {
		return e.isConst(st, n, 0)
	}
	if l0 != nil {
		n = e.in.add(l0, n)
	}
	return e.same(st, lo, n)
}

func init() {
	register(&Check{
		ID: "A02", Level: "other", Prep: true,
		Technique:   "typestate monitor over path-sensitive interprocedural dataflow with lock sets (go/ssa): closed channels of streams and listeners against every operation that may wait on them",
		Note:        "The closed channel of a stream is closed only in a critical section that found it open; the destroyed notification and the local close both take this way; read, the reader and accept look at the closed state before they wait and while they wait, and return an error when it is set.",
		Assumptions: []string{"a closed channel is always ready to receive from", "a write on a destroyed connection fails (L03); closing an endpoint closes its stop channel (L04)"},
		NotCovered:  "reads that race with the close itself.",
		Run: func(r *Report) {
			ro := r.p.roles()
			n := r.p.netRoles()
			if !ro.need(r) || !n.need(r) {
				return
			}
			r.rule("Everywhere: the closed channel of a stream connection is closed only while a mutex is held under which a select with default found it not closed. Destroyed notification in a stream's reader: on return its closed channel was closed or found closed. Close: if the path closed the channel, the underlying connection is marked destroyed (or found so) before return and the result is nil; if it found it closed, the result is an error and nothing else is done; there is no third way. Read and accept: a receive from the read or accept channel that may block comes after a look at the closed (stop) channel on the same path and has it as alternative; when it was found closed the result is an error and nothing is received. Reader: a send on the read channel that may block has the closed channel as alternative. Write: after the connection's write fails, an error is returned. Close of a listener: on return the stop channel of its endpoint was closed, or the endpoint was found closed.")
			closedBy := func(q *Report) func(e *Eng, st *State, ev *Event) {
				return func(e *Eng, st *State, ev *Event) {
					c := instrName(ev.In, ev.Instr)
					switch ev.Kind {
					case EvDefault:
						if hasChan(ev.Alts, n.connClosed) && heldWrite(st) {
							critSet(e, st, "open", e.in.Int(1, nil))
						}
					case EvRecv:
						if loadedFrom(ev.Addr) == n.connClosed {
							e.monSet(st, "found", 1)
						}
					case EvClose:
						if loadedFrom(ev.Addr) == n.connClosed {
							q.ob(monI(st, "cs:open") == 1 && heldWrite(st), "once", c, ev.Pos, st, "a stream connection is closed without finding it open under the same lock: closes that coincide panic")
							e.monSet(st, "closed", 1)
							critSet(e, st, "open", e.in.Int(2, nil))
						}
					}
					critical(e, st, ev)
				}
			}
			closes := r.p.reaches(func(f *ssa.Function) bool {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if c, ok := i.(ssa.CallInstruction); ok {
							if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && ssaLoadField(c.Common().Args[0]) == n.connClosed {
								return true
							}
						}
					}
				}
				return false
			})
			r.runThreads(func(q *Report) *Rule {
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnCall:  n.prim(nil, nil),
					OnEvent: closedBy(q),
				}
			}, closes)
			r.atLeast("once", 1)
			// the destroyed notification
			for _, f := range n.feeders(r.p, ro) {
				ps := f.Params[len(f.Params)-3:]
				base := closedBy(r)
				r.run(&Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnFork: func(e *Eng, st *State, cond *V, taken bool) {
						cond, taken = stripNot(cond, taken)
						if cond.kind == KOp && cond.op == "eq" && taken {
							for i, a := range cond.args {
								if a == e.Param(f, ps[2]) && strings.Contains(globalName(cond.args[1-i]), "ErrChannelDestroyed") {
									e.monSet(st, "gone", 1)
								}
							}
						}
						if cond.kind == KOp && strings.HasPrefix(cond.op, "call:errors.Is") && taken && len(cond.args) == 2 && strings.Contains(globalName(cond.args[1]), "ErrChannelDestroyed") {
							e.monSet(st, "gone", 1)
						}
						if e.isNil(st, e.Param(f, ps[2])) == 1 {
							e.monSet(st, "noerr", 1)
						}
						if cond.kind == KOp && cond.op == "eq" && !taken {
							for i, a := range cond.args {
								if a == e.Param(f, ps[2]) && strings.Contains(globalName(cond.args[1-i]), "ErrChannelDestroyed") {
									e.monSet(st, "noerr", 1)
								}
							}
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						if ev.Kind == EvSend && loadedFrom(ev.Addr) == n.connQueue && ev.Block {
							r.ob(hasChan(ev.Alts, n.connClosed), "feed", c, ev.Pos, st, "the reader goroutine waits for a read of a stream connection that may be closed")
						}
						base(e, st, ev)
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						if monI(st, "noerr") == 0 {
							r.ob(monI(st, "closed") == 1 || monI(st, "found") == 1, "notified", "return of "+fnName(f), f.Pos(), st, "the destroyed notification does not close the stream connection: reads wait for ever")
						}
					},
				}, apiRoot(f))
			}
			r.atLeast("feed", 1)
			r.atLeast("notified", 1)
			// close
			base := closedBy(r)
			r.run(&Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnFork: func(e *Eng, st *State, cond *V, taken bool) {
					if ch, set := destroyedFork(ro, cond, taken); ch != nil && set {
						e.monSet(st, "down", 1)
					}
				},
				OnEvent: func(e *Eng, st *State, ev *Event) {
					c := instrName(ev.In, ev.Instr)
					if ev.Kind == EvStore && addrField(ev.Addr) == ro.destroyed {
						r.ob(monI(st, "found") == 0 || monI(st, "closed") == 1, "idle", c, ev.Pos, st, "a second close closes the connection again")
						r.ob(monI(st, "closed") == 1, "first", c, ev.Pos, st, "the connection is destroyed before the stream is marked closed: its notification closes the stream and close reports an error")
						e.monSet(st, "down", 1)
					}
					base(e, st, ev)
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(t.Fn)
					p := t.Fn.Pos()
					if monI(st, "closed") == 1 {
						r.ob(monI(st, "down") == 1, "closes", c, p, st, "closing a stream leaves its connection open")
						r.ob(e.isNil(st, ret[0]) == 1, "closes", c+" result", p, st, "closing an open stream returns an error")
					} else {
						r.ob(monI(st, "found") == 1, "closes", c+" state", p, st, "close returns without closing the stream and without finding it closed")
						r.ob(e.isNil(st, ret[0]) == 0, "again", c, p, st, "closing a closed stream returns no error")
					}
				},
			}, apiRoot(n.closeFn))
			for _, k := range []string{"first", "closes", "again"} {
				r.atLeast(k, 1)
			}
			// waiting operations
			for _, w := range []struct {
				f    *ssa.Function
				q, s *types.Var
				what string
			}{{n.read, n.connQueue, n.connClosed, "read"}, {n.acceptFn, n.accept, ro.listenStop, "accept"}} {
				w := w
				is := func(v *V) bool {
					return loadedFrom(v) == w.q || v.typ != nil && types.Identical(v.typ.Underlying(), w.q.Type().Underlying())
				}
				r.run(&Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						switch ev.Kind {
						case EvDefault:
							if hasChan(ev.Alts, w.s) {
								e.monSet(st, "looked", 1)
							}
						case EvRecv:
							switch {
							case loadedFrom(ev.Addr) == w.s:
								e.monSet(st, "closed", 1)
							case is(ev.Addr):
								r.ob(monI(st, "closed") == 0, "after", c, ev.Pos, st, "%s goes on after it found the connection closed", w.what)
								if ev.Block {
									r.ob(hasChan(ev.Alts, w.s), "unblocked", c, ev.Pos, st, "a blocked %s is not released when the connection is closed", w.what)
								}
								r.ob(monI(st, "looked") == 1, "looks", c, ev.Pos, st, "a later %s may succeed after the close: it does not look whether it is closed first", w.what)
								e.monSet(st, "got", 1)
							}
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						if monI(st, "closed") == 1 {
							r.ob(e.isNil(st, ret[1]) == 0, "fails", "return of "+fnName(t.Fn), t.Fn.Pos(), st, "%s returns no error although it found the connection closed", w.what)
						}
					},
				}, apiRoot(w.f))
			}
			for _, k := range []string{"unblocked", "looks", "fails"} {
				r.atLeast(k, 2)
			}
			// write
			ws := map[*ssa.Function]bool{}
			for _, f := range writeRoots(r.p, ro) {
				ws[f] = true
			}
			r.run(&Rule{
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
					if ci.Callee == nil || !ws[ci.Callee] || ci.Callee == n.write || ci.ResT.Len() != 2 {
						return nil, false
					}
					f := st.clone()
					e.monSet(f, "fail", 1)
					f.note(ci.Pos, "the write fails")
					e.monSet(st, "good", 1)
					id := e.freshA(st, "!id", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "id"})
					return []Outcome{{st: st, ret: []*V{id, e.in.Nil()}}, {st: f, ret: []*V{e.in.Int(0, nil), e.newErr(f, ci)}}}, true
				},
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(t.Fn)
					if monI(st, "fail") == 1 {
						r.ob(e.isNil(st, ret[1]) == 0, "write", c, t.Fn.Pos(), st, "a failed write on a stream returns no error")
					} else if monI(st, "good") == 0 {
						r.ob(e.isNil(st, ret[1]) == 0, "write", c+" skipped", t.Fn.Pos(), st, "a write on a stream returns without error and without writing")
					}
				},
			}, apiRoot(n.write))
			r.atLeast("write", 1)
			// close of the listener
			for _, f := range n.listenerClose(r.p) {
				r.run(&Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnFork: func(e *Eng, st *State, cond *V, taken bool) {
						cond, taken = stripNot(cond, taken)
						if loadedFrom(cond) == ro.truClosed && taken {
							e.monSet(st, "end", 1)
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						if (ev.Kind == EvClose || ev.Kind == EvRecv) && loadedFrom(ev.Addr) == ro.listenStop {
							e.monSet(st, "end", 1)
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						r.ob(monI(st, "end") == 1, "listener", "return of "+fnName(f), f.Pos(), st, "closing a listener returns without closing its endpoint: blocked accepts wait for ever")
					},
				}, apiRoot(f))
			}
			r.atLeast("listener", 1)
		},
	})
}

// listenerClose is the close operation of the listener
func (n *netRoles) listenerClose(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.functions() {
		sig := f.Signature
		if f.Name() != "Close" || sig.Recv() == nil || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		t := sig.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i) == n.netTru {
				out = append(out, f)
			}
		}
	}
	return out
}
