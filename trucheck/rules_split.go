package main

// Cutting messages into pieces and joining them: C06, C07.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// writeRoots are the exported operations that encrypt and send bytes given by
// the caller
func writeRoots(p *Program, ro *roles) []*ssa.Function {
	seals := p.reaches(func(f *ssa.Function) bool { return f == ro.encPkt })
	var out []*ssa.Function
	for _, f := range p.apiRoots() {
		if dataParam(f) >= 0 && seals(f) {
			out = append(out, f)
		}
	}
	return out
}

func dataParam(f *ssa.Function) int {
	for i, x := range f.Params {
		if x.Type().String() == "[]byte" {
			return i
		}
	}
	return -1
}

// writeMon follows the pieces of one message
type writeMon struct {
	ro       *roles
	data     *V
	onPiece  func(e *Eng, st *State, ci *CallInfo, lo, n *V, ok bool)
	onRecord func(e *Eng, st *State, ev *Event, c string, pac *V)
	onReturn func(e *Eng, st *State, t *Task, ret []*V)
}

func (m *writeMon) rule() *Rule {
	ro := m.ro
	p := newPrims(ro)
	p.onSealed = func(e *Eng, st *State, ci *CallInfo) {
		d := ci.Args[len(ci.Args)-1]
		lo, n, ok := e.partOf(st, d, m.data)
		m.onPiece(e, st, ci, lo, n, ok)
	}
	return &Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnFork:  stopFork(ro),
		OnCall: func(e *Eng, st *State, ci *CallInfo) ([]Outcome, bool) {
			return p.call(e, st, ci)
		},
		OnEvent: func(e *Eng, st *State, ev *Event) {
			pin(e, st, ev, ro.pktData, ro.pktID, ro.pktStatus)
			switch ev.Kind {
			case EvRecv:
				if loadedFrom(ev.Addr) == ro.listenStop {
					e.monSet(st, monDead, 1)
				}
			case EvCall:
				if (ev.Name == "(*container/list.List).PushBack" || ev.Name == "(*container/list.List).PushFront") && addrField(ev.Args[0]) == ro.sendList && len(ev.Args) > 1 {
					m.onRecord(e, st, ev, instrName(ev.In, ev.Instr), unbox(ev.Args[1]))
				}
			}
		},
		OnReturn: m.onReturn,
	}
}

// partOf says which part of data the bytes are
func (e *Eng) partOf(st *State, d, data *V) (lo, n *V, ok bool) {
	base, lo, n := e.span(d)
	if n == nil {
		n = e.lenOf(st, d, nil)
	}
	if base == data {
		return lo, n, true
	}
	segs, ok := e.flatten(st, d, 0)
	if !ok {
		return nil, n, false
	}
	segs = e.nonEmpty(st, segs)
	if len(segs) == 0 {
		return nil, e.in.Int(0, nil), true
	}
	if len(segs) != 1 || segs[0].b != nil {
		return nil, n, false
	}
	s := segs[0]
	if s.base == data || s.base == e.contentOf(st, data) {
		return s.lo, s.n, true
	}
	return nil, n, false
}

func init() {
	register(&Check{
		ID: "C06", Level: "other", Prep: true,
		Technique:   "path-sensitive abstract interpretation with a position ghost variable (writer) and an inductive typestate argument over reassembly states (reader), go/ssa",
		Note:        "Writer: for every length and limit each piece starts where the last one ended, and the marks agree with what follows. Reader: from the empty state and from every collecting state, one more piece keeps exactly the bytes received since the last message.",
		Assumptions: []string{"encryption is a primitive step (S01)", "pieces arrive at the joining step in order (C01)", "slices returned to the application are not written by it while the library still uses them"},
		NotCovered:  "messages beyond memory.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Writer: at every encryption on a path of an exported write the argument is the part of the caller's bytes that starts where the previous piece ended, and no piece follows a failed or a final one. Every record in the queue of unacknowledged packets is the piece just encrypted, marked as continued if bytes remain and unmarked if none remain; every encrypted piece is recorded. A successful return follows a final piece. Reader: starting empty, a continued piece yields no message and a final piece yields exactly one unmarked message with the bytes since the previous message; this is shown for one piece, for the first and for any further continued piece over arbitrary collected bytes, and again after a message was completed. A delivered message's memory is not appended to later.")
			n := 0
			for _, f := range writeRoots(r.p, ro) {
				n++
				f := f
				m := &writeMon{ro: ro}
				m.onPiece = func(e *Eng, st *State, ci *CallInfo, lo, ln *V, ok bool) {
					c := instrName(ci.In, ci.Instr)
					pos := e.ghost(st, "pos")
					if !r.ob(ok && (lo == nil || e.same(st, lo, pos)), "follows", c, ci.Pos, st, "a piece is %s, it does not follow the first %s bytes", desc(ci.Args[len(ci.Args)-1]), desc(pos)) {
						return
					}
					r.ob(monI(st, "failed") == 0, "afterfailure", c, ci.Pos, st, "a piece is sent although an earlier one failed")
					r.ob(monI(st, "last") == 0, "afterlast", c, ci.Pos, st, "a piece is sent after the final one")
					r.ob(st.mon["piece"] == nil, "recorded", c, ci.Pos, st, "a piece is encrypted before the previous one is recorded")
					e.setGhost(st, "pos", e.in.add(pos, ln))
					st.mon["piece"] = ci.Args[len(ci.Args)-1]
				}
				m.onRecord = func(e *Eng, st *State, ev *Event, c string, pac *V) {
					d := pinned(e, st, pac, ro.pktData)
					s := pinned(e, st, pac, ro.pktStatus)
					if !r.ob(d != nil && d.kind == KOp && d.op == "sealedpkt" && st.mon["piece"] != nil && d.args[2] == st.mon["piece"], "recorded", c, ev.Pos, st, "what is recorded is not the piece just encrypted") {
						return
					}
					delete(st.mon, "piece")
					end := e.mkEq(e.ghost(st, "pos"), e.lenOf(st, m.data, nil))
					switch {
					case e.isConst(st, s, ro.status("statusData", 4)):
						r.ob(e.truth(st, end) == 1, "final", c, ev.Pos, st, "a piece is marked final after %s of %s bytes", desc(e.ghost(st, "pos")), desc(e.lenOf(st, m.data, nil)))
						e.monSet(st, "last", 1)
					case e.isConst(st, s, ro.status("statusDataNext", 0x84)):
						left := e.bounds(st, e.in.sub(e.lenOf(st, m.data, nil), e.ghost(st, "pos"))).lo >= 0
						r.ob(left, "continued", c, ev.Pos, st, "more bytes are sent than were given")
					default:
						r.ob(false, "mark", c, ev.Pos, st, "the status of a piece is %s", desc(s))
					}
				}
				m.onReturn = func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(f)
					if len(ret) == 0 || e.isNil(st, ret[len(ret)-1]) == 0 {
						return
					}
					if isDead(st) && monI(st, "last") == 0 {
						r.ob(e.isNil(st, ret[len(ret)-1]) == 0, "complete", c, f.Pos(), st, "it reports success although the connection is closed")
						return
					}
					r.ob(monI(st, "last") == 1 && st.mon["piece"] == nil, "complete", c, f.Pos(), st, "it reports success after %s of %s bytes", desc(e.ghost(st, "pos")), desc(e.lenOf(st, m.data, nil)))
				}
				rule := m.rule()
				r.run(rule, func(e *Eng) *Task {
					t := e.RootTask(f)
					m.data = t.Args[dataParam(f)]
					t.St.mon["data"] = m.data
					e.setGhost(t.St, "pos", e.in.Int(0, nil))
					return t
				})
			}
			if n == 0 {
				r.fail("no exported write was found")
			}
			r.atLeast("follows", 1)
			r.atLeast("final", 1)
			r.atLeast("continued", 1)
			r.atLeast("complete", 1)
			combineRule(r, ro)
		},
	})
}

// combineRule decides the reader's side
func combineRule(r *Report, ro *roles) {
	fn := ro.combine
	c := fnName(fn)
	var e *Eng
	pi, ci := -1, -1
	for i, p := range fn.Params {
		if types.Identical(p.Type(), types.NewPointer(ro.packet)) {
			pi = i
		} else if _, ok := p.Type().Underlying().(*types.Pointer); ok && ci < 0 {
			ci = i
		}
	}
	if pi < 0 || ci < 0 {
		r.fail("parameters of %s not understood", fn)
		return
	}
	var cobj *V
	npk := 0
	pos := fn.Pos()
	type handed struct{ pac, data *V }
	// step passes one more piece
	step := func(st *State, status int64) (*V, *V, []Outcome) {
		npk++
		pac := e.freshObj(st, types.NewPointer(ro.packet), objSite{label: fmt.Sprintf("piece%d", npk)})
		st.zero[pac] = true
		d := e.freshA(st, "piece", tBytes, symKey{tag: "piece"})
		e.set(st, pac, ro.pktStatus, e.in.Int(status, nil))
		e.set(st, pac, ro.pktData, d)
		args := make([]*V, len(fn.Params))
		args[ci], args[pi] = cobj, pac
		return pac, d, e.runFn(fn, args, nil, st, &Ctx{fn: fn, kids: map[ctxKey]*Ctx{}})
	}
	eqBytes := func(st *State, v *V, want []*V) bool {
		a, ok := e.flatten(st, v, 0)
		if !ok {
			return false
		}
		var b []lseg
		for _, w := range want {
			x, ok := e.flatten(st, w, 0)
			if !ok {
				return false
			}
			b = append(b, x...)
		}
		a, b = e.nonEmpty(st, a), e.nonEmpty(st, b)
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i].b != nil || b[i].b != nil || a[i].base != b[i].base || !e.same(st, a[i].lo, b[i].lo) || !e.same(st, a[i].n, b[i].n) {
				return false
			}
		}
		return true
	}
	var old []handed
	intact := func(st *State) {
		for i, h := range old {
			if st.mon[fmt.Sprintf("handed%d", i+1)] != h.pac {
				continue // of another history
			}
			r.ob(e.same(st, e.get(st, h.pac, ro.pktData), h.data), "intact", c, pos, st, "a message already handed over is changed by a later piece")
		}
	}
	// next: continued piece; end: final piece
	next := func(st *State, got []*V, what string) (outs []*State, ngot []*V) {
		st = st.clone()
		_, d, os := step(st, ro.status("statusDataNext", 0x84))
		for _, o := range os {
			r.ob(e.isNil(o.st, o.ret[0]) == 1, "nomessage", c+": "+what, pos, o.st, "a continued piece yields a message")
			intact(o.st)
			outs = append(outs, o.st)
		}
		return outs, append(append([]*V{}, got...), d)
	}
	end := func(st *State, got []*V, what string) (outs []*State) {
		st = st.clone()
		_, d, os := step(st, ro.status("statusData", 4))
		for _, o := range os {
			res := o.ret[0]
			if !r.ob(e.isNil(o.st, res) == 0, "message", c+": "+what, pos, o.st, "a final piece yields no message") {
				continue
			}
			data := e.get(o.st, res, ro.pktData)
			r.ob(eqBytes(o.st, data, append(append([]*V{}, got...), d)), "bytes", c+": "+what, pos, o.st, "the message is %s, not the pieces received in order", desc(e.contentOf(o.st, data)))
			r.ob(e.isConst(o.st, e.get(o.st, res, ro.pktStatus), ro.status("statusData", 4)), "unmarked", c+": "+what, pos, o.st, "the message is marked %s", desc(e.get(o.st, res, ro.pktStatus)))
			intact(o.st)
			old = append(old, handed{res, data})
			o.st.mon[fmt.Sprintf("handed%d", len(old))] = res
			outs = append(outs, o.st)
		}
		return
	}
	// general replaces the collected bytes by any bytes
	general := func(st *State, got []*V) (*State, *V) {
		st = st.clone()
		w := e.freshA(st, "collected", tBytes, symKey{tag: "collected"})
		hit := false
		for _, k := range sortedV(st.heap) {
			if k.kind == KField && rootBase(k) == cobj {
				if v := st.heap[k]; v.typ != nil || v.kind == KOp {
					if eqBytes(st, v, got) {
						st.heap[k] = w
						hit = true
					}
				}
			}
		}
		if !hit {
			return nil, nil
		}
		return st, w
	}
	fields := func(st *State) map[*V]*V {
		m := map[*V]*V{}
		for k, v := range st.heap {
			if k.kind == KField && rootBase(k) == cobj {
				m[k] = v
			}
		}
		return m
	}
	inductive := true
	var explore func(st *State, d int)
	explore = func(st *State, depth int) {
		after := end(st, nil, "single piece")
		c1, got1 := next(st, nil, "first piece")
		for _, s1 := range c1 {
			after = append(after, end(s1, got1, "second piece")...)
			c2, got2 := next(s1, got1, "second piece")
			for _, s2 := range c2 {
				after = append(after, end(s2, got2, "third piece")...)
				g2, w := general(s2, got2)
				if g2 == nil {
					inductive = false
					c3, got3 := next(s2, got2, "third piece")
					for _, s3 := range c3 {
						after = append(after, end(s3, got3, "fourth piece")...)
					}
					continue
				}
				// any collected bytes, one more piece
				after = append(after, end(g2, []*V{w}, "any further piece")...)
				c3, got3 := next(g2, []*V{w}, "any further piece")
				for _, s3 := range c3 {
					after = append(after, end(s3, got3, "any further piece")...)
					g3, w3 := general(s3, got3)
					ok := g3 != nil
					if ok {
						a, b := fields(g2), fields(g3)
						for k, v := range a {
							if b[k] != v && !(v == w && b[k] == w3) {
								ok = false
							}
						}
						ok = ok && len(a) == len(b)
					}
					inductive = inductive && ok
				}
			}
		}
		if depth > 0 {
			for _, s := range after {
				explore(s, depth-1)
			}
		}
	}
	rule := &Rule{
		NoMerge: true,
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			if ev.Kind == EvCall && ev.Name == "append" && len(ev.Args) > 0 {
				for i, h := range old {
					if st.mon[fmt.Sprintf("handed%d", i+1)] != h.pac {
						continue
					}
					b := sliceBase(ev.Args[0])
					r.ob(b == nil || b.kind == KNil || b != sliceBase(h.data), "reused", instrName(ev.In, ev.Instr), ev.Pos, st, "memory of a message already handed over is appended to")
				}
			}
		},
		OnReturn: func(e1 *Eng, st *State, t *Task, ret []*V) {
			if t.Kind != "root" || e != nil {
				return
			}
			e = e1
			st = st.clone()
			st.env = map[ssa.Value]*V{}
			cobj = e.freshObj(st, fn.Params[ci].Type(), objSite{label: "combine"})
			st.zero[cobj] = true
			st.mon["c"] = cobj // keeps it
			explore(st, 1)
		},
	}
	r.run(rule, apiRoot(fn))
	if e == nil {
		r.fail("%s never returns", fn)
	}
	if inductive {
		r.note = append(r.note, "reassembly: shown inductively for any number of pieces")
	} else {
		r.note = append(r.note, "reassembly: shown for up to four pieces only, the collected bytes were not recognised in the state")
	}
	r.atLeast("bytes", 3)
	r.atLeast("nomessage", 2)
}

func init() {
	register(&Check{
		ID: "C07", Level: "other", Prep: true,
		Technique:   "interval and relational abstract interpretation (go/ssa): growth of encryption and encoding, length of every encrypted piece, invariants of the configured limit",
		Note:        "Growth of encryption plus header is derived from the code and added to the greatest length any piece can have under any configuration.",
		Assumptions: []string{"a packet's bytes go unchanged into one datagram (S02)"},
		NotCovered:  "punch and raw datagrams, whose bytes the application composes; handshake packets.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("The growth of packet encryption is the greatest difference between output and input length over all its successful paths; the growth of encoding likewise. At every encryption on a path of an exported write, length plus both growths is at most 65507. Every piece marked as continued holds at least one byte, and every cut of the message on these paths is within the message. The bounds use the invariant of the limit fields, established from every store to them in the module.")
			grow := func(fn *ssa.Function, in func(e *Eng, st *State, t *Task) *V, what string) int64 {
				worst := int64(-1 << 40)
				r.run(&Rule{
					NoMerge: true,
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						if e.isNil(st, ret[1]) == 0 {
							return
						}
						d := e.bounds(st, e.in.sub(e.lenOf(st, ret[0], nil), e.lenOf(st, in(e, st, t), nil))).hi
						r.ob(d < 1<<20, "growth", "return of "+fnName(fn), fn.Pos(), st, "the growth of %s has no bound", what)
						if d > worst {
							worst = d
						}
					},
				}, apiRoot(fn))
				return worst
			}
			enc := grow(ro.encPkt, func(e *Eng, st *State, t *Task) *V { return t.Args[len(t.Args)-1] }, "encryption")
			mar := grow(ro.marshal, func(e *Eng, st *State, t *Task) *V { return e.get(st, t.Args[0], ro.pktData) }, "encoding")
			r.note = append(r.note, "growth of encryption and encoding: "+fmt.Sprint(enc)+" and "+fmt.Sprint(mar))
			for _, f := range writeRoots(r.p, ro) {
				f := f
				m := &writeMon{ro: ro}
				m.onPiece = func(e *Eng, st *State, ci *CallInfo, lo, ln *V, ok bool) {
					c := instrName(ci.In, ci.Instr)
					d := ci.Args[len(ci.Args)-1]
					hi := e.bounds(st, e.lenOf(st, d, nil)).hi
					r.ob(hi+enc+mar <= 65507 && hi < 1<<30, "fits", c, ci.Pos, st, "a piece of up to %d bytes grows by %d and does not fit into one datagram", hi, enc+mar)
					st.mon["piece"] = d
				}
				m.onRecord = func(e *Eng, st *State, ev *Event, c string, pac *V) {
					s := pinned(e, st, pac, ro.pktStatus)
					if d := st.mon["piece"]; d != nil && e.isConst(st, s, ro.status("statusDataNext", 0x84)) {
						r.ob(e.bounds(st, e.lenOf(st, d, nil)).lo >= 1, "progress", c, ev.Pos, st, "a continued piece may be empty: the limit may be zero or negative")
					}
				}
				rule := m.rule()
				rule.Derefs = true
				base := rule.OnEvent
				rule.OnEvent = func(e *Eng, st *State, ev *Event) {
					if ev.Kind == EvSlice && ev.In != nil && e.p.inModule(ev.In) {
						if b, _, _ := e.span(ev.Addr); b == m.data {
							lo := e.bounds(st, ev.Key).lo >= 0
							mid := e.bounds(st, e.in.sub(ev.Val, ev.Key)).lo >= 0
							hi := ev.Val == ev.Res || e.bounds(st, e.in.sub(ev.Val, ev.Res)).hi <= 0
							r.ob(lo && mid && hi, "cut", instrName(ev.In, ev.Instr), ev.Pos, st, "the message is cut at [%s:%s] of %s: the limit may be negative or outside of the message", desc(ev.Key), desc(ev.Val), desc(ev.Res))
						}
					}
					base(e, st, ev)
				}
				r.run(rule, func(e *Eng) *Task {
					t := e.RootTask(f)
					m.data = t.Args[dataParam(f)]
					return t
				})
			}
			r.atLeast("growth", 2)
			r.atLeast("fits", 1)
			r.atLeast("progress", 1)
		},
	})
}
