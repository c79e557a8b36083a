package main

// Statistics: M05.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// counters are the fields of a connection that count events, by the name of the
// figure of the snapshot that shows them
type counters struct {
	row  *types.Named
	name map[*types.Var]string
	by   map[string]*types.Var
	dup  string
}

func (p *Program) counters() *counters {
	c := &counters{name: map[*types.Var]string{}, by: map[string]*types.Var{}}
	o := p.pkgs["tru"].Pkg.Scope().Lookup("ChannelStatistic")
	if o == nil {
		return nil
	}
	c.row, _ = o.Type().(*types.Named)
	if c.row == nil {
		return nil
	}
	s, _ := c.row.Underlying().(*types.Struct)
	if s == nil {
		return nil
	}
	want := map[string]bool{"Send": true, "Rsnd": true, "Ack": true, "AckD": true, "Recv": true, "Drop": true}
	field := map[*types.Var]string{}
	for i := 0; i < s.NumFields(); i++ {
		if want[s.Field(i).Name()] {
			field[s.Field(i)] = s.Field(i).Name()
		}
	}
	var source func(v ssa.Value, d int) *types.Var
	source = func(v ssa.Value, d int) *types.Var {
		if d > 6 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Convert:
			return source(x.X, d+1)
		case *ssa.ChangeType:
			return source(x.X, d+1)
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return nil
			}
			n := fullName(g)
			if strings.HasPrefix(n, "sync/atomic.Load") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Load") {
				return ssaField(x.Call.Args[0])
			}
			if p.inModule(g) {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						if r, ok := i.(*ssa.Return); ok && len(r.Results) == 1 {
							if f := source(r.Results[0], d+1); f != nil {
								return f
							}
						}
					}
				}
			}
			return nil
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						if f := source(s.Val, d+1); f != nil {
							return f
						}
					}
				}
				return nil
			}
			return ssaField(x.X)
		}
		return ssaLoadField(v)
	}
	for _, f := range p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok || field[ssaField(st.Addr)] == "" {
					continue
				}
				n := field[ssaField(st.Addr)]
				v := source(st.Val, 0)
				if v == nil || field[v] != "" {
					continue
				}
				if c.name[v] != "" && c.name[v] != n {
					c.dup = v.Name() + " is shown as " + c.name[v] + " and as " + n
				}
				c.name[v] = n
				c.by[n] = v
			}
		}
	}
	return c
}

// step: the event changes a counter; ok: by one more
func (c *counters) step(e *Eng, st *State, ev *Event) (f *types.Var, base *V, ok bool) {
	switch ev.Kind {
	case EvStore:
		f = addrField(ev.Addr)
		if f == nil || c.name[f] == "" {
			return nil, nil, false
		}
		base = rootBase(ev.Addr)
		old := e.load(st, ev.Addr, ev.Type)
		n, isN := e.in.sub(ev.Val, old).intVal()
		return f, base, isN && n == 1
	case EvCall:
		if len(ev.Args) == 0 || !strings.HasPrefix(ev.Name, "sync/atomic.") && !strings.HasPrefix(ev.Name, "(*sync/atomic.") || strings.Contains(ev.Name, "Load") {
			return nil, nil, false
		}
		f = addrField(ev.Args[0])
		if f == nil || c.name[f] == "" {
			return nil, nil, false
		}
		n := int64(0)
		if len(ev.Args) > 1 && strings.Contains(ev.Name, "Add") {
			n, _ = ev.Args[1].intVal()
		}
		return f, rootBase(ev.Args[0]), n == 1
	}
	return nil, nil, false
}

// changes: the function itself changes a counter
func (c *counters) changes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if v := ssaField(x.Addr); v != nil && c.name[v] != "" {
					return true
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) > 0 && strings.Contains(fullName(g), "sync/atomic.") {
					if v := ssaField(x.Call.Args[0]); v != nil && c.name[v] != "" {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register(&Check{
		ID: "M05", Level: "other", Prep: true,
		Technique:   "typestate monitors over path-sensitive interprocedural dataflow (go/ssa): event counters against the events themselves, provenance of the figures of a snapshot",
		Note:        "The counters are those whose loads reach the figures of a snapshot row. Datagram handler, writes and retransmission timer are followed per path with the number of steps each counter made; no other code changes a counter. Rows of a snapshot get their figures from one connection.",
		Assumptions: []string{"decoding, decryption, number comparison and reassembly are primitive steps", "accesses are under their locks (K01)"},
		NotCovered:  "speeds, trip time and send delay (how they are computed); the rendering of the table.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			c := r.p.counters()
			if c == nil {
				r.fail("no snapshot row type was found")
				return
			}
			for _, n := range []string{"Send", "Rsnd", "Ack", "AckD", "Recv", "Drop"} {
				r.ob(c.by[n] != nil, "counter", "figure "+n, ro.serve.Pos(), nil, "no counter of the connection was found that is shown as %s", n)
			}
			if !r.ob(c.dup == "", "counter", "figures", ro.serve.Pos(), nil, "counter %s", c.dup) || len(c.by) < 6 {
				return
			}
			r.rule("Every change of a counter adds one to its value. Per path of the datagram handler: data that decrypted and is behind the expected number, or is ahead and already held, counts one dropped packet, other data none; each message put on the reader queue counts one received message before the next one, unless the endpoint is closed; an acknowledgement counts one acknowledgement if its number is on record when it is first looked up and one stale acknowledgement otherwise; nothing else is counted, and only on the connection of the sender's address. Per path of an exported write: a successful one counts one message sent, and at most one per final piece recorded, on that connection. Retransmission timer: each packet put on the sender queue counts one retransmission. No other goroutine changes a counter. Snapshot: all figures stored in one row come from one connection; every connection visited gets one row; a figure stored later goes to the row whose index is that of its connection, and not after the rows were sorted.")
			m05Recv(r, ro, c)
			m05Send(r, ro, c)
			m05Timer(r, ro, c)
			m05Place(r, ro, c)
			m05Rows(r, ro, c)
		},
	})
}

func m05Recv(r *Report, ro *roles, cs *counters) {
	ackS := ro.status("statusAck", 5)
	m := &recvMon{r: r, ro: ro, statuses: []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x84}, other: true}
	isAck := func(st *State) bool { n, ok := m.status(st); return ok && n == ackS }
	ret := "return of " + fnName(ro.serve)
	level := func(e *Eng, st *State, c string, ev *Event) {
		b := monI(st, "bal")
		r.ob(b == 0 || isDead(st), "received", c, ev.Pos, st, "%s", map[bool]string{true: "a message is counted as received but none was handed over", false: "a message is handed over without being counted"}[b > 0])
	}
	m.onCombine = func(e *Eng, st *State, pac *V, c string, ci *CallInfo) {
		level(e, st, c, &Event{Pos: ci.Pos})
		e.monSet(st, "bal", 0)
	}
	m.onSend = func(e *Eng, st *State, ev *Event) {
		if loadedFrom(ev.Addr) != ro.readerCh {
			return
		}
		_, pac, err := sentItem(e, st, ev.Val, ro)
		if pac == nil || e.isNil(st, pac) == 1 || err != nil && e.isNil(st, err) != 1 {
			return
		}
		c := instrName(ev.In, ev.Instr)
		r.ob(monI(st, "bal") >= 0 || isDead(st), "received", c, ev.Pos, st, "a message is handed over without being counted")
		e.monSet(st, "bal", monI(st, "bal")-1)
	}
	m.onEvent = func(e *Eng, st *State, ev *Event) {
		c := instrName(ev.In, ev.Instr)
		switch ev.Kind {
		case EvInvoke:
			if ev.Name == "(net.PacketConn).ReadFrom" {
				for _, k := range []string{"bal", "found", "again", "n:Drop", "n:Ack", "n:AckD"} {
					delete(st.mon, k)
				}
			}
		case EvLookup:
			switch loadedFrom(ev.Addr) {
			case ro.sendIndex:
				if ro.sendIndex != nil && isAck(st) && monI(st, "found") == 0 && e.same(st, stripConv(ev.Key), stripConv(st.mon["wireID"])) {
					e.monSet(st, "found", int64(2-ev.Hit))
				}
			case ro.recvMap:
				if ro.recvMap != nil && m.isData(st) && ev.Hit == 1 && monI(st, "dist") == 3 && e.same(st, stripConv(ev.Key), stripConv(st.mon["wireID"])) {
					e.monSet(st, "again", 1)
				}
			}
		}
		f, base, ok := cs.step(e, st, ev)
		if f == nil {
			return
		}
		n := cs.name[f]
		c += " " + n
		r.ob(ok, "byone", c, ev.Pos, st, "counter %s is not counted up by one", f.Name())
		r.ob(st.mon["ch"] != nil && e.same(st, base, st.mon["ch"]), "own", c, ev.Pos, st, "the counter of another connection is changed")
		switch n {
		case "Recv":
			r.ob(m.isData(st) && monI(st, "dec") == 1 && monI(st, "bal") <= 0, "received", c, ev.Pos, st, "a received message is counted that was not handed over")
			e.monSet(st, "bal", monI(st, "bal")+1)
		case "Drop":
			r.ob(m.isData(st) && monI(st, "dec") == 1 && monI(st, "n:Drop") == 0, "dropped", c, ev.Pos, st, "a dropped packet is counted that was not dropped, or twice")
			e.monSet(st, "n:Drop", 1)
		case "Ack", "AckD":
			r.ob(isAck(st), "acked", c, ev.Pos, st, "an acknowledgement is counted for another datagram")
			e.monSet(st, "n:"+n, monI(st, "n:"+n)+1)
		default:
			r.ob(false, "elsewhere", c, ev.Pos, st, "counter %s is changed by a received datagram", f.Name())
		}
	}
	m.onReturn = func(e *Eng, st *State) {
		if isDead(st) {
			return
		}
		ps := ro.serve.Pos()
		if isAck(st) && st.mon["ch"] != nil {
			a, d := monI(st, "n:Ack"), monI(st, "n:AckD")
			if monI(st, "found") == 1 {
				r.ob(a == 1 && d == 0, "acked", ret+" found", ps, st, "an acknowledgement of a recorded packet is counted %d times, and %d times as stale", a, d)
			} else {
				r.ob(a == 0 && d == 1, "acked", ret+" stale", ps, st, "a stale acknowledgement is counted %d times, and %d times as acknowledgement", d, a)
			}
		}
		if m.isData(st) && monI(st, "dec") == 1 {
			want := int64(0)
			if monI(st, "dist") == 1 || monI(st, "again") == 1 {
				want = 1
			}
			r.ob(monI(st, "n:Drop") == want, "dropped", ret, ps, st, "%d dropped packets are counted, not %d", monI(st, "n:Drop"), want)
			b := monI(st, "bal")
			r.ob(b == 0, "received", ret, ps, st, "%s", map[bool]string{true: "a message is counted as received but none was handed over", false: "a message is handed over without being counted"}[b > 0])
		}
	}
	r.run(m.rule(), listenerRoot(ro.serve))
	for _, n := range []string{"received", "dropped", "acked", "byone", "own"} {
		r.atLeast(n, 2)
	}
}

func m05Send(r *Report, ro *roles, cs *counters) {
	for _, f := range writeRoots(r.p, ro) {
		f := f
		m := &writeMon{ro: ro}
		m.onPiece = func(e *Eng, st *State, ci *CallInfo, lo, n *V, ok bool) {}
		m.onRecord = func(e *Eng, st *State, ev *Event, c string, pac *V) {
			if e.isConst(st, pinned(e, st, pac, ro.pktStatus), ro.status("statusData", 4)) {
				st.mon["rec"] = rootBase(ev.Args[0])
			}
		}
		m.onReturn = func(e *Eng, st *State, t *Task, ret []*V) {
			if len(ret) == 0 {
				return
			}
			c := "return of " + fnName(f)
			n := monI(st, "n:Send")
			switch {
			case e.isNil(st, ret[len(ret)-1]) == 1 && !isDead(st):
				r.ob(n == 1, "sent", c, f.Pos(), st, "a successful write counts %d messages", n)
			case n > 0 && !isDead(st):
				r.ob(st.mon["rec"] != nil, "sent", c+" failed", f.Pos(), st, "a message is counted that was not queued")
			}
		}
		rule := m.rule()
		own := rule.OnEvent
		rule.OnEvent = func(e *Eng, st *State, ev *Event) {
			own(e, st, ev)
			v, base, ok := cs.step(e, st, ev)
			if v == nil {
				return
			}
			c := instrName(ev.In, ev.Instr) + " " + cs.name[v]
			if !r.ob(cs.name[v] == "Send", "elsewhere", c, ev.Pos, st, "counter %s is changed by a write", v.Name()) {
				return
			}
			r.ob(ok, "byone", c, ev.Pos, st, "counter %s is not counted up by one", v.Name())
			r.ob(monI(st, "n:Send") == 0, "sent", c, ev.Pos, st, "one message is counted twice")
			e.monSet(st, "n:Send", 1)
			if st.mon["rec"] != nil {
				r.ob(e.same(st, base, st.mon["rec"]), "own", c, ev.Pos, st, "the counter of another connection is changed")
			}
		}
		r.run(rule, func(e *Eng) *Task {
			t := e.RootTask(f)
			m.data = t.Args[dataParam(f)]
			t.St.mon["data"] = m.data
			return t
		})
	}
	r.atLeast("sent", 2)
}

func m05Timer(r *Report, ro *roles, cs *counters) {
	bodies, armedIn := r.retransmitBodies(ro)
	if len(bodies) == 0 {
		r.fail("no timer function was found that goes through the unacknowledged packets and sends them")
		return
	}
	in := func(e *Eng) bool { return e.root != nil && e.root.Kind == "timer" && bodies[e.root.Fn] }
	level := func(e *Eng, st *State, c string, fn *ssa.Function) {
		b := monI(st, "bal")
		r.ob(b == 0 || isDead(st), "resent", c, fn.Pos(), st, "%s", map[bool]string{true: "a retransmission is counted but nothing was sent", false: "a packet is sent again without being counted"}[b > 0])
	}
	mk := func() *Rule {
		return &Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return t.Kind == "timer" && bodies[t.Fn] },
			OnFork: func(e *Eng, st *State, cond *V, taken bool) {
				stopFork(ro)(e, st, cond, taken)
			},
			OnEvent: func(e *Eng, st *State, ev *Event) {
				c := instrName(ev.In, ev.Instr)
				if v, base, ok := cs.step(e, st, ev); v != nil {
					c += " " + cs.name[v]
					if !r.ob(in(e) && cs.name[v] == "Rsnd", "elsewhere", c, ev.Pos, st, "counter %s is changed by the retransmission", v.Name()) {
						return
					}
					r.ob(ok, "byone", c, ev.Pos, st, "counter %s is not counted up by one", v.Name())
					r.ob(monI(st, "bal") <= 0, "resent", c, ev.Pos, st, "a retransmission is counted twice")
					e.monSet(st, "bal", monI(st, "bal")+1)
					if ch := st.mon["sentch"]; ch != nil {
						r.ob(e.same(st, base, ch), "own", c, ev.Pos, st, "the counter of another connection is changed")
					}
				}
				if !in(e) {
					return
				}
				switch ev.Kind {
				case EvRecv:
					if loadedFrom(ev.Addr) == ro.listenStop {
						e.monSet(st, monDead, 1)
					}
				case EvCall:
					n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*container/list.List)."), "(*container/list.Element).")
					if n != ev.Name && (n == "Front" || n == "Next" || n == "Back" || n == "Prev") {
						level(e, st, c, e.root.Fn)
						delete(st.mon, "bal")
						delete(st.mon, "sentch")
					}
				case EvSend:
					if loadedFrom(ev.Addr) == ro.senderCh {
						ch, _, _ := sentItem(e, st, ev.Val, ro)
						st.mon["sentch"] = ch
						r.ob(monI(st, "bal") >= 0, "resent", c, ev.Pos, st, "a packet is sent again without being counted")
						e.monSet(st, "bal", monI(st, "bal")-1)
					}
				}
			},
			OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				if in(e) {
					level(e, st, "return of "+fnName(t.Fn), t.Fn)
				}
			},
		}
	}
	for _, f := range armedIn {
		r.run(mk(), apiRoot(f))
	}
	r.atLeast("resent", 2)
}

// m05Place: no other code counts
func m05Place(r *Report, ro *roles, cs *counters) {
	bodies, _ := r.retransmitBodies(ro)
	seals := r.p.reaches(func(f *ssa.Function) bool { return f == ro.encPkt })
	r.runThreads(func(q *Report) *Rule {
		p := newPrims(ro)
		return &Rule{
			OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
			OnCall:  p.call,
			OnEvent: func(e *Eng, st *State, ev *Event) {
				v, base, _ := cs.step(e, st, ev)
				if v == nil || !e.shared(st, base) {
					return
				}
				c := instrName(ev.In, ev.Instr) + " " + cs.name[v]
				ok := false
				switch cs.name[v] {
				case "Recv", "Drop", "Ack", "AckD":
					ok = e.p.listenerTask(e.root)
				case "Send":
					ok = e.root.Fn != nil && seals(e.root.Fn)
				case "Rsnd":
					ok = e.root.Kind == "timer" && bodies[e.root.Fn]
				}
				q.ob(ok, "place", c, ev.Pos, st, "counter %s is changed by %s", v.Name(), threadName(e))
			},
		}
	}, r.p.reaches(cs.changes))
	r.atLeast("place", 3)
}

// connsIn collects the connections that a value was computed from
func connsIn(v *V, ro *roles, out *[]*V, d int) {
	if v == nil || d > 12 {
		return
	}
	if v.typ != nil && types.Identical(v.typ, types.NewPointer(ro.channel)) {
		for _, o := range *out {
			if o == v {
				return
			}
		}
		*out = append(*out, v)
		return
	}
	for _, a := range v.args {
		connsIn(a, ro, out, d+1)
	}
}

// m05Rows: the snapshot
func m05Rows(r *Report, ro *roles, cs *counters) {
	f := r.p.lookupFunc("tru", "(*Tru).Statistic")
	if f == nil {
		r.fail("(*Tru).Statistic was not found")
		return
	}
	rowStruct := cs.row.Underlying().(*types.Struct)
	rowField := map[*types.Var]bool{}
	for i := 0; i < rowStruct.NumFields(); i++ {
		rowField[rowStruct.Field(i)] = true
	}
	isConn := func(t types.Type) bool { return t != nil && types.Identical(t, types.NewPointer(ro.channel)) }
	// index of a connection taken from a list of connections
	place := func(ch *V) (list, idx *V) {
		if ch != nil && ch.kind == KSym && len(ch.args) > 0 && ch.args[0].kind == KIndex {
			return ch.args[0].args[0], ch.args[0].args[1]
		}
		return nil, nil
	}
	closeIt := func(e *Eng, st *State, c string, ps *Event) {
		it := st.mon["it"]
		if it == nil {
			return
		}
		rows, conns := monI(st, "rows"), monI(st, "conns")
		r.ob(rows == 1 || rows == 0 && conns == 1, "everyone", c, ps.Pos, st, "a connection gets %d rows", rows)
		if monI(st, "two") == 1 || conns > 0 {
			r.ob(conns == rows || rows == 0, "lockstep", c, ps.Pos, st, "the list of connections and the rows get out of step: %d connections for %d rows", conns, rows)
		}
		if rows == 1 && conns == 1 {
			e.monSet(st, "two", 1)
		}
		for _, k := range []string{"it", "rows", "conns", "part"} {
			delete(st.mon, k)
		}
	}
	rule := &Rule{
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			c := instrName(ev.In, ev.Instr)
			switch ev.Kind {
			case EvRange:
				if loadedFrom(ev.Addr) == ro.chans {
					closeIt(e, st, c, ev)
				}
			case EvLookup:
				if loadedFrom(ev.Addr) == ro.chans && ev.Hit == 1 && isConn(ev.Val.typ) {
					st.mon["it"] = ev.Val
				}
			case EvStore:
				fld := addrField(ev.Addr)
				if fld == nil || !rowField[fld] {
					return
				}
				c += " " + fld.Name()
				var chs []*V
				connsIn(ev.Val, ro, &chs, 0)
				if !r.ob(len(chs) <= 1, "onerow", c, ev.Pos, st, "the figure is computed from two connections") || len(chs) == 0 {
					return
				}
				ch := chs[0]
				x := ev.Addr
				for x.kind == KField {
					x = x.args[0]
				}
				if x.kind == KIndex {
					if l, idx := place(ch); l != nil {
						r.ob(e.same(st, idx, x.args[1]), "samerow", c, ev.Pos, st, "the figure of connection %s is stored in row %s", desc(idx), desc(x.args[1]))
						r.ob(monI(st, "sorted") == 0, "unsorted", c, ev.Pos, st, "rows are matched with connections by index after they were sorted")
						return
					}
					// a figure of the connection being visited
					if ch == st.mon["it"] {
						if monI(st, "part") == 0 && monI(st, "rows") == 0 {
							e.monSet(st, "part", 1)
							st.mon["partrow"] = x
							e.monSet(st, "rows", 1)
						} else if p := st.mon["partrow"]; monI(st, "part") == 1 && p != nil {
							r.ob(p == x || e.same(st, p.args[1], x.args[1]), "samerow", c, ev.Pos, st, "figures of one connection are stored in different rows")
						}
					}
					return
				}
				if st.mon["rowobj"] == x && st.mon["rowch"] != nil {
					r.ob(e.same(st, st.mon["rowch"], ch), "onerow", c, ev.Pos, st, "one row gets figures of two connections")
				} else {
					r.ob(true, "onerow", c, ev.Pos, st, "")
				}
				st.mon["rowobj"], st.mon["rowch"] = x, ch
			case EvCall:
				switch {
				case ev.Name == "append" && len(ev.Args) == 2:
					els, ok := e.elems(st, ev.Args[1])
					if !ok {
						return
					}
					for _, v := range els {
						switch {
						case v.typ != nil && types.Identical(v.typ, cs.row) || v.kind == KStruct && v.typ != nil && types.Identical(v.typ.Underlying(), rowStruct):
							var chs []*V
							connsIn(v, ro, &chs, 0)
							r.ob(len(chs) <= 1, "onerow", c, ev.Pos, st, "a row is made of figures of %d connections", len(chs))
							if it := st.mon["it"]; it != nil && len(chs) == 1 {
								r.ob(e.same(st, chs[0], it), "onerow", c, ev.Pos, st, "the row of a connection has figures of another one")
							}
							if st.mon["it"] != nil {
								e.monSet(st, "rows", min(monI(st, "rows")+1, 2))
							}
						case isConn(v.typ):
							if it := st.mon["it"]; it != nil {
								r.ob(e.same(st, v, it), "lockstep", c, ev.Pos, st, "the connection listed is not the one of the row")
							}
							if st.mon["it"] != nil {
								e.monSet(st, "conns", min(monI(st, "conns")+1, 2))
							}
						}
					}
				case strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.Sort"):
					e.monSet(st, "sorted", 1)
				}
			}
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			closeIt(e, st, "return of "+fnName(f), &Event{Pos: f.Pos()})
		},
	}
	r.run(rule, apiRoot(f))
	for _, n := range []string{"everyone", "onerow"} {
		r.atLeast(n, 1)
	}
}
