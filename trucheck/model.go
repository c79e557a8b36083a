package main

// Models of builtins, of the standard library and of other dependencies.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) builtin(st *State, name string, ci *CallInfo) []Outcome {
	in := e.in
	a := ci.Args
	one := func(v ...*V) []Outcome { return []Outcome{{st: st, ret: v}} }
	var ssaArgs []ssa.Value
	ssaArgs = ci.Instr.Common().Args
	switch name {
	case "len":
		t := ssaArgs[0].Type()
		switch t.Underlying().(type) {
		case *types.Map:
			e.event(st, &Event{Kind: EvRange, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Addr: a[0], Ctx: ci.Ctx})
			return one(e.freshA(st, "len", tNonNeg, symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "len"}, a[0]))
		case *types.Chan:
			return one(e.freshA(st, "len", tNonNeg, symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "len"}, a[0]))
		}
		return one(e.lenOf(st, a[0], t))
	case "cap":
		t := ssaArgs[0].Type()
		if _, ok := t.Underlying().(*types.Chan); ok {
			return one(in.mk(V{kind: KOp, op: "cap", args: []*V{a[0]}, typ: tInt}))
		}
		c := in.mk(V{kind: KOp, op: "cap", args: []*V{a[0]}, typ: tInt})
		st.setBnd(e, in.sub(c, e.lenOf(st, a[0], t)), iv{0, maxI})
		return one(c)
	case "append":
		var args []*V
		if a[0].kind == KOp && a[0].op == "append" {
			args = append(args, a[0].args...)
		} else {
			args = append(args, a[0])
		}
		for i, x := range a[1:] {
			if x.kind == KNil {
				continue
			}
			if isStr(ssaArgs[i+1].Type()) {
				x = in.Op("str2bytes", nil, x)
			}
			// resolve small literal arrays to their values
			x = e.freezeSlice(st, x)
			if c := e.contentOf(st, x); c != x && x.kind == KOp && x.op == "slice" {
				x = c // the bytes are copied now
			}
			args = append(args, x)
		}
		r := a[0]
		if len(args) > 1 {
			r = in.mk(V{kind: KOp, op: "append", args: args})
		}
		e.event(st, &Event{Kind: EvCall, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Name: "append", Args: a, Res: r, Ctx: ci.Ctx})
		return one(r)
	case "copy":
		dst, src := a[0], a[1]
		n := e.freshA(st, "copied", tInt, symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "cp"})
		ld, ls := e.lenOf(st, dst, ssaArgs[0].Type()), e.lenOf(st, src, ssaArgs[1].Type())
		if ld == ls {
			n = ld
		} else if r := e.bounds(st, in.sub(ld, ls)); r.lo >= 0 {
			n = ls
		} else if r.hi <= 0 {
			n = ld
		} else {
			n = in.Op("min", tInt, order2(ld, ls)...)
			st.setBnd(e, n, iv{0, maxI})
			st.setBnd(e, in.sub(n, ld), iv{minI, 0})
			st.setBnd(e, in.sub(n, ls), iv{minI, 0})
		}
		e.event(st, &Event{Kind: EvCopy, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Addr: dst, Val: src, Res: n, Ctx: ci.Ctx})
		cs := e.contentOf(st, src)
		if isStr(ssaArgs[1].Type()) {
			cs = in.Op("str2bytes", nil, src)
		}
		part := dst
		if n != ld {
			if dst.kind == KOp && dst.op == "slice" {
				part = e.mkSlice(dst.args[0], dst.args[1], n, nil)
			} else {
				part = e.mkSlice(dst, in.Int(0, nil), n, nil)
			}
		}
		if n != ls {
			cs = e.subContent(st, cs, in.Int(0, nil), n)
		}
		if cs != nil && part.kind == KOp && part.op == "slice" {
			e.setContent(st, part, cs)
		} else {
			e.killContent(st, dst)
		}
		return one(n)
	case "delete":
		e.event(st, &Event{Kind: EvMapDelete, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Addr: a[0], Key: a[1], Ctx: ci.Ctx, Hit: e.knownEnt(st, a[0], a[1]), Val: st.heap[e.mapent(a[0], a[1])]})
		e.killEnts(st, a[0], a[1])
		st.heap[e.mapent(a[0], a[1])] = in.Op(absentOp, nil)
		return one()
	case "close":
		e.event(st, &Event{Kind: EvClose, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Addr: a[0], Ctx: ci.Ctx})
		return one()
	case "panic":
		return nil
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			b := e.bounds(st, in.sub(r, x))
			if name == "min" && b.hi <= 0 || name == "max" && b.lo >= 0 {
				continue
			}
			if name == "min" && b.lo >= 0 || name == "max" && b.hi <= 0 {
				r = x
				continue
			}
			n := in.Op(name, tInt, order2(r, x)...)
			for _, y := range []*V{r, x} {
				if name == "min" {
					st.setBnd(e, in.sub(n, y), iv{minI, 0})
				} else {
					st.setBnd(e, in.sub(n, y), iv{0, maxI})
				}
			}
			r = n
		}
		return one(r)
	case "clear":
		for k := range st.heap {
			if k.kind == KOp && k.op == "mapent" && k.args[0] == a[0] {
				delete(st.heap, k)
			}
		}
		e.event(st, &Event{Kind: EvMapDelete, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Addr: a[0], Key: in.Nil(), Ctx: ci.Ctx, Hit: -1})
		return one()
	case "recover":
		return one(e.fresh(st, "recovered", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx}))
	case "print", "println":
		return one()
	case "ssa:wrapnilchk":
		return one(a[0])
	}
	return e.unknownCall(st, ci, false)
}

func order2(a, b *V) []*V {
	if a.id > b.id {
		return []*V{b, a}
	}
	return []*V{a, b}
}

var tNonNeg = types.Typ[types.Uint]

// content of a byte slice: the value its bytes had when they were last known
func (e *Eng) contentKey(s *V) *V { return e.in.mk(V{kind: KOp, op: "content", args: []*V{s}}) }

func (e *Eng) contentOf(st *State, s *V) *V {
	if v, ok := st.heap[e.contentKey(s)]; ok {
		return v
	}
	if s.kind == KOp && s.op == "slice" {
		if v := e.litSlice(st, s); v != nil {
			return v
		}
		if v := e.tiled(st, s); v != nil {
			return v
		}
		return s
	}
	if s.kind == KOp && s.op == "append" {
		var args []*V
		for i, a := range s.args {
			c := e.contentOf(st, a)
			if i == 0 && (c.kind == KNil || c.kind == KOp && c.op == "slice" && c.args[2] == e.in.Int(0, nil)) {
				continue
			}
			if c.kind == KOp && c.op == "zeros" && c.args[0] == e.in.Int(0, nil) {
				continue
			}
			if c.kind == KOp && c.op == "bytes" {
				args = append(args, c.args...)
				continue
			}
			args = append(args, c)
		}
		if len(args) == 1 {
			return args[0]
		}
		return e.in.mk(V{kind: KOp, op: "bytes", args: args})
	}
	return s
}

// span is the part of a base a slice designates; n nil means all of it
func (e *Eng) span(s *V) (base, lo, n *V) {
	if s.kind == KOp && s.op == "slice" {
		return s.args[0], s.args[1], s.args[2]
	}
	return s, e.in.Int(0, nil), nil
}

// apart: two parts of one base provably share no element
func (e *Eng) apart(st *State, lo1, n1, lo2, n2 *V) bool {
	before := func(lo, n, lo2 *V) bool {
		return n != nil && e.bounds(st, e.in.sub(lo2, e.in.add(lo, n))).lo >= 0
	}
	return before(lo1, n1, lo2) || before(lo2, n2, lo1)
}

// piece is a known part of the content of an allocated object
type piece struct{ lo, n, val *V }

func (e *Eng) pieces(st *State, o *V) []piece {
	var out []piece
	for k, v := range st.heap {
		switch {
		case k.kind == KOp && k.op == "content" && k.args[0].kind == KOp && k.args[0].op == "slice" && k.args[0].args[0] == o:
			out = append(out, piece{k.args[0].args[1], k.args[0].args[2], v})
		case k.kind == KIndex && k.args[0] == o:
			out = append(out, piece{k.args[1], e.in.Int(1, nil), e.in.mk(V{kind: KOp, op: "lit", args: []*V{v}})})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].lo.id != out[j].lo.id {
			return out[i].lo.id < out[j].lo.id
		}
		return out[i].n.id < out[j].n.id
	})
	return out
}

func (e *Eng) marked(st *State, mark string, o *V) bool {
	_, ok := st.heap[e.in.Op(mark, nil, o)]
	return ok
}

// tiled puts the content of a slice of an own object together from the parts
// that were written, and zeros between them
func (e *Eng) tiled(st *State, s *V) *V {
	o, lo, n := e.span(s)
	if o.kind != KObj || n == nil {
		return nil
	}
	ps := e.pieces(st, o)
	clean := st.zero[o] && !e.marked(st, "touched", o) && !e.marked(st, "dirty", o)
	zeros := func(n *V) *V { return e.in.Op("zeros", nil, n) }
	if len(ps) == 0 {
		if clean {
			return zeros(n)
		}
		return nil
	}
	end := e.in.add(lo, n)
	var rest []piece
	for _, p := range ps {
		if e.apart(st, p.lo, p.n, lo, n) {
			continue
		}
		// inside of one part
		if e.bounds(st, e.in.sub(lo, p.lo)).lo >= 0 && e.bounds(st, e.in.sub(e.in.add(p.lo, p.n), end)).lo >= 0 {
			return e.subContent(st, p.val, e.in.sub(lo, p.lo), n)
		}
		rest = append(rest, p)
	}
	var out []*V
	add := func(v *V) {
		if v.kind == KOp && v.op == "bytes" {
			out = append(out, v.args...)
		} else {
			out = append(out, v)
		}
	}
	pos := lo
	for steps := 0; steps < 80; steps++ {
		if e.same(st, pos, end) {
			break
		}
		next := -1
		for i, p := range rest {
			if e.same(st, p.lo, pos) {
				next = i
				break
			}
		}
		if next < 0 {
			// zeros up to the nearest part
			if !clean {
				return nil
			}
			best := -1
			for i, p := range rest {
				least := true
				for j, q := range rest {
					if i != j && e.bounds(st, e.in.sub(q.lo, p.lo)).lo < 0 {
						least = false
					}
				}
				if least {
					best = i
					break
				}
			}
			if best < 0 {
				if len(rest) > 0 {
					return nil
				}
				out = append(out, zeros(e.in.sub(end, pos)))
				pos = end
				break
			}
			gap := e.in.sub(rest[best].lo, pos)
			if e.bounds(st, gap).lo < 0 {
				return nil
			}
			out = append(out, zeros(gap))
			pos = rest[best].lo
			next = best
		}
		p := rest[next]
		add(p.val)
		pos = e.in.add(pos, p.n)
		rest = append(append([]piece{}, rest[:next]...), rest[next+1:]...)
	}
	if !e.same(st, pos, end) || len(rest) > 0 {
		return nil
	}
	if len(out) == 0 {
		return zeros(e.in.Int(0, nil))
	}
	if len(out) == 1 {
		return out[0]
	}
	// neighbouring single bytes
	var m []*V
	for _, v := range out {
		if k := len(m) - 1; k >= 0 && v.kind == KOp && v.op == "lit" && m[k].kind == KOp && m[k].op == "lit" {
			m[k] = e.in.mk(V{kind: KOp, op: "lit", args: append(append([]*V{}, m[k].args...), v.args...)})
			continue
		}
		m = append(m, v)
	}
	if len(m) == 1 {
		return m[0]
	}
	return e.in.mk(V{kind: KOp, op: "bytes", args: m})
}

// subContent is a part of a content
func (e *Eng) subContent(st *State, v, off, n *V) *V {
	zero := e.in.Int(0, nil)
	if e.same(st, off, zero) && e.same(st, n, e.lenOf(st, v, nil)) {
		return v
	}
	switch {
	case v.kind == KSym:
		return e.mkSlice(v, off, n, nil)
	case v.kind == KOp && v.op == "slice":
		return e.subBytes(v, off, n)
	case v.kind == KOp && v.op == "zeros":
		return e.in.Op("zeros", nil, n)
	case v.kind == KOp && v.op == "lit":
		a, ok1 := off.intVal()
		b, ok2 := n.intVal()
		if ok1 && ok2 && a >= 0 && b >= 0 && a+b <= int64(len(v.args)) {
			return e.in.mk(V{kind: KOp, op: "lit", args: append([]*V{}, v.args[a:a+b]...)})
		}
	case v.kind == KOp && v.op == "bytes":
		var out []*V
		pos, end := zero, e.in.add(off, n)
		for _, x := range v.args {
			l := e.lenOf(st, x, nil)
			nx := e.in.add(pos, l)
			switch {
			case e.bounds(st, e.in.sub(off, nx)).lo >= 0 || e.bounds(st, e.in.sub(pos, end)).lo >= 0:
			case e.bounds(st, e.in.sub(pos, off)).lo >= 0 && e.bounds(st, e.in.sub(end, nx)).lo >= 0:
				out = append(out, x)
			case e.bounds(st, e.in.sub(off, pos)).lo >= 0 && e.bounds(st, e.in.sub(nx, end)).lo >= 0:
				return e.subContent(st, x, e.in.sub(off, pos), n)
			default:
				return nil
			}
			pos = nx
		}
		if len(out) == 1 {
			return out[0]
		}
		return e.in.mk(V{kind: KOp, op: "bytes", args: out})
	}
	return nil
}

// litSlice resolves a slice of an array all of whose elements are known
func (e *Eng) litSlice(st *State, s *V) *V {
	o := s.args[0]
	if o.kind != KObj {
		return nil
	}
	lo, ok1 := s.args[1].intVal()
	n, ok2 := s.args[2].intVal()
	if !ok1 || !ok2 || n > 64 {
		return nil
	}
	pt, ok := o.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	if e.marked(st, "dirty", o) || e.marked(st, "touched", o) {
		return nil
	}
	for k := range st.heap {
		if k.kind == KOp && k.op == "content" && k.args[0].kind == KOp && k.args[0].op == "slice" && k.args[0].args[0] == o && !e.apart(st, k.args[0].args[1], k.args[0].args[2], s.args[1], s.args[2]) {
			return nil
		}
	}
	var el []*V
	for i := lo; i < lo+n; i++ {
		v := st.heap[e.in.Index(o, e.in.Int(i, nil), types.NewPointer(at.Elem()))]
		if v == nil {
			if _, ok := at.Elem().Underlying().(*types.Struct); ok {
				// the fields of an element are held apart
				v = e.load(st, e.in.Index(o, e.in.Int(i, nil), types.NewPointer(at.Elem())), at.Elem())
			} else if !st.zero[o] {
				return nil
			} else {
				v = e.zeroVal(at.Elem())
			}
		}
		el = append(el, v)
	}
	return e.in.mk(V{kind: KOp, op: "lit", args: el})
}

// freezeSlice replaces a slice of a private literal array by its elements
func (e *Eng) freezeSlice(st *State, s *V) *V {
	if s.kind == KOp && s.op == "slice" && s.args[0].kind == KObj && !st.esc[s.args[0]] {
		if _, isArr := s.args[0].typ.Underlying().(*types.Pointer); isArr {
			if v := e.litSlice(st, s); v != nil {
				return e.in.mk(V{kind: KOp, op: "elems", args: append([]*V{s.args[2]}, v.args...)})
			}
			if v := e.contentOf(st, s); v != s {
				return v
			}
		}
	}
	return s
}

// clobber forgets what is known of the bytes of s; it tells whether something
// outside of s was forgotten with them
func (e *Eng) clobber(st *State, s *V) (lost bool) {
	base, lo, n := e.span(s)
	for k := range st.heap {
		if k.kind == KOp && k.op == "content" {
			if e.sliceOverlap(k.args[0], s) {
				b2, lo2, n2 := e.span(k.args[0])
				if b2 == base {
					if e.apart(st, lo, n, lo2, n2) {
						continue
					}
					if n == nil || n2 == nil || e.bounds(st, e.in.sub(lo2, lo)).lo < 0 || e.bounds(st, e.in.sub(e.in.add(lo, n), e.in.add(lo2, n2))).lo < 0 {
						lost = true
					}
				} else if b2.kind == KObj {
					st.heap[e.in.Op("touched", nil, b2)] = e.in.Bool(true)
				}
				delete(st.heap, k)
			}
		}
		if k.kind == KIndex && s.kind == KOp && s.op == "slice" && rootBase(k) == rootBase(base) {
			if k.args[0] == base && e.apart(st, lo, n, k.args[1], e.in.Int(1, nil)) {
				continue
			}
			if k.args[0] != base || e.bounds(st, e.in.sub(k.args[1], lo)).lo < 0 || e.bounds(st, e.in.sub(e.in.add(lo, n), e.in.addC(k.args[1], 1))).lo < 0 {
				lost = true
			}
			if st.heap[k] != nil {
				delete(st.heap, k)
			}
		}
	}
	return
}

// killContent: unknown bytes are written to s
func (e *Eng) killContent(st *State, s *V) {
	e.clobber(st, s)
	if base, _, _ := e.span(s); base != s || base.kind == KObj {
		st.heap[e.in.Op("touched", nil, base)] = e.in.Bool(true)
	}
}

// setContent: the bytes v are written to s
func (e *Eng) setContent(st *State, s, v *V) {
	if e.clobber(st, s) {
		if base, _, _ := e.span(s); base != s {
			st.heap[e.in.Op("touched", nil, base)] = e.in.Bool(true)
		}
	}
	st.heap[e.contentKey(s)] = v
}

func (e *Eng) sliceOverlap(a, b *V) bool {
	ba, bb := a, b
	if a.kind == KOp && a.op == "slice" {
		ba = a.args[0]
	}
	if b.kind == KOp && b.op == "slice" {
		bb = b.args[0]
	}
	if ba.kind == KObj && bb.kind == KObj {
		return ba == bb
	}
	return true
}

// ---------------------------------------------------------------- external

var pureFuncs = map[string]bool{
	"(net.IP).String": true, "(time.Duration).Microseconds": true, "(time.Duration).Seconds": true,
	"(time.Time).Add": true, "(time.Time).Sub": true, "(time.Time).Before": true, "(time.Time).After": true,
	"(time.Time).UnixNano": true, "(time.Time).IsZero": true, "(time.Time).Format": true, "(time.Time).Equal": true,
	"(time.Time).UnixMilli": true, "(time.Time).Unix": true, "(time.Time).UnixMicro": true,
}

func purePkg(p string) bool {
	switch p {
	case "strings", "strconv", "math", "unicode", "unicode/utf8", "path", "bytes", "math/bits", "errors":
		return true
	}
	return false
}

func fullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

var hashKinds = map[string]int64{
	"crypto/md5.New": 16, "crypto/sha1.New": 20, "crypto/sha256.New": 32, "crypto/sha512.New": 64,
	"crypto/sha256.New224": 28, "crypto/sha512.New384": 48, "crypto/sha512.New512_256": 32, "crypto/sha512.New512_224": 28,
}

var hashSums = map[string]int64{
	"crypto/md5.Sum": 16, "crypto/sha1.Sum": 20, "crypto/sha256.Sum256": 32, "crypto/sha512.Sum512": 64,
}

// more locks than this are never held at a time
const maxHeld = 6

func (e *Eng) external(st *State, ci *CallInfo) []Outcome {
	name := fullName(ci.Callee)
	a := ci.Args
	in := e.in
	one := func(v ...*V) []Outcome { return []Outcome{{st: st, ret: v}} }
	ev := &Event{Kind: EvCall, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Name: name, Callee: ci.Callee, Args: a, Ctx: ci.Ctx}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		mode := byte('W')
		if strings.HasSuffix(name, "RLock") {
			mode = 'R'
		}
		ev.Kind, ev.Addr, ev.Mode = EvLock, a[0], mode
		e.event(st, ev)
		same := 0
		for _, l := range st.locks {
			if l.addr == a[0] {
				same++
				if mode == 'W' || l.mode == 'W' {
					return nil // waits for itself for ever (reported by K02)
				}
			}
		}
		if same > 1 || len(st.locks) >= maxHeld {
			return nil // a lock that is not released in a loop (reported by K02)
		}
		st.locks = append(st.locks, lockEnt{a[0], mode, ci.Pos})
		e.invalidate(st, false)
		return one()
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		mode := byte('W')
		if strings.HasSuffix(name, "RLock") {
			mode = 'R'
		}
		s2 := st.clone()
		st.locks = append(st.locks, lockEnt{a[0], mode, ci.Pos})
		e.invalidate(st, false)
		return []Outcome{{st: st, ret: []*V{in.Bool(true)}}, {st: s2, ret: []*V{in.Bool(false)}}}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		mode := byte('W')
		if strings.HasSuffix(name, "RUnlock") {
			mode = 'R'
		}
		ev.Kind, ev.Addr, ev.Mode = EvUnlock, a[0], mode
		for _, l := range st.locks {
			if l.addr == a[0] && l.mode == mode {
				ev.Hit = 1
			}
		}
		e.event(st, ev)
		for i := len(st.locks) - 1; i >= 0; i-- {
			if st.locks[i].addr == a[0] && st.locks[i].mode == mode {
				nl := append([]lockEnt{}, st.locks[:i]...)
				st.locks = append(nl, st.locks[i+1:]...)
				break
			}
		}
		return one()
	case "time.AfterFunc":
		e.event(st, ev)
		r := e.freshA(st, "!timer", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "t"})
		ev.Res = r
		e.spawn(st, "timer", ci.Pos, a[1], nil, ci.Instr, ci.Ctx, ci.In)
		return one(r)
	case "errors.New", "fmt.Errorf":
		e.event(st, ev)
		return one(e.freshA(st, "!err", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "e"}))
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		e.event(st, ev)
		return nil
	case "(*sync.Once).Do":
		e.event(st, ev)
		s2 := st.clone()
		e.invalidate(s2, false)
		outs := e.runClosure(st, a[1], ci, nil)
		return append(outs, Outcome{st: s2})
	case "sort.Slice", "sort.SliceStable":
		e.event(st, ev)
		s2 := st.clone()
		outs := e.runClosure(st, a[1], ci, nil)
		for i := range outs {
			outs[i].ret = nil
		}
		return append(outs, Outcome{st: s2})
	case "time.Now":
		e.event(st, ev)
		return one(e.freshA(st, "now", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "n"}))
	case "time.Since":
		e.event(st, ev)
		return one(e.freshA(st, "since", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "n"}, a[0]))
	case "(*container/list.List).PushBack", "(*container/list.List).PushFront":
		r := e.freshA(st, "!listelem", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "l"})
		e.escape(st, a[1])
		if s := derefStruct(ci.ResT.At(0).Type()); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Value" {
					st.heap[in.FieldAddr(r, i, s)] = a[1]
				}
			}
		}
		ev.Res = r
		e.event(st, ev)
		return one(r)
	case "bytes.NewReader":
		e.event(st, ev)
		o := e.freshObj(st, ci.ResT.At(0).Type(), objSite{instr: ci.Instr.Value(), ctx: ci.Ctx, label: "reader"})
		st.heap[in.Op("rd", nil, o)] = e.contentOrSelf(st, a[0])
		st.heap[in.Op("rdoff", tInt, o)] = in.Int(0, nil)
		return one(o)
	case "bytes.NewBuffer", "bytes.NewBufferString":
		e.event(st, ev)
		o := e.freshObj(st, ci.ResT.At(0).Type(), objSite{instr: ci.Instr.Value(), ctx: ci.Ctx, label: "buffer"})
		st.heap[in.Op("wr", nil, o)] = e.bytesAppend(in.mk(V{kind: KOp, op: "bytes"}), e.contentOf(st, a[0]))
		st.zero[o] = true
		return one(o)
	case "(*bytes.Reader).Len":
		if d, ok := st.heap[in.Op("rd", nil, a[0])]; ok {
			off := st.heap[in.Op("rdoff", tInt, a[0])]
			return one(in.sub(e.lenOf(st, d, nil), off))
		}
	case "(*bytes.Reader).Read", "io.ReadFull", "io.ReadAll", "(*bytes.Reader).ReadByte":
		if r := e.readerOps(st, name, ci); r != nil {
			e.event(st, ev)
			return r
		}
	case "encoding/binary.Write":
		e.event(st, ev)
		if b := unbox(a[0]); b != nil && b.kind == KObj {
			k := in.Op("wr", nil, b)
			cur := st.heap[k]
			if cur == nil {
				cur = in.mk(V{kind: KOp, op: "bytes"})
			}
			v := a[2]
			st.heap[k] = e.bytesAppend(cur, in.mk(V{kind: KOp, op: "enc", args: []*V{a[1], e.freezeIface(st, v)}}))
			return one(in.Nil())
		}
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte":
		e.event(st, ev)
		k := in.Op("wr", nil, a[0])
		cur := st.heap[k]
		if cur == nil {
			cur = in.mk(V{kind: KOp, op: "bytes"})
		}
		v := e.contentOf(st, a[1])
		if name == "(*bytes.Buffer).WriteByte" {
			v = in.mk(V{kind: KOp, op: "byte", args: []*V{a[1]}})
		}
		st.heap[k] = e.bytesAppend(cur, v)
		if name == "(*bytes.Buffer).WriteByte" {
			return one(in.Nil())
		}
		return one(e.lenOf(st, a[1], nil), in.Nil())
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Buffer).String":
		e.event(st, ev)
		cur := st.heap[in.Op("wr", nil, a[0])]
		if cur == nil && st.zero[a[0]] {
			cur = in.mk(V{kind: KOp, op: "bytes"})
		}
		if cur != nil {
			if strings.HasSuffix(name, "Len") {
				return one(e.lenOf(st, cur, nil))
			}
			if strings.HasSuffix(name, "String") {
				return one(in.Op("bytes2str", nil, cur))
			}
			return one(cur)
		}
	case "encoding/binary.Read":
		if r := e.binaryRead(st, ci); r != nil {
			e.event(st, ev)
			return r
		}
	case "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint64",
		"(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint64":
		e.event(st, ev)
		end := "le"
		if strings.Contains(name, "bigEndian") {
			end = "be"
		}
		n := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		e.indexOblig(st, ci, a[1], n)
		pbase, plo, _ := e.span(a[1])
		e.setContent(st, e.mkSlice(pbase, plo, in.Int(n, nil), nil), in.OpI("put"+end, int(n), nil, a[2]))
		return one()
	case "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint16", "(encoding/binary.littleEndian).AppendUint64",
		"(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint64":
		e.event(st, ev)
		end := "le"
		if strings.Contains(name, "bigEndian") {
			end = "be"
		}
		n := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		x := in.OpI("put"+end, int(n), nil, a[2])
		if a[1].kind == KOp && a[1].op == "append" {
			return one(in.mk(V{kind: KOp, op: "append", args: append(append([]*V{}, a[1].args...), x)}))
		}
		return one(in.mk(V{kind: KOp, op: "append", args: []*V{a[1], x}}))
	case "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint64",
		"(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint64":
		e.event(st, ev)
		end := "le"
		if strings.Contains(name, "bigEndian") {
			end = "be"
		}
		n := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		e.indexOblig(st, ci, a[1], n)
		return one(in.OpI("get"+end, int(n), ci.ResT.At(0).Type(), e.contentOf(st, a[1])))
	}
	if n, ok := hashKinds[name]; ok {
		e.event(st, ev)
		o := e.freshObj(st, ci.ResT.At(0).Type(), objSite{instr: ci.Instr.Value(), ctx: ci.Ctx, label: name})
		st.heap[in.Op("hash", nil, o)] = in.mk(V{kind: KOp, op: "hashst", args: []*V{in.Str(name), in.Int(n, nil), in.mk(V{kind: KOp, op: "bytes"})}})
		return one(o)
	}
	if n, ok := hashSums[name]; ok {
		e.event(st, ev)
		s := in.mk(V{kind: KOp, op: "sum", args: []*V{in.Str(strings.Replace(strings.Replace(strings.Replace(name, ".Sum256", ".New", 1), ".Sum512", ".New", 1), ".Sum", ".New", 1)), in.Int(n, nil), e.bytesAppend(in.mk(V{kind: KOp, op: "bytes"}), e.contentOf(st, a[0]))}})
		return one(s)
	}
	// pure functions
	pkg := ""
	if ci.Callee.Pkg != nil {
		pkg = ci.Callee.Pkg.Pkg.Path()
	} else if o := ci.Callee.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	recvPtr := false
	if r := ci.Callee.Signature.Recv(); r != nil {
		_, recvPtr = r.Type().Underlying().(*types.Pointer)
	}
	if (pureFuncs[name] || purePkg(pkg) && !recvPtr && ci.Callee.Signature.Recv() == nil) && !hasFuncArg(a) {
		e.event(st, ev)
		return e.pureResult(st, name, ci)
	}
	// function arguments may be called
	for _, x := range a {
		if x.kind == KFunc && e.p.inModule(x.aux.(*ssa.Function)) && x.aux.(*ssa.Function).Blocks != nil {
			e.event(st, ev)
			s2 := st.clone()
			outs := e.runClosure(st, x, ci, nil)
			var res []Outcome
			for _, o := range outs {
				res = append(res, e.defaultResult(o.st, ci, name, nil)...)
			}
			return append(res, e.defaultResult(s2, ci, name, nil)...)
		}
	}
	for i, x := range a {
		if i == 0 && recvPtr {
			continue
		}
		e.externArg(st, x)
		if x.kind == KOp && x.op == "slice" && !onlyReads(name) {
			e.killContent(st, x)
		}
	}
	outs := e.defaultResult(st, ci, name, ev)
	// bytes drawn from the cryptographic generator
	var buf *V
	switch {
	case name == "io.ReadFull" && isRandReader(a[0]):
		buf = a[1]
	case name == "crypto/rand.Read":
		buf = a[0]
	}
	if buf != nil {
		for _, o := range outs {
			if len(o.ret) == 2 && e.isNil(o.st, o.ret[1]) == 1 {
				v := e.freshA(o.st, "random", tBytes, symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "rnd"})
				o.st.setBnd(e, in.sub(e.lenOf(o.st, v, nil), e.lenOf(o.st, buf, nil)), iv{0, 0})
				e.setContent(o.st, buf, v)
			}
		}
	}
	return outs
}

// isRandReader: the reader of crypto/rand
func isRandReader(v *V) bool {
	if v != nil && v.kind == KSym && len(v.args) > 0 {
		v = v.args[0]
	}
	if v == nil || v.kind != KGlobal {
		return false
	}
	g, ok := v.aux.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader"
}

// onlyReads: functions that do not write to the byte slices they are given
func onlyReads(name string) bool {
	for _, p := range []string{"crypto/rsa.", "(*crypto/rsa.", "crypto/x509.", "encoding/pem.", "crypto/aes.NewCipher", "crypto/cipher.New", "fmt.", "log.", "(*log.", "bytes.", "strings.", "errors.", "encoding/json.", "encoding/hex.EncodeToString", "os."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ".Write") || strings.HasSuffix(name, ".WriteTo")
}

func hasFuncArg(a []*V) bool {
	for _, x := range a {
		if x.kind == KFunc {
			return true
		}
	}
	return false
}

// indexOblig: a fixed-size access needs n bytes
func (e *Eng) indexOblig(st *State, ci *CallInfo, s *V, n int64) {
	ln := e.lenOf(st, s, nil)
	e.event(st, &Event{Kind: EvIndex, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Addr: s, Key: e.in.Int(n-1, nil), Val: ln, Ctx: ci.Ctx})
	st.setBnd(e, ln, iv{n, maxI})
}

// externArg: memory handed to an external function may be changed by it
func (e *Eng) externArg(st *State, x *V) {
	y := unbox(x)
	if y == nil {
		y = x
	}
	if y.kind == KObj {
		if _, isPtr := y.typ.Underlying().(*types.Pointer); isPtr {
			for k := range st.heap {
				if rootBase(k) == y && (k.kind == KField || k.kind == KIndex || k == y) {
					e.kill(st, k)
				}
			}
			if st.zero[y] {
				// unset fields may be set
				pt := y.typ.Underlying().(*types.Pointer)
				if _, isS := pt.Elem().Underlying().(*types.Struct); !isS {
					if _, ok := st.heap[y]; !ok {
						if _, isArr := pt.Elem().Underlying().(*types.Array); !isArr {
							st.heap[y] = e.freshA(st, "ld", pt.Elem(), symKey{tag: "ld"}, y)
						}
					}
				}
			}
		}
	}
}

func unbox(v *V) *V {
	if v.kind == KIface {
		return v.args[0]
	}
	return nil
}

func (e *Eng) freezeIface(st *State, v *V) *V {
	if v.kind == KIface {
		c := v.args[0]
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			c = e.contentOf(st, c)
		} else if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			if x, ok := st.heap[c]; ok {
				c = e.in.Iface(v.typ.Underlying().(*types.Pointer).Elem(), x)
				return c
			}
		}
		return e.in.Iface(v.typ, c)
	}
	return v
}

func (e *Eng) bytesAppend(cur, v *V) *V {
	if v.kind == KNil {
		return cur
	}
	if v.kind == KOp && v.op == "bytes" {
		return e.in.mk(V{kind: KOp, op: "bytes", args: append(append([]*V{}, cur.args...), v.args...)})
	}
	return e.in.mk(V{kind: KOp, op: "bytes", args: append(append([]*V{}, cur.args...), v)})
}

func (e *Eng) contentOrSelf(st *State, v *V) *V {
	if v.kind == KOp && (v.op == "slice" || v.op == "append") {
		return e.contentOf(st, v)
	}
	return v
}

func fixedSize(t types.Type) int64 {
	n, _ := bits(t)
	if n > 0 {
		if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
			return -1
		}
		return int64(n / 8)
	}
	return -1
}

// binaryRead models binary.Read from a bytes.Reader into an integer or slice
func (e *Eng) binaryRead(st *State, ci *CallInfo) []Outcome {
	in := e.in
	r, p := unbox(ci.Args[0]), ci.Args[2]
	if r == nil || r.kind != KObj || p.kind != KIface {
		return nil
	}
	data, ok := st.heap[in.Op("rd", nil, r)]
	if !ok {
		return nil
	}
	off := st.heap[in.Op("rdoff", tInt, r)]
	total := e.lenOf(st, data, nil)
	rest := in.sub(total, off)
	pt, isP := p.typ.Underlying().(*types.Pointer)
	var need *V
	var slice *V
	if isP {
		if n := fixedSize(pt.Elem()); n > 0 {
			need = in.Int(n, nil)
		} else if _, ok := pt.Elem().Underlying().(*types.Slice); ok {
			slice = e.load(st, p.args[0], pt.Elem())
			need = e.lenOf(st, slice, nil)
		} else {
			return nil
		}
	} else if _, ok := p.typ.Underlying().(*types.Slice); ok {
		slice = p.args[0]
		need = e.lenOf(st, slice, nil)
	} else {
		return nil
	}
	// failure: not enough bytes
	f := st.clone()
	var outs []Outcome
	if f.setBnd(e, in.sub(rest, need), iv{minI, -1}) {
		er := e.freshA(f, "!err", ci.ResT.At(0).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "e"})
		f.heap[in.Op("rdoff", tInt, r)] = total
		if slice != nil {
			e.killContent(f, slice)
		}
		f.note(ci.Pos, "not enough bytes to read")
		outs = append(outs, Outcome{st: f, ret: []*V{er}})
	}
	if st.setBnd(e, in.sub(rest, need), iv{0, maxI}) {
		if slice != nil {
			e.setContent(st, slice, e.subBytes(data, off, need))
		} else {
			st.heap[p.args[0]] = in.mk(V{kind: KOp, op: "dec", typ: pt.Elem(), args: []*V{ci.Args[1], data, off}})
		}
		st.heap[in.Op("rdoff", tInt, r)] = in.add(off, need)
		outs = append(outs, Outcome{st: st, ret: []*V{in.Nil()}})
	}
	return outs
}

func (e *Eng) subBytes(data, off, n *V) *V {
	if data.kind == KOp && data.op == "slice" {
		return e.mkSlice(data.args[0], e.in.add(data.args[1], off), n, nil)
	}
	return e.mkSlice(data, off, n, nil)
}

func (e *Eng) readerOps(st *State, name string, ci *CallInfo) []Outcome {
	in := e.in
	a := ci.Args
	r := a[0]
	if name != "(*bytes.Reader).Read" && name != "(*bytes.Reader).ReadByte" {
		r = unbox(a[0])
	}
	if r == nil || r.kind != KObj {
		return nil
	}
	data, ok := st.heap[in.Op("rd", nil, r)]
	if !ok {
		return nil
	}
	offK := in.Op("rdoff", tInt, r)
	off := st.heap[offK]
	total := e.lenOf(st, data, nil)
	rest := in.sub(total, off)
	switch name {
	case "io.ReadAll":
		o := e.subBytes(data, off, rest)
		st.heap[offK] = total
		return []Outcome{{st: st, ret: []*V{o, in.Nil()}}}
	case "io.ReadFull":
		need := e.lenOf(st, a[1], nil)
		var outs []Outcome
		f := st.clone()
		if f.setBnd(e, in.sub(rest, need), iv{minI, -1}) {
			er := e.freshA(f, "!err", ci.ResT.At(1).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "e"})
			n := e.freshA(f, "n", tInt, symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "n"})
			e.killContent(f, a[1])
			f.heap[offK] = total
			outs = append(outs, Outcome{st: f, ret: []*V{n, er}})
		}
		if st.setBnd(e, in.sub(rest, need), iv{0, maxI}) {
			e.setContent(st, a[1], e.subBytes(data, off, need))
			st.heap[offK] = in.add(off, need)
			outs = append(outs, Outcome{st: st, ret: []*V{need, in.Nil()}})
		}
		return outs
	case "(*bytes.Reader).ReadByte":
		var outs []Outcome
		f := st.clone()
		if f.setBnd(e, rest, iv{minI, 0}) {
			er := e.freshA(f, "!err", ci.ResT.At(1).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "e"})
			outs = append(outs, Outcome{st: f, ret: []*V{in.Int(0, nil), er}})
		}
		if st.setBnd(e, rest, iv{1, maxI}) {
			v := in.mk(V{kind: KOp, op: "dec", typ: types.Typ[types.Uint8], args: []*V{in.Nil(), data, off}})
			st.heap[offK] = in.addC(off, 1)
			outs = append(outs, Outcome{st: st, ret: []*V{v, in.Nil()}})
		}
		return outs
	}
	return nil
}

func (e *Eng) runClosure(st *State, f *V, ci *CallInfo, args []*V) []Outcome {
	if f.kind != KFunc {
		s := st
		c2 := *ci
		c2.Fn = f
		c2.Args = nil
		c2.ResT = types.NewTuple()
		if f.kind == KNil {
			return []Outcome{{st: s}}
		}
		return e.dynCall(s, &c2)
	}
	fn := f.aux.(*ssa.Function)
	if fn.Blocks == nil || !e.p.inModule(fn) {
		return []Outcome{{st: st}}
	}
	if args == nil {
		for i, p := range fn.Params {
			args = append(args, e.freshA(st, "arg", p.Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: fmt.Sprint("a", i)}))
		}
	}
	if ci.Ctx.depth > 40 || ci.Ctx.has(fn) > 2 {
		e.undecided(ci.Pos, "recursion of %s not resolved", fn)
		return nil
	}
	lv := []*V{}
	for _, v := range st.env {
		lv = append(lv, v)
	}
	for _, d := range st.defers {
		lv = append(lv, d.args...)
	}
	saved, sd := st.env, st.defers
	e.callers = append(e.callers, lv)
	outs := e.runFn(fn, args, f.args, st, ci.Ctx.kid(ci.Instr, fn))
	e.callers = e.callers[:len(e.callers)-1]
	var ok []Outcome
	for _, o := range outs {
		if !o.panik {
			o.st.env = cp(saved)
			o.st.defers = sd
			o.ret = nil
			ok = append(ok, o)
		}
	}
	return ok
}

var tError = types.Universe.Lookup("error").Type()

func (e *Eng) pureResult(st *State, name string, ci *CallInfo) []Outcome {
	n := ci.ResT.Len()
	args := make([]*V, len(ci.Args))
	allConst := true
	for i, a := range ci.Args {
		args[i] = e.contentOrSelf(st, e.freezeSlice(st, a))
		if a.kind != KConst {
			allConst = false
		}
	}
	if allConst && n == 1 {
		if v := foldPure(e.in, name, args); v != nil {
			return []Outcome{{st: st, ret: []*V{v}}}
		}
	}
	if n > 0 && types.Identical(ci.ResT.At(n-1).Type(), tError) && n > 1 {
		outs := e.defaultResult(st, ci, name, nil)
		if len(outs) == 2 { // the results of a success depend on the arguments only
			for i := 0; i < n-1; i++ {
				outs[0].ret[i] = e.in.mk(V{kind: KOp, op: "call:" + name, idx: i, typ: ci.ResT.At(i).Type(), args: args})
			}
			for i, o := range outs {
				e.event(o.st, &Event{Kind: EvCall, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Name: name, Callee: ci.Callee, Args: ci.Args, Ctx: ci.Ctx, Res: e.in.Tuple(o.ret...), Hit: 1 - i})
			}
		}
		return outs
	}
	var ret []*V
	for i := 0; i < n; i++ {
		ret = append(ret, e.in.mk(V{kind: KOp, op: "call:" + name, idx: i, typ: ci.ResT.At(i).Type(), args: args}))
	}
	return []Outcome{{st: st, ret: ret}}
}

func foldPure(in *interner, name string, a []*V) *V {
	s := func(i int) string { return constant.StringVal(a[i].aux.(constant.Value)) }
	str := func(i int) bool { return i < len(a) && a[i].aux.(constant.Value).Kind() == constant.String }
	switch name {
	case "strings.ToLower":
		if str(0) {
			return in.Str(strings.ToLower(s(0)))
		}
	case "strings.ToUpper":
		if str(0) {
			return in.Str(strings.ToUpper(s(0)))
		}
	case "strings.TrimSpace":
		if str(0) {
			return in.Str(strings.TrimSpace(s(0)))
		}
	case "strings.EqualFold":
		if str(0) && str(1) {
			return in.Bool(strings.EqualFold(s(0), s(1)))
		}
	case "strings.Contains":
		if str(0) && str(1) {
			return in.Bool(strings.Contains(s(0), s(1)))
		}
	case "strings.HasPrefix":
		if str(0) && str(1) {
			return in.Bool(strings.HasPrefix(s(0), s(1)))
		}
	}
	return nil
}

// defaultResult makes unknown results; a trailing error splits success from
// failure
func (e *Eng) defaultResult(st *State, ci *CallInfo, name string, ev *Event) []Outcome {
	n := ci.ResT.Len()
	hasErr := n > 1 && types.Identical(ci.ResT.At(n-1).Type(), tError)
	mk := func(s *State, good bool) []*V {
		var ret []*V
		for i := 0; i < n; i++ {
			t := ci.ResT.At(i).Type()
			if hasErr && i == n-1 {
				if good {
					ret = append(ret, e.in.Nil())
				} else {
					ret = append(ret, e.freshA(s, "!err", t, symKey{instr: ci.Instr, ctx: ci.Ctx, tag: "e"}))
				}
				continue
			}
			nm := "res"
			if hasErr && good || nonNilResult(name) {
				nm = "!res"
			}
			if _, ok := t.Underlying().(*types.Slice); ok {
				nm = "res"
			}
			ret = append(ret, e.freshA(s, nm, t, symKey{instr: ci.Instr, ctx: ci.Ctx, tag: fmt.Sprint("r", i, good)}))
		}
		return ret
	}
	fire := func(s *State, ret []*V, good bool) {
		if ev == nil {
			return
		}
		x := *ev
		if n == 1 {
			x.Res = ret[0]
		} else if n > 1 {
			x.Res = e.in.Tuple(ret...)
		}
		x.Hit = b2i(good)
		e.event(s, &x)
	}
	if v := ci.Instr.Value(); hasErr && (e.rule.Faults == nil || !e.rule.Faults(name)) && (v == nil || len(*v.Referrers()) == 0) {
		hasErr = false // nobody looks at the results
	}
	if !hasErr {
		r := mk(st, true)
		fire(st, r, true)
		return []Outcome{{st: st, ret: r}}
	}
	f := st.clone()
	short := name
	f.note(ci.Pos, short+" fails")
	r1 := mk(st, true)
	fire(st, r1, true)
	r2 := mk(f, false)
	fire(f, r2, false)
	return []Outcome{{st: st, ret: r1}, {st: f, ret: r2}}
}

func nonNilResult(name string) bool {
	switch name {
	case "crypto/sha256.New", "log.New", "time.NewTimer", "bufio.NewReader", "time.NewTicker", "time.After":
		return true
	}
	for _, m := range []string{".LocalAddr", ".RemoteAddr", ".Addr"} {
		if strings.HasPrefix(name, "(net.") && strings.HasSuffix(name, m) {
			return true
		}
	}
	return strings.HasPrefix(name, "(*github.com/kirill-scherba/stable.")
}

// invoke: method of an interface whose dynamic type is unknown
func (e *Eng) invoke(st *State, ci *CallInfo) []Outcome {
	name := ci.Method.FullName()
	recv := ci.Args[0]
	in := e.in
	ev := &Event{Kind: EvInvoke, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Name: name, Args: ci.Args, Addr: recv, Ctx: ci.Ctx}
	if recv.kind != KObj && recv.kind != KIface {
		e.event(st, &Event{Kind: EvDeref, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Addr: recv, Ctx: ci.Ctx})
		if !e.assume(st, e.mkEq(recv, in.Nil()), false) {
			return nil
		}
	}
	one := func(v ...*V) []Outcome { return []Outcome{{st: st, ret: v}} }
	switch ci.Method.Name() {
	case "String", "Network", "Error":
		if ci.ResT.Len() == 1 && len(ci.Args) == 1 {
			e.event(st, ev)
			return one(in.mk(V{kind: KOp, op: "call:" + ci.Method.Name(), typ: ci.ResT.At(0).Type(), args: []*V{recv}}))
		}
	case "Size":
		if h, ok := st.heap[in.Op("hash", nil, recv)]; ok {
			return one(h.args[1])
		}
	case "Write":
		k := in.Op("hash", nil, recv)
		if h, ok := st.heap[k]; ok {
			e.event(st, ev)
			st.heap[k] = in.mk(V{kind: KOp, op: "hashst", args: []*V{h.args[0], h.args[1], e.bytesAppend(h.args[2], e.contentOf(st, ci.Args[1]))}})
			return one(e.lenOf(st, ci.Args[1], nil), in.Nil())
		}
	case "Sum":
		if h, ok := st.heap[in.Op("hash", nil, recv)]; ok {
			e.event(st, ev)
			s := in.mk(V{kind: KOp, op: "sum", args: h.args})
			if ci.Args[1].kind == KNil {
				return one(s)
			}
			return one(in.mk(V{kind: KOp, op: "append", args: []*V{ci.Args[1], s}}))
		}
	case "Seal":
		if len(ci.Args) == 5 {
			a := ci.Args
			ct := in.mk(V{kind: KOp, op: "aead", typ: tBytes, args: []*V{recv, e.contentOf(st, a[2]), e.contentOf(st, a[3]), e.contentOf(st, a[4])}})
			r := in.mk(V{kind: KOp, op: "append", args: []*V{a[1], ct}})
			if a[1].kind == KNil {
				r = ct
			} else if c := e.contentOf(st, a[1]); c != a[1] {
				r = in.mk(V{kind: KOp, op: "append", args: []*V{c, ct}})
			}
			ev.Res, ev.Hit = r, 1
			e.event(st, ev)
			return one(r)
		}
	case "NonceSize":
		e.event(st, ev)
		return one(in.Int(12, nil))
	case "Overhead":
		e.event(st, ev)
		return one(in.Int(16, nil))
	}
	var buf *V
	for i, a := range ci.Args[1:] {
		e.externArg(st, a)
		if strings.HasPrefix(name, "(net.PacketConn).ReadFrom") || name == "(io.Reader).Read" || name == "(net.Conn).Read" {
			e.killContent(st, a)
		}
		if s, ok := ci.Method.Type().(*types.Signature).Params().At(i).Type().Underlying().(*types.Slice); ok && buf == nil && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8]) {
			buf = a
		}
	}
	outs := e.defaultResult(st, ci, name, ev)
	switch ci.Method.Name() {
	case "Read", "ReadFrom", "Write", "WriteTo":
		// the count never exceeds the buffer
		for _, o := range outs {
			if buf != nil && len(o.ret) > 0 && o.ret[0].typ != nil && isInteger(o.ret[0].typ) {
				e.boundsFact(o.st, o.ret[0], e.in.add(e.lenOf(o.st, buf, nil), e.in.Int(1, nil)))
			}
		}
	}
	return outs
}
