package main

// Numbers, datagram layout, sizes, splitting and reassembly: C04 to C07.

import (
	"fmt"
	"go/types"
	mbits "math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- modular arithmetic

// affine is a linear form modulo m
type affine struct {
	co map[*V]int64
	c  int64
}

func modN(a, m int64) int64 {
	a %= m
	if a < 0 {
		a += m
	}
	return a
}

// affineMod gives v modulo m as a linear form; m is a power of two
func (e *Eng) affineMod(st *State, v *V, m int64) (affine, bool) {
	r := affine{co: map[*V]int64{}}
	pow2 := m&(m-1) == 0
	var add func(v *V, k int64) bool
	add = func(v *V, k int64) bool {
		k = modN(k, m)
		if n, ok := v.intVal(); ok {
			r.c = modN(r.c+modN(n, m)*k, m)
			return true
		}
		switch v.kind {
		case KSym:
			r.co[v] = modN(r.co[v]+k, m)
			return true
		case KLin:
			r.c = modN(r.c+modN(v.c, m)*k, m)
			for i, a := range v.args {
				if !add(a, modN(v.coef[i], m)*k) {
					return false
				}
			}
			return true
		case KOp:
			switch v.op {
			case "conv", "wrap":
				n, _ := intBitsU(v.typ)
				if n >= 63 || n > 0 && pow2 && int64(1)<<n%m == 0 {
					return add(v.args[0], k)
				}
				lo, hi, ok := intRange(v.typ)
				if b := e.bounds(st, v.args[0]); ok && b.lo >= lo && b.hi <= hi {
					return add(v.args[0], k)
				}
			case "rem":
				if n, ok := v.args[1].intVal(); ok && n > 0 && n%m == 0 {
					return add(v.args[0], k)
				}
			case "and":
				if n, ok := v.args[1].intVal(); ok && n > 0 && n&(n+1) == 0 && pow2 && (n+1)%m == 0 {
					return add(v.args[0], k)
				}
			}
		}
		return false
	}
	if !add(v, 1) {
		return r, false
	}
	for k, c := range r.co {
		if c == 0 {
			delete(r.co, k)
		}
	}
	return r, true
}

// congruent: v = sum of the given terms (with signs) + c modulo m
func (e *Eng) congruent(st *State, v *V, m int64, c int64, plus, minus *V) bool {
	a, ok := e.affineMod(st, v, m)
	if !ok {
		return false
	}
	want := affine{co: map[*V]int64{}, c: modN(c, m)}
	for i, t := range []*V{plus, minus} {
		if t == nil {
			continue
		}
		x, ok := e.affineMod(st, t, m)
		if !ok {
			return false
		}
		s := int64(1)
		if i == 1 {
			s = -1
		}
		want.c = modN(want.c+s*x.c, m)
		for k, n := range x.co {
			want.co[k] = modN(want.co[k]+s*n, m)
		}
	}
	if a.c != want.c {
		return false
	}
	for k, n := range want.co {
		if a.co[k] != n {
			return false
		}
	}
	for k, n := range a.co {
		if want.co[k] != n {
			return false
		}
	}
	return true
}

// congr tries the term as it is and under the equalities the path established
func (e *Eng) congr(st *State, v *V, m int64, c int64, plus, minus *V) bool {
	if e.congruent(st, v, m, c, plus, minus) {
		return true
	}
	// a known number on this path
	known := func(x *V) *V {
		if x == nil {
			return nil
		}
		if b := e.bounds(st, x); b.lo == b.hi {
			return e.in.Int(b.lo, nil)
		}
		return x
	}
	if e.congruent(st, known(v), m, c, known(plus), known(minus)) {
		return true
	}
	if plus != nil && minus != nil && e.same(st, plus, minus) {
		return e.congruent(st, known(v), m, c, nil, nil)
	}
	return false
}

func init() {
	register(&Check{
		ID: "C05", Level: "other", Prep: true,
		Technique:   "interval and modular-congruence abstract interpretation of the number functions (go/ssa), writer census of the counters",
		Note:        "The number functions are evaluated over all numbers at once: the result is shown congruent to the specified linear form modulo the limit and inside the one interval that makes it unique.",
		Assumptions: []string{"the counters are changed under the endpoint lock (K01)"},
		NotCovered:  "connections that have more than half a cycle of numbers outstanding, where a signed distance cannot tell ahead from behind.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Over all received and expected numbers below the limit, every path of the comparison returns a value congruent to received minus expected modulo the limit and between minus half and half the limit. Each step of the sending and of the receiving counter stores a value congruent to the old one plus one and below the limit, once, on the counter of its own connection; the sending step returns the value before. No other function stores either counter; both start at zero.")
			m := ro.limit
			r.ob(m > 1 && m&(m-1) == 0 && m <= 1<<24, "limit", "packetIDLimit", 0, nil, "the limit %d is not a power of two that fits the header", m)
			// comparison
			var exp, id *V
			rule := &Rule{NoMerge: true, Exact: true,
				OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
				OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
					c := "return of " + fnName(ro.distance)
					b := e.bounds(st, ret[0])
					r.ob(b.lo >= -m/2 && b.hi <= m/2, "range", c, ro.distance.Pos(), st, "the distance may be %d..%d, outside of half a cycle either way", b.lo, b.hi)
					r.ob(e.congr(st, ret[0], m, 0, id, exp), "congruent", c, ro.distance.Pos(), st, "the distance %s is not received minus expected modulo the limit", desc(ret[0]))
				},
			}
			r.run(rule, func(e *Eng) *Task {
				t := e.RootTask(ro.distance)
				n := len(t.Args)
				exp, id = t.Args[n-2], t.Args[n-1]
				t.St.setBnd(e, exp, iv{0, m - 1})
				t.St.setBnd(e, id, iv{0, m - 1})
				t.St.mon["exp"], t.St.mon["id"] = exp, id // kept to the end
				return t
			})
			// counters
			for _, w := range []struct {
				fn *ssa.Function
				f  *types.Var
			}{{ro.newID, ro.chID}, {ro.newExp, ro.chExp}} {
				w := w
				var ch *V
				rule := &Rule{NoMerge: true, Exact: true,
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
					OnEvent: func(e *Eng, st *State, ev *Event) {
						if ev.Kind == EvLoad && addrField(ev.Addr) == w.f && rootBase(ev.Addr) == ch && st.mon["new"] == nil {
							// the counter as the function finds it, under the lock
							st.setBnd(e, ev.Val, iv{0, m - 1})
							st.mon["old"] = ev.Val
						}
						if ev.Kind == EvStore && addrField(ev.Addr) == w.f {
							st.mon["new"] = ev.Val
						}
						if ev.Kind == EvStore && (addrField(ev.Addr) == ro.chID || addrField(ev.Addr) == ro.chExp) {
							r.ob(addrField(ev.Addr) == w.f && rootBase(ev.Addr) == ch, "own", instrName(ev.In, ev.Instr), ev.Pos, st, "%s changes another counter than its own", fnName(w.fn))
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						c := "return of " + fnName(w.fn)
						v, old := st.mon["new"], st.mon["old"]
						if v == nil || old == nil {
							r.ob(false, "step", c, w.fn.Pos(), st, "the counter is not changed")
							return
						}
						b := e.bounds(st, v)
						r.ob(b.lo >= 0 && b.hi < m, "below", c, w.fn.Pos(), st, "the counter may be left at %d..%d, the limit is %d", b.lo, b.hi, m)
						r.ob(e.congr(st, v, m, 1, old, nil), "step", c, w.fn.Pos(), st, "the counter goes from %s to %s, which is not one step", desc(old), desc(v))
						if w.f == ro.chID {
							r.ob(len(ret) == 1 && (e.same(st, ret[0], old) || e.congr(st, ret[0], m, 0, old, nil) && e.bounds(st, ret[0]).hi < m && e.bounds(st, ret[0]).lo >= 0), "result", c, w.fn.Pos(), st, "the number handed out is %s, not the counter before the step", desc(ret[0]))
						} else if len(ret) == 1 {
							r.ob(e.same(st, ret[0], v), "result", c, w.fn.Pos(), st, "the number returned is %s, not the new expected number", desc(ret[0]))
						}
					},
				}
				r.run(rule, func(e *Eng) *Task {
					t := e.RootTask(w.fn)
					ch = t.Args[0]
					return t
				})
				// census
				n := 0
				for _, f := range r.p.functions() {
					for _, b := range f.Blocks {
						for _, i := range b.Instrs {
							s, ok := i.(*ssa.Store)
							if !ok || ssaField(s.Addr) != w.f {
								continue
							}
							n++
							if f == w.fn || r.p.helperOf(f, w.fn) {
								r.ob(true, "writer", instrName(f, i), i.Pos(), nil, "")
								continue
							}
							cst, isC := s.Val.(*ssa.Const)
							r.ob(ssaFresh(s.Addr) && isC && cst.Value != nil && cst.Int64() == 0, "writer", instrName(f, i), i.Pos(), nil, "%s stores the counter %s", f, w.f.Name())
						}
					}
				}
			}
			r.atLeast("congruent", 1)
			r.atLeast("step", 2)
			r.atLeast("result", 1)
			r.atLeast("writer", 2)
		},
	})
}

// helperOf: f is used by g only
func (p *Program) helperOf(f, g *ssa.Function) bool {
	if f.Parent() == g {
		return true
	}
	us := p.callersOf()[f]
	if len(us) == 0 || f.Object() != nil && f.Object().Exported() {
		return false
	}
	for _, u := range us {
		if u.Parent() != g && !(u.Parent() != f && p.helperOf(u.Parent(), g)) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- byte layout

// bsrc is where one bit comes from: bit n of the value, or the constant n
type bsrc struct {
	v *V
	n int
}

// lseg is a piece of a byte sequence: one byte, or n bytes of base from lo
type lseg struct {
	b           *[8]bsrc
	base, lo, n *V
}

func zeroBits(n int) []bsrc { return make([]bsrc, n) }

func (e *Eng) byteAt(base, off *V) *V {
	if base.kind == KOp && base.op == "slice" {
		base, off = base.args[0], e.in.add(base.args[1], off)
	}
	return e.in.Op("byteAt", types.Typ[types.Uint8], base, off)
}

// termBits gives the origin of the low n bits of an integer term
func (e *Eng) termBits(st *State, v *V, n int) ([]bsrc, bool) {
	out := zeroBits(n)
	if c, ok := v.intVal(); ok {
		for i := range out {
			if i < 63 {
				out[i].n = int(c >> uint(i) & 1)
			} else if c < 0 {
				out[i].n = 1
			}
		}
		return out, true
	}
	limit := func(bs []bsrc) []bsrc {
		if b := e.bounds(st, v); b.lo >= 0 && b.hi < maxI {
			for i := mbits.Len64(uint64(b.hi)); i < len(bs); i++ {
				bs[i] = bsrc{}
			}
		}
		if k, uns := intBitsU(v.typ); k > 0 && uns {
			for i := int(k); i < len(bs); i++ {
				bs[i] = bsrc{}
			}
		}
		return bs
	}
	shift := func(x *V, k int) ([]bsrc, bool) { // left
		if k >= n {
			return zeroBits(n), true
		}
		bs, ok := e.termBits(st, x, n-k)
		if !ok {
			return nil, false
		}
		return limit(append(zeroBits(k), bs...)), true
	}
	switch v.kind {
	case KLin:
		if v.c < 0 {
			return nil, false
		}
		parts := [][]bsrc{}
		cb, _ := e.termBits(st, e.in.Int(v.c, nil), n)
		parts = append(parts, cb)
		for i, a := range v.args {
			k := v.coef[i]
			if k <= 0 || k&(k-1) != 0 {
				return nil, false
			}
			bs, ok := shift(a, mbits.TrailingZeros64(uint64(k)))
			if !ok {
				return nil, false
			}
			parts = append(parts, bs)
		}
		for i := range out {
			for _, p := range parts {
				if p[i] == (bsrc{}) {
					continue
				}
				if out[i] != (bsrc{}) {
					return nil, false
				}
				out[i] = p[i]
			}
		}
		return limit(out), true
	case KOp:
		switch v.op {
		case "conv", "wrap":
			k, uns := intBitsU(v.typ)
			m := n
			if int(k) < m && k > 0 {
				m = int(k)
			}
			bs, ok := e.termBits(st, v.args[0], m)
			if !ok {
				return nil, false
			}
			if m < n && !uns {
				if bs[m-1] != (bsrc{}) {
					return nil, false
				}
			}
			copy(out, bs)
			return limit(out), true
		case "or", "xor", "add":
			a, ok1 := e.termBits(st, v.args[0], n)
			b, ok2 := e.termBits(st, v.args[1], n)
			if !ok1 || !ok2 {
				return nil, false
			}
			for i := range out {
				switch {
				case a[i] == (bsrc{}):
					out[i] = b[i]
				case b[i] == (bsrc{}):
					out[i] = a[i]
				case v.op == "or" && a[i] == b[i]:
					out[i] = a[i]
				default:
					return nil, false
				}
			}
			return limit(out), true
		case "and", "andnot":
			a, ok1 := e.termBits(st, v.args[0], n)
			c, ok2 := v.args[1].intVal()
			if !ok1 || !ok2 {
				return nil, false
			}
			for i := range out {
				on := c>>uint(mini(int64(i), 62))&1 == 1
				if on == (v.op == "and") {
					out[i] = a[i]
				}
			}
			return limit(out), true
		case "shl":
			k, ok := v.args[1].intVal()
			if !ok || k < 0 {
				return nil, false
			}
			bs, ok := shift(v.args[0], int(k))
			return bs, ok
		case "shr":
			k, ok := v.args[1].intVal()
			if !ok || k < 0 || k > 64 {
				return nil, false
			}
			bs, ok := e.termBits(st, v.args[0], n+int(k))
			if !ok {
				return nil, false
			}
			return limit(bs[k:]), true
		case "rem":
			k, ok := v.args[1].intVal()
			if !ok || k <= 0 || k&(k-1) != 0 || e.bounds(st, v.args[0]).lo < 0 {
				return nil, false
			}
			bs, ok := e.termBits(st, v.args[0], n)
			if !ok {
				return nil, false
			}
			for i := range bs {
				if int64(1)<<uint(mini(int64(i), 62)) >= k {
					bs[i] = bsrc{}
				}
			}
			return bs, true
		case "quo":
			k, ok := v.args[1].intVal()
			if !ok || k <= 0 || k&(k-1) != 0 || e.bounds(st, v.args[0]).lo < 0 {
				return nil, false
			}
			s := mbits.TrailingZeros64(uint64(k))
			bs, ok := e.termBits(st, v.args[0], n+s)
			if !ok {
				return nil, false
			}
			return limit(bs[s:]), true
		case "dec", "getle", "getbe":
			var base, off *V
			be := v.op == "getbe"
			size := v.idx
			if v.op == "dec" {
				k, _ := intBitsU(v.typ)
				size = int(k) / 8
				base, off = v.args[1], v.args[2]
				if size > 1 {
					switch endian(v.args[0]) {
					case 1:
					case 2:
						be = true
					default:
						return nil, false
					}
				}
			} else {
				base, off = v.args[0], e.in.Int(0, nil)
			}
			for i := 0; i < n && i < size*8; i++ {
				k := i / 8
				if be {
					k = size - 1 - k
				}
				out[i] = bsrc{e.byteAt(base, e.in.addC(off, int64(k))), i % 8}
			}
			return out, true
		case "len", "byteAt":
			for i := range out {
				out[i] = bsrc{v, i}
			}
			return limit(out), true
		}
		return nil, false
	case KSym:
		x := v
		if len(v.args) > 0 && v.args[0].kind == KIndex && v.op == "ld" {
			x = e.byteAt(v.args[0].args[0], v.args[0].args[1])
		}
		for i := range out {
			out[i] = bsrc{x, i}
		}
		return limit(out), true
	}
	return nil, false
}

// intBitsU is the width of an integer type and whether it is unsigned
func intBitsU(t types.Type) (uint, bool) {
	if t == nil {
		return 0, false
	}
	return bits(t)
}

func endian(v *V) int {
	if v == nil || v.kind != KIface || v.typ == nil {
		return 0
	}
	switch s := v.typ.String(); {
	case strings.HasSuffix(s, "littleEndian"):
		return 1
	case strings.HasSuffix(s, "bigEndian"):
		return 2
	}
	return 0
}

// flatten gives the pieces of the bytes a value stands for
func (e *Eng) flatten(st *State, v *V, d int) ([]lseg, bool) {
	if d > 12 || v == nil {
		return nil, false
	}
	if v.kind == KNil {
		return nil, true
	}
	if c := e.contentOf(st, v); c != v {
		return e.flatten(st, c, d+1)
	}
	var out []lseg
	one := func(x *V) bool {
		b, ok := e.termBits(st, x, 8)
		if ok {
			var a [8]bsrc
			copy(a[:], b)
			out = append(out, lseg{b: &a})
		}
		return ok
	}
	many := func(x *V, n int, be bool) bool {
		b, ok := e.termBits(st, x, 8*n)
		if !ok {
			return false
		}
		for i := 0; i < n; i++ {
			k := i
			if be {
				k = n - 1 - i
			}
			var a [8]bsrc
			copy(a[:], b[8*k:8*k+8])
			out = append(out, lseg{b: &a})
		}
		return true
	}
	all := func(vs []*V) bool {
		for _, x := range vs {
			s, ok := e.flatten(st, x, d+1)
			if !ok {
				return false
			}
			out = append(out, s...)
		}
		return true
	}
	switch {
	case v.kind == KOp && v.op == "bytes":
		return out, all(v.args)
	case v.kind == KOp && v.op == "append":
		ok := all(v.args)
		return out, ok
	case v.kind == KOp && v.op == "enc":
		x := v.args[1]
		if x.kind != KIface {
			return nil, false
		}
		t := x.typ.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if _, ok := t.(*types.Slice); ok {
			s, ok := e.flatten(st, x.args[0], d+1)
			return s, ok
		}
		n := fixedSize(t)
		if n < 1 {
			return nil, false
		}
		end := endian(v.args[0])
		if n > 1 && end == 0 {
			return nil, false
		}
		ok := many(x.args[0], int(n), end == 2)
		return out, ok
	case v.kind == KOp && (v.op == "putle" || v.op == "putbe"):
		ok := many(v.args[0], v.idx, v.op == "putbe")
		return out, ok
	case v.kind == KOp && v.op == "byte":
		ok := one(v.args[0])
		return out, ok
	case v.kind == KOp && v.op == "lit":
		for _, x := range v.args {
			if !one(x) {
				return nil, false
			}
		}
		return out, true
	case v.kind == KOp && v.op == "elems":
		for _, x := range v.args[1:] {
			if !one(x) {
				return nil, false
			}
		}
		return out, true
	case v.kind == KOp && v.op == "zeros":
		n, ok := v.args[0].intVal()
		if !ok || n > 64 {
			return nil, false
		}
		for i := int64(0); i < n; i++ {
			out = append(out, lseg{b: &[8]bsrc{}})
		}
		return out, true
	case v.kind == KOp && v.op == "slice":
		if n, ok := v.args[2].intVal(); ok && n == 0 {
			return nil, true
		}
		return []lseg{{base: v.args[0], lo: v.args[1], n: v.args[2]}}, true
	case v.kind == KSym:
		return []lseg{{base: v, lo: e.in.Int(0, nil), n: e.lenOf(st, v, nil)}}, true
	case v.kind == KOp && v.op == "str2bytes" || v.kind == KOp && (v.op == "sum" || v.op == "aead"):
		return []lseg{{base: v, lo: e.in.Int(0, nil), n: e.lenOf(st, v, nil)}}, true
	}
	return nil, false
}

func segString(ss []lseg) string {
	var out []string
	for _, s := range ss {
		if s.b != nil {
			out = append(out, "byte")
		} else {
			out = append(out, fmt.Sprintf("%s[%s:+%s]", desc(s.base), desc(s.lo), desc(s.n)))
		}
	}
	return strings.Join(out, " ")
}

// nonEmpty drops pieces of length zero and joins pieces that follow each other
func (e *Eng) nonEmpty(st *State, ss []lseg) []lseg {
	var out []lseg
	for _, s := range ss {
		if s.b == nil {
			if b := e.bounds(st, s.n); b.hi <= 0 {
				continue
			}
			if k := len(out) - 1; k >= 0 && out[k].b == nil && out[k].base == s.base && e.same(st, e.in.add(out[k].lo, out[k].n), s.lo) {
				out[k].n = e.in.add(out[k].n, s.n)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// ---------------------------------------------------------------- C04

// bitMap gives the bits of the header bytes of a decoded value: header bit k
// (counted from byte 0, bit 0) or a constant
func headerBits(e *Eng, st *State, v *V, n int, data *V, hdr int) ([]int, string) {
	bs, ok := e.termBits(st, v, n)
	if !ok {
		return nil, "is not built from the bits of the datagram: " + desc(v)
	}
	out := make([]int, n)
	for i, b := range bs {
		switch {
		case b.v == nil && b.n == 0:
			out[i] = -1
		case b.v == nil:
			return nil, "has a bit that is always set"
		case b.v.kind == KOp && b.v.op == "byteAt" && b.v.args[0] == data:
			k, ok := b.v.args[1].intVal()
			if !ok || k < 0 || k >= int64(hdr) {
				return nil, "is read from outside of the header"
			}
			out[i] = int(k)*8 + b.n
		default:
			return nil, "depends on " + desc(b.v)
		}
	}
	return out, ""
}

// restOf: v holds exactly the bytes of data from off to its end
func (e *Eng) restOf(st *State, v, data, off *V) bool {
	rest := e.in.sub(e.lenOf(st, data, nil), off)
	segs, ok := e.flatten(st, v, 0)
	if !ok {
		return false
	}
	segs = e.nonEmpty(st, segs)
	switch len(segs) {
	case 0:
		return e.bounds(st, rest).hi <= 0 || e.same(st, rest, e.in.Int(0, nil))
	case 1:
		s := segs[0]
		return s.b == nil && s.base == data && e.same(st, s.lo, off) && e.same(st, s.n, rest)
	}
	return false
}

// wholeField: the segment is all bytes of the field f of p, as it was at the start
func (e *Eng) wholeField(st *State, s lseg, p *V, f *types.Var) bool {
	return s.b == nil && loadedFrom(s.base) == f && rootBase(s.base.args[0]) == p && e.isConst(st, s.lo, 0) && e.same(st, s.n, e.lenOf(st, s.base, nil))
}

func isFreshMem(v *V) bool {
	b := sliceBase(v)
	return b != nil && (b.kind == KObj || b.kind == KNil)
}

func init() {
	register(&Check{
		ID: "C04", Level: "other", Prep: true,
		Technique:   "abstract interpretation of encoder and decoder over a bit-provenance domain, composed and compared (go/ssa)",
		Note:        "Every bit the encoders write and every bit the decoders take is traced to its origin; decoder after encoder must be the identity for all numbers, statuses and payloads.",
		Assumptions: []string{"encoding/binary, bytes.Buffer and bytes.Reader do what the models in trucheck/model.go say", "UDP delivers datagrams unchanged or not at all"},
		NotCovered:  "IDs set by hand above the limit.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("On every path of the encoder each bit of the four header bytes is one bit of the number or of the status, and the bytes after them are exactly the payload; on every path of the decoder each bit of number and status is one header bit and the payload is exactly the rest. Composed, every bit of status and every number bit below the limit comes back in its own place and higher number bits are zero. The decoder fails exactly for datagrams that are shorter than the header. The same for identifier and data of the connect packets. Decoded bytes do not share memory that a later datagram overwrites. Every packet that is written to the network is written as its own encoder gave it, and to the address of its connection.")
			hdr := 4
			nid := mbits.Len64(uint64(ro.limit - 1))
			// encoder: for each header bit its origin (0.. number bits, 100.. status bits, -1 zero)
			var encMaps [][]int
			noSpawn := func(e *Eng, st *State, t *Task) bool { return false }
			var pac *V
			r.run(&Rule{NoMerge: true, OnSpawn: noSpawn, OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				c := "return of " + fnName(ro.marshal)
				fail := func(f string, a ...interface{}) { r.ob(false, "encode", c, ro.marshal.Pos(), st, f, a...) }
				if len(ret) == 2 && e.isNil(st, ret[1]) != 1 {
					fail("the encoder may fail")
					return
				}
				segs, ok := e.flatten(st, ret[0], 0)
				if !ok {
					fail("the bytes of %s are not known", desc(ret[0]))
					return
				}
				segs = e.nonEmpty(st, segs)
				if len(segs) < hdr {
					fail("there is no header of %d bytes: %s", hdr, segString(segs))
					return
				}
				var m []int
				for i := 0; i < hdr; i++ {
					if segs[i].b == nil {
						fail("the header is %s", segString(segs))
						return
					}
					for _, b := range segs[i].b {
						x := -2
						switch {
						case b.v == nil && b.n == 0:
							x = -1
						case b.v == nil:
						case loadedFrom(b.v) == ro.pktID && rootBase(b.v.args[0]) == pac:
							x = b.n
						case loadedFrom(b.v) == ro.pktStatus && rootBase(b.v.args[0]) == pac:
							x = 100 + b.n
						}
						if x == -2 {
							fail("header byte %d holds something else than number and status of the packet", i)
							return
						}
						m = append(m, x)
					}
				}
				d := e.get(st, pac, ro.pktData)
				rest := segs[hdr:]
				ok = len(rest) == 0 && e.bounds(st, e.lenOf(st, d, nil)).hi <= 0 || len(rest) == 1 && e.wholeField(st, rest[0], pac, ro.pktData)
				r.ob(ok, "encode", c, ro.marshal.Pos(), st, "after the header comes %s, not the payload", segString(rest))
				encMaps = append(encMaps, m)
			}}, func(e *Eng) *Task {
				t := e.RootTask(ro.marshal)
				pac = t.Args[0]
				return t
			})
			r.atLeast("encode", 1)
			for _, m := range encMaps {
				for i := range m {
					r.ob(m[i] == encMaps[0][i], "encode", fmt.Sprintf("header bit %d", i), ro.marshal.Pos(), nil, "two paths of the encoder use the header differently")
				}
			}
			var em []int
			if len(encMaps) > 0 {
				em = encMaps[0]
			}
			// decoder
			var data *V
			r.run(&Rule{NoMerge: true, OnSpawn: noSpawn, OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				c := "return of " + fnName(ro.unmarshal)
				pos := ro.unmarshal.Pos()
				ln := e.bounds(st, e.lenOf(st, data, nil))
				if e.isNil(st, ret[0]) != 1 {
					r.ob(e.isNil(st, ret[0]) == 0 && ln.hi < int64(hdr), "decode", c, pos, st, "a datagram of %d..%d bytes may be refused", ln.lo, ln.hi)
					return
				}
				if ln.lo < int64(hdr) {
					r.ob(false, "decode", c, pos, st, "a datagram of %d bytes is taken as a packet", ln.lo)
					return
				}
				for _, f := range []struct {
					f    *types.Var
					n, w int
					off  int
				}{{ro.pktID, 32, nid, 0}, {ro.pktStatus, 8, 8, 100}} {
					m, why := headerBits(e, st, e.get(st, pac, f.f), f.n, data, hdr)
					if m == nil {
						r.ob(false, "decode", c, pos, st, "%s %s", f.f.Name(), why)
						continue
					}
					for i, k := range m {
						o := -1
						if k >= 0 {
							if em == nil {
								continue
							}
							o = em[k]
						}
						want := -1
						if i < f.w {
							want = f.off + i
						}
						r.ob(o == want, "roundtrip", fmt.Sprintf("%s bit %d", f.f.Name(), i), pos, st, "bit %d of the %s comes from bit %d of number (0-) or status (100-), -1 is zero", i, f.f.Name(), o)
					}
				}
				d := e.get(st, pac, ro.pktData)
				r.ob(e.restOf(st, d, data, e.in.Int(int64(hdr), nil)), "payload", c, pos, st, "the payload is %s, not the bytes after the header", desc(e.contentOf(st, d)))
				r.ob(isFreshMem(d) || freshBuffers(r.p), "own memory", c, pos, st, "the payload shares the receive buffer, which the next datagram overwrites")
			}}, func(e *Eng) *Task {
				t := e.RootTask(ro.unmarshal)
				pac, data = t.Args[0], t.Args[1]
				e.set(t.St, pac, ro.pktData, e.in.Nil())
				t.St.mon["data"], t.St.mon["pac"] = data, pac
				return t
			})
			r.atLeast("roundtrip", 40)
			r.atLeast("payload", 1)
			// connect packets
			var cp *V
			uuidFirst := false
			r.run(&Rule{NoMerge: true, OnSpawn: noSpawn, OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				c := "return of " + fnName(ro.cpMarshal)
				fail := func(f string, a ...interface{}) { r.ob(false, "connect encode", c, ro.cpMarshal.Pos(), st, f, a...) }
				if len(ret) == 2 && e.isNil(st, ret[1]) != 1 {
					fail("the encoder may fail")
					return
				}
				segs, ok := e.flatten(st, ret[0], 0)
				if !ok {
					fail("the bytes of %s are not known", desc(ret[0]))
					return
				}
				u := e.get(st, cp, ro.cpUUID)
				good := len(segs) == 3 && segs[0].b != nil && e.wholeField(st, segs[1], cp, ro.cpUUID) && e.wholeField(st, segs[2], cp, ro.cpData)
				for i := 0; good && i < 8; i++ {
					b := segs[0].b[i]
					good = b.v == e.lenOf(st, u, nil) && b.n == i
				}
				uuidFirst = uuidFirst || good
				r.ob(good, "connect encode", c, ro.cpMarshal.Pos(), st, "the packet is %s, not length, identifier and data", segString(segs))
			}}, func(e *Eng) *Task {
				t := e.RootTask(ro.cpMarshal)
				cp = t.Args[0]
				return t
			})
			r.run(&Rule{NoMerge: true, OnSpawn: noSpawn, OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
				c := "return of " + fnName(ro.cpUnmarshal)
				pos := ro.cpUnmarshal.Pos()
				total := e.lenOf(st, data, nil)
				ln := e.bounds(st, total)
				short := func() bool { // too short for the length it announces
					if ln.hi < 1 {
						return true
					}
					for f, b := range st.bnd {
						if b.hi >= maxI && b.lo <= minI {
							continue
						}
						// total - byte0 - 1 < 0 for the byte0 term in use
						for _, a := range f.atomsLin() {
							if a.kind == KOp && (a.op == "dec" || a.op == "byteAt") || a.kind == KSym {
								if bs, ok := e.termBits(st, a, 9); ok && isByte(bs, e.byteAt(data, e.in.Int(0, nil))) && e.bounds(st, e.in.sub(total, e.in.addC(a, 1))).hi < 0 {
									return true
								}
							}
						}
					}
					return false
				}
				if e.isNil(st, ret[0]) != 1 {
					r.ob(e.isNil(st, ret[0]) == 0 && short(), "connect decode", c, pos, st, "a well-formed connect packet may be refused")
					return
				}
				u := e.get(st, cp, ro.cpUUID)
				segs, ok := e.flatten(st, u, 0)
				n := e.lenOf(st, u, nil)
				bs, ok2 := e.termBits(st, n, 9)
				ok2 = ok2 && isByte(bs, e.byteAt(data, e.in.Int(0, nil)))
				segs = e.nonEmpty(st, segs)
				ok = ok && ok2 && (len(segs) == 1 && segs[0].b == nil && segs[0].base == data && e.isConst(st, segs[0].lo, 1) && e.same(st, segs[0].n, n) || len(segs) == 0 && e.bounds(st, n).hi <= 0)
				r.ob(ok, "connect decode", c, pos, st, "the identifier is %s, not the announced bytes", segString(segs))
				d := e.get(st, cp, ro.cpData)
				r.ob(e.restOf(st, d, data, e.in.addC(n, 1)), "connect decode", c, pos, st, "the data is %s, not the bytes after the identifier", desc(e.contentOf(st, d)))
			}}, func(e *Eng) *Task {
				t := e.RootTask(ro.cpUnmarshal)
				cp, data = t.Args[0], t.Args[1]
				t.St.mon["data"], t.St.mon["cp"] = data, cp
				return t
			})
			r.atLeast("connect encode", 1)
			r.atLeast("connect decode", 1)
			serveConnected(r, ro)
		},
	})
}

func isByte(bs []bsrc, b *V) bool {
	for i, x := range bs {
		if i < 8 && x != (bsrc{b, i}) || i >= 8 && x != (bsrc{}) {
			return false
		}
	}
	return true
}

// freshBuffers: every buffer that datagrams are read into is allocated for that
// read
func freshBuffers(p *Program) bool {
	n := 0
	for _, f := range p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "ReadFrom" {
					continue
				}
				n++
				v := c.Call.Args[0]
				if s, ok := v.(*ssa.Slice); ok {
					v = s.X
				}
				switch v := v.(type) {
				case *ssa.Alloc:
					if !v.Heap || v.Block() != b && inLoop(c) && !inLoop(v) {
						return false
					}
				case *ssa.MakeSlice:
					if v.Block() != b && inLoop(c) && !inLoop(v) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return n > 0
}
