package main

// Join of two abstract states at a loop head (anti-unification of the values
// with a hull of the facts) and widening.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type joinLabel struct {
	b   *ssa.BasicBlock
	ctx *Ctx
	pk  string
}

type joiner struct {
	e     *Eng
	A, B  *State
	J     *State
	label joinLabel
	pairs map[[2]*V]*V
	list  []jpair
	used  map[*V]bool
	sums  []jpair // ends of parts
}

type jpair struct {
	a, b, s *V
}

func (j *joiner) isMine(v *V) bool {
	if v.kind != KSym {
		return false
	}
	k, ok := v.aux.(symKey)
	if !ok || k.tag != "join" {
		return false
	}
	l, ok := k.instr.(joinLabel)
	return ok && l == j.label
}

func (j *joiner) pair(a, b *V, t types.Type) *V {
	if a == b {
		mine := false
		for _, x := range a.atoms {
			if j.isMine(x) {
				mine = true
			}
		}
		if !mine {
			return a
		}
		if !j.isMine(a) { // compound with bound symbols: structure decides
			if r, ok := j.structural(a, b, t); ok {
				return r
			}
			if a.kind == KLin || a.kind == KOp || a.kind == KSym {
				// all bound atoms unchanged
				same := true
				for _, x := range a.atoms {
					if j.isMine(x) && j.pair(x, x, x.typ) != x {
						same = false
					}
				}
				if same {
					return a
				}
			}
		}
	}
	if r, ok := j.pairs[[2]*V{a, b}]; ok {
		return r
	}
	if a != b {
		if r, ok := j.structural(a, b, t); ok {
			return r
		}
	}
	var s *V
	if j.isMine(a) && !j.used[a] {
		s = a
	} else {
		if t == nil {
			t = a.typ
			if t == nil {
				t = b.typ
			}
		}
		name := "j"
		if isNilable(t) && j.e.isNil(j.A, a) == 0 && j.e.isNil(j.B, b) == 0 {
			name = "!j"
		}
		for k := 0; ; k++ {
			s = j.e.in.mk(V{kind: KSym, op: name, typ: t, aux: symKey{instr: j.label, tag: "join"}, idx: k})
			if !j.used[s] && !j.e.inUse(j.A, s) && !j.e.inUse(j.B, s) {
				break
			}
		}
	}
	j.used[s] = true
	j.pairs[[2]*V{a, b}] = s
	j.list = append(j.list, jpair{a, b, s})
	return s
}

// special joins the bookkeeping of buffers, readers and hashes
func (j *joiner) special(k, a, b *V) *V {
	if a == b {
		return nil
	}
	in := j.e.in
	opaque := func(a, b *V) *V { return j.pair(a, b, tBytes) }
	content := func(a, b *V) *V {
		if a == b {
			return a
		}
		return in.mk(V{kind: KOp, op: "bytes", args: []*V{opaque(a, b)}})
	}
	if k.op == "ghost:acc" {
		return j.pair(a, b, tBytes)
	}
	if len(k.op) > 6 && k.op[:6] == "ghost:" {
		if len(k.args) > 0 {
			return j.pair(a, b, addrElem(k.args[0]))
		}
		return j.pair(a, b, tInt)
	}
	switch k.op {
	case "rd":
		return opaque(a, b)
	case "wr":
		return in.mk(V{kind: KOp, op: "bytes", args: []*V{opaque(a, b)}})
	case "hash":
		if len(a.args) == 3 && len(b.args) == 3 && a.args[0] == b.args[0] {
			return in.mk(V{kind: KOp, op: "hashst", args: []*V{a.args[0], a.args[1], content(a.args[2], b.args[2])}})
		}
		return in.mk(V{kind: KOp, op: "hashst", args: []*V{in.Str("unknown"), j.pair(a.args[1], b.args[1], tInt), content(a.args[2], b.args[2])}})
	}
	return nil
}

// asSlice: v as a part of base
func (j *joiner) asSlice(st *State, v, base *V) *V {
	if v != base || v.kind != KSym {
		return nil
	}
	if n := j.e.lenOf(st, v, nil); n != nil {
		return j.e.in.mk(V{kind: KOp, op: "slice", typ: v.typ, args: []*V{v, j.e.in.Int(0, nil), n}})
	}
	return nil
}

func (j *joiner) structural(a, b *V, t types.Type) (*V, bool) {
	// the whole and a part of it
	if a.kind == KOp && a.op == "slice" && b.kind == KSym {
		if x := j.asSlice(j.B, b, a.args[0]); x != nil {
			b = x
		}
	} else if b.kind == KOp && b.op == "slice" && a.kind == KSym {
		if x := j.asSlice(j.A, a, b.args[0]); x != nil {
			a = x
		}
	}
	if a.kind != b.kind || len(a.args) != len(b.args) {
		return nil, false
	}
	switch a.kind {
	case KStruct, KTuple:
		if len(a.args) == 0 {
			return nil, false
		}
	case KIface:
		if !types.Identical(a.typ, b.typ) {
			return nil, false
		}
	case KFunc, KField:
		if a.aux != b.aux || a.idx != b.idx {
			return nil, false
		}
	case KIndex:
	case KOp:
		if a.op != "slice" || b.op != "slice" {
			return nil, false
		}
	default:
		return nil, false
	}
	n := *a
	n.atoms = nil
	n.args = make([]*V, len(a.args))
	for i := range a.args {
		var ct types.Type
		switch a.kind {
		case KIface:
			ct = a.typ
		case KStruct:
			if s := derefStruct(a.typ); s != nil && i < s.NumFields() {
				ct = s.Field(i).Type()
			}
		case KOp:
			if i > 0 {
				ct = tInt
			}
		case KIndex:
			if i == 1 {
				ct = tInt
			}
		}
		n.args[i] = j.pair(a.args[i], b.args[i], ct)
	}
	if a.kind == KOp {
		// where the part ends, measured from the end of the whole
		if in := j.e.in; a.args[0] == b.args[0] && n.args[0] == a.args[0] {
			if l := j.e.lenOf(j.A, a.args[0], nil); l != nil {
				end := func(x *V) *V { return in.sub(in.add(x.args[1], x.args[2]), l) }
				j.sums = append(j.sums, jpair{end(a), end(b), end(&n)})
			}
		}
		return j.e.mkSlice(n.args[0], n.args[1], n.args[2], nil), true
	}
	return j.e.in.mk(n), true
}

// lift renames the atoms of a value of A into atoms of J and gives the
// corresponding value of B
func (j *joiner) lift(k *V) (res [][2]*V) {
	choice := map[*V][]jpair{}
	n := 1
	for _, a := range k.atoms {
		var c []jpair
		for _, p := range j.list {
			if p.a == a {
				c = append(c, p)
			}
		}
		if !j.isMine(a) && !j.used[a] {
			c = append(c, jpair{a, a, a})
		}
		choice[a] = c
		n *= len(c)
	}
	if n == 0 || n > 12 {
		return nil
	}
	var rec func(i int, mj, mb map[*V]*V)
	rec = func(i int, mj, mb map[*V]*V) {
		if i == len(k.atoms) {
			sj := &substituter{e: j.e, m: cp(mj)}
			sb := &substituter{e: j.e, m: cp(mb)}
			res = append(res, [2]*V{sj.apply(k), sb.apply(k)})
			return
		}
		a := k.atoms[i]
		for _, p := range choice[a] {
			mj[a], mb[a] = p.s, p.b
			rec(i+1, mj, mb)
		}
		delete(mj, a)
		delete(mb, a)
	}
	rec(0, map[*V]*V{}, map[*V]*V{})
	return
}

func addrElem(k *V) types.Type {
	if k.kind == KOp {
		return nil
	}
	if k.typ != nil {
		if p, ok := k.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func sortedV[T any](m map[*V]T) []*V {
	ks := make([]*V, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func (e *Eng) join(A, B *State, label joinLabel, widen bool) *State {
	j := &joiner{e: e, A: A, B: B, J: newState(), label: label, pairs: map[[2]*V]*V{}, used: map[*V]bool{}}
	J := j.J
	J.tr = B.tr
	J.may = cp(A.may)
	for k := range B.may {
		J.may[k] = true
	}
	J.locks = A.locks
	// environment
	var names []ssa.Value
	for k := range A.env {
		if _, ok := B.env[k]; ok {
			names = append(names, k)
		}
	}
	sort.Slice(names, func(x, y int) bool {
		a, b := names[x], names[y]
		if a.Name() != b.Name() {
			return a.Name() < b.Name()
		}
		return a.Pos() < b.Pos()
	})
	for _, k := range names {
		J.env[k] = j.pair(A.env[k], B.env[k], k.Type())
	}
	var ms []string
	for k := range A.mon {
		if _, ok := B.mon[k]; ok {
			ms = append(ms, k)
		}
	}
	sort.Strings(ms)
	for _, k := range ms {
		J.mon[k] = j.pair(A.mon[k], B.mon[k], nil)
	}
	if len(A.defers) == len(B.defers) {
		for i := range A.defers {
			d := A.defers[i]
			b := B.defers[i]
			d.args = append([]*V{}, d.args...)
			for x := range d.args {
				d.args[x] = j.pair(d.args[x], b.args[x], nil)
			}
			if d.fn != nil && b.fn != nil {
				d.fn = j.pair(d.fn, b.fn, nil)
			}
			J.defers = append(J.defers, d)
		}
	} else {
		e.undecided(label.b.Parent().Pos(), "deferred calls depend on the number of loop iterations in %s", label.b.Parent())
		J.defers = A.defers
	}
	// heap
	hk := sortedV(A.heap)
	for round := 0; round < 20; round++ {
		n := len(j.list)
		for _, k := range hk {
			for _, kk := range j.lift(k) {
				kj, kb := kk[0], kk[1]
				if _, done := J.heap[kj]; done {
					continue
				}
				vb, ok := B.heap[kb]
				if !ok {
					continue
				}
				if kj.kind == KOp {
					if kj.op == "mapent" && isAbsent(A.heap[k]) != isAbsent(vb) {
						continue
					}
					if x := j.special(kj, A.heap[k], vb); x != nil {
						J.heap[kj] = x
						continue
					}
				}
				J.heap[kj] = j.pair(A.heap[k], vb, addrElem(k))
			}
		}
		// zero objects: a missing entry is a zero value
		for _, p := range []struct {
			X, Y *State
			inA  bool
		}{{A, B, true}, {B, A, false}} {
			for _, k := range sortedV(p.X.heap) {
				rb := rootBase(k)
				if k.kind == KOp || !A.zero[rb] || !B.zero[rb] {
					continue
				}
				if _, ok := p.Y.heap[k]; ok {
					continue
				}
				if _, done := J.heap[k]; done {
					continue
				}
				t := addrElem(k)
				if t == nil {
					continue
				}
				z := e.zeroVal(t)
				if p.inA {
					J.heap[k] = j.pair(p.X.heap[k], z, t)
				} else {
					J.heap[k] = j.pair(z, p.X.heap[k], t)
				}
			}
		}
		if n == len(j.list) && round > 0 {
			break
		}
	}
	for _, o := range sortedV(A.zero) {
		if B.zero[o] {
			J.zero[o] = true
		}
	}
	for _, s := range []*State{A, B} {
		for o := range s.esc {
			J.esc[o] = true
		}
	}
	// dirty/touched markers of either side stay
	for _, s := range []*State{A, B} {
		for k, v := range s.heap {
			if k.kind == KOp && (k.op == "dirty" || k.op == "touched") {
				J.heap[k] = v
			}
			if k.kind == KOp && strings.HasPrefix(k.op, "keep:") && J.heap[k] == nil {
				J.heap[k] = v
			}
		}
	}
	if e.rule != nil && e.rule.OnJoin != nil {
		for _, p := range j.list {
			e.rule.OnJoin(e, A, B, J, p.a, p.b, p.s)
		}
	}
	// a part written on one side only
	for _, s := range []*State{A, B} {
		for k := range s.heap {
			if k.kind == KOp && k.op == "content" && J.heap[k] == nil {
				if b, _, _ := e.span(k.args[0]); b.kind == KObj {
					J.heap[e.in.Op("touched", nil, b)] = e.in.Bool(true)
				}
			}
		}
	}
	for _, k := range hk {
		if k.kind == KField && len(e.p.pairPtrs[fieldVar(k)]) > 0 {
			e.joinPair(A, B, J, k)
		}
	}
	j.facts(widen)
	for _, p := range j.list {
		if p.a.kind == KObj || p.b.kind == KObj {
			// what a generalised pointer may point at is no longer private
			for _, o := range []*V{p.a, p.b} {
				if o.kind == KObj {
					J.esc[o] = true
				}
			}
		}
	}
	e.gc(J, nil)
	return J
}

func (j *joiner) setHull(form *V, a, b iv, widen bool, old iv, hasOld bool) {
	h := a.hull(b)
	if widen {
		ref := a
		if hasOld {
			ref = old
		}
		if h.lo < ref.lo {
			if h.lo >= 0 {
				h.lo = 0
			} else if h.lo >= -1 && false {
				h.lo = -1
			} else {
				h.lo = minI
			}
		}
		if h.hi > ref.hi {
			if h.hi <= 0 {
				h.hi = 0
			} else {
				h.hi = maxI
			}
		}
	}
	intr := j.e.bounds(newStateEmpty, form)
	if h.lo <= intr.lo {
		h.lo = minI
	}
	if h.hi >= intr.hi {
		h.hi = maxI
	}
	if h == top {
		return
	}
	f, sign, c, ok := j.e.in.normForm(form)
	if !ok || f == nil {
		return
	}
	r := h.add(iv{-c, -c}).mul(sign)
	if o, has := j.J.bnd[f]; has {
		r = r.meet(o)
	}
	j.J.bnd[f] = r
}

var tBytes = types.NewSlice(types.Typ[types.Byte])

var newStateEmpty = newState()

// rel groups the atoms that are connected by a known linear fact
type relMap map[*V]*V

func (r relMap) find(v *V) *V {
	for {
		p, ok := r[v]
		if !ok || p == v {
			return v
		}
		v = p
	}
}

func (r relMap) union(at []*V) {
	for i := 1; i < len(at); i++ {
		x, y := r.find(at[0]), r.find(at[i])
		if x != y {
			r[x] = y
		}
	}
}

func newRel(st *State) relMap {
	r := relMap{}
	for k := range st.bnd {
		at := k.atomsLin()
		if len(at) == 1 {
			if _, ok := r[at[0]]; !ok {
				r[at[0]] = at[0]
			}
		}
		r.union(at)
	}
	return r
}

// rel: a difference of the values may be known beyond their own bounds
func (r relMap) rel(a, b *V) bool {
	if a.kind == KConst || b.kind == KConst {
		known := func(v *V) bool {
			if v.kind != KOp {
				return true
			}
			_, ok := r[v]
			return ok
		}
		return known(a) && known(b)
	}
	for _, x := range a.atomsLin() {
		for _, y := range b.atomsLin() {
			if r.find(x) == r.find(y) {
				return true
			}
			if x.kind == KOp || y.kind == KOp {
				for _, u := range append(x.args, x) {
					for _, w := range append(y.args, y) {
						if u == w {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (j *joiner) facts(widen bool) {
	e, A, B, J := j.e, j.A, j.B, j.J
	in := e.in
	A.memo, B.memo = map[memoKey]iv{}, map[memoKey]iv{}
	defer func() { A.memo, B.memo = nil, nil }()
	free := func(v *V) bool {
		for _, a := range v.atoms {
			if j.isMine(a) || j.used[a] {
				return false
			}
		}
		return true
	}
	// facts over unchanged atoms
	seen := map[*V]bool{}
	for _, s := range []*State{A, B} {
		for _, k := range sortedV(s.bnd) {
			if seen[k] || !free(k) {
				continue
			}
			seen[k] = true
			j.setHull(k, e.bounds(A, k), e.bounds(B, k), widen, iv{}, false)
		}
	}
	for k := range A.ne {
		if free(k.v) && (B.ne[k] || !inIv(e.bounds(B, k.v), k.c)) {
			J.ne[k] = true
		}
	}
	for k := range B.ne {
		if free(k.v) && !A.ne[k] && !inIv(e.bounds(A, k.v), k.c) {
			J.ne[k] = true
		}
	}
	for _, s := range []*State{A, B} {
		for _, k := range sortedV(s.bools) {
			if !free(k) {
				continue
			}
			ta, tb := e.truth(A, k), e.truth(B, k)
			if ta >= 0 && ta == tb {
				if _, isC := k.boolVal(); !isC {
					J.bools[k] = ta == 1
				}
			}
		}
	}
	// integer pairs
	var ints []jpair
	for _, p := range j.list {
		if p.s.typ != nil && isInteger(p.s.typ) {
			ints = append(ints, p)
		} else if isNilable(p.s.typ) {
			ta, tb := e.isNil(A, p.a), e.isNil(B, p.b)
			if ta >= 0 && ta == tb && !e.symNonNil(p.s) {
				J.bools[e.mkEq(p.s, in.Nil())] = ta == 1
			}
		} else if p.s.typ != nil {
			if ta, tb := e.truth(A, p.a), e.truth(B, p.b); ta >= 0 && ta == tb {
				J.bools[p.s] = ta == 1
			}
		}
	}
	for _, p := range ints {
		j.setHull(p.s, e.bounds(A, p.a), e.bounds(B, p.b), widen, iv{}, false)
		for _, c := range []int64{0, -1, 1} {
			if e.truth(A, e.mkEq(p.a, in.Int(c, nil))) == 0 && e.truth(B, e.mkEq(p.b, in.Int(c, nil))) == 0 && inIv(e.bounds(J, p.s), c) {
				J.ne[neKey{p.s, c}] = true
			}
		}
	}
	// common integer atoms
	common := map[*V]bool{}
	for _, s := range []*State{A, B} {
		for k := range s.bnd {
			for _, a := range k.atomsLin() {
				if free(a) {
					common[a] = true
				}
			}
		}
	}
	for _, p := range ints {
		for _, v := range []*V{p.a, p.b} {
			if v.kind == KLin || v.kind == KOp {
				for _, a := range v.atomsLin() {
					if free(a) {
						common[a] = true
					}
				}
			}
		}
	}
	// lengths of common or paired slices
	var lens []jpair
	for _, p := range j.list {
		if p.s.typ != nil {
			if _, ok := p.s.typ.Underlying().(*types.Slice); ok {
				lens = append(lens, jpair{e.lenOf(A, p.a, nil), e.lenOf(B, p.b, nil), e.lenOf(J, p.s, nil)})
			}
		}
	}
	for _, l := range lens {
		j.setHull(l.s, e.bounds(A, l.a), e.bounds(B, l.b), widen, iv{}, false)
	}
	for _, p := range j.sums {
		if p.s.kind != KConst {
			j.setHull(p.s, e.bounds(A, p.a), e.bounds(B, p.b), widen, iv{}, false)
		}
	}
	relA, relB := newRel(A), newRel(B)
	related := func(p, q jpair) bool { return relA.rel(p.a, q.a) && relB.rel(p.b, q.b) }
	all := append(append([]jpair{}, ints...), lens...)
	cs := sortedV(common)
	if len(cs) > 24 {
		cs = cs[:24]
	}
	// a compound value that is one of the alternatives
	for _, p := range ints {
		for _, c := range []*V{p.a, p.b} {
			if c.kind == KLin && len(c.atoms) > 1 && free(c) {
				j.setHull(in.sub(p.s, c), e.bounds(A, in.sub(p.a, c)), e.bounds(B, in.sub(p.b, c)), widen, iv{}, false)
			}
		}
	}
	for i, p := range all {
		for _, c := range cs {
			if c == p.s || !related(p, jpair{c, c, c}) {
				continue
			}
			d := in.sub(p.s, c)
			j.setHull(d, e.bounds(A, in.sub(p.a, c)), e.bounds(B, in.sub(p.b, c)), widen, iv{}, false)
		}
		for _, q := range all[i+1:] {
			sa, sb := in.add(p.a, q.a), in.add(p.b, q.b)
			if sa == sb && free(sa) {
				j.setHull(in.sub(in.add(p.s, q.s), sa), iv{0, 0}, iv{0, 0}, false, iv{}, false)
			}
			if !related(p, q) {
				continue
			}
			j.setHull(in.sub(p.s, q.s), e.bounds(A, in.sub(p.a, q.a)), e.bounds(B, in.sub(p.b, q.b)), widen, iv{}, false)
		}
	}
	// facts of A over bound symbols
	for _, k := range sortedV(A.bnd) {
		if free(k) {
			continue
		}
		for _, kk := range j.lift(k) {
			if kk[0].kind == KConst {
				continue
			}
			ra := A.bnd[k]
			rb := e.bounds(B, kk[1])
			j.setHull(kk[0], ra, rb, widen, iv{}, false)
		}
	}
	for _, k := range sortedV(A.bools) {
		if free(k) {
			continue
		}
		for _, kk := range j.lift(k) {
			if _, isC := kk[0].boolVal(); isC {
				continue
			}
			if tb := e.truth(B, kk[1]); tb >= 0 && (tb == 1) == A.bools[k] {
				J.bools[kk[0]] = tb == 1
			}
		}
	}
	for k := range A.ne {
		if free(k.v) {
			continue
		}
		for _, kk := range j.lift(k.v) {
			if e.truth(B, e.mkEq(kk[1], in.Int(k.c, nil))) == 0 {
				if f, s, c, ok := in.normForm(kk[0]); ok && f != nil {
					J.ne[neKey{f, (k.c - c) * s}] = true
				}
			}
		}
	}
}

func inIv(r iv, c int64) bool { return c >= r.lo && c <= r.hi }

var _ = fmt.Sprint
