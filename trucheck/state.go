package main

// Abstract state: environment of the current frame, heap, facts about values,
// locks held and the property automaton of the running rule.

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iv struct{ lo, hi int64 }

var top = iv{minI, maxI}

func (a iv) meet(b iv) iv {
	if b.lo > a.lo {
		a.lo = b.lo
	}
	if b.hi < a.hi {
		a.hi = b.hi
	}
	return a
}
func (a iv) hull(b iv) iv {
	if b.lo < a.lo {
		a.lo = b.lo
	}
	if b.hi > a.hi {
		a.hi = b.hi
	}
	return a
}
func (a iv) empty() bool { return a.lo > a.hi }
func clampI(n int64) int64 {
	if n > maxI {
		return maxI
	}
	if n < minI {
		return minI
	}
	return n
}
func addI(a, b int64) int64 {
	if a >= maxI || b >= maxI {
		return maxI
	}
	if a <= minI || b <= minI {
		return minI
	}
	return clampI(a + b)
}
func (a iv) add(b iv) iv {
	lo, hi := minI, maxI
	if a.lo > minI && b.lo > minI {
		lo = clampI(a.lo + b.lo)
	}
	if a.hi < maxI && b.hi < maxI {
		hi = clampI(a.hi + b.hi)
	}
	return iv{lo, hi}
}
func (a iv) mul(k int64) iv {
	m := func(x int64) int64 {
		if x >= maxI || x <= minI {
			if (x > 0) == (k > 0) {
				return maxI
			}
			return minI
		}
		r := x * k
		if k != 0 && r/k != x {
			if (x > 0) == (k > 0) {
				return maxI
			}
			return minI
		}
		return clampI(r)
	}
	if k == 0 {
		return iv{0, 0}
	}
	x, y := m(a.lo), m(a.hi)
	if x > y {
		x, y = y, x
	}
	return iv{x, y}
}

type neKey struct {
	v *V
	c int64
}

type lockEnt struct {
	addr *V
	mode byte // 'W' or 'R'
	pos  token.Pos
}

type deferRec struct {
	instr *ssa.Defer
	fn    *V
	args  []*V
}

type trace struct {
	up   *trace
	pos  token.Pos
	note string
}

type State struct {
	env    map[ssa.Value]*V
	defers []deferRec
	heap   map[*V]*V
	zero   map[*V]bool // objects whose missing fields are zero
	esc    map[*V]bool // escaped objects
	bnd    map[*V]iv
	ne     map[neKey]bool
	bools  map[*V]bool
	memo   map[memoKey]iv // intervals computed while the state does not change
	locks  []lockEnt
	mon    map[string]*V
	may    map[string]bool // what may have happened: joined by union
	tr     *trace
	dead   bool
}

func newState() *State {
	return &State{env: map[ssa.Value]*V{}, heap: map[*V]*V{}, zero: map[*V]bool{}, esc: map[*V]bool{},
		bnd: map[*V]iv{}, ne: map[neKey]bool{}, bools: map[*V]bool{}, mon: map[string]*V{}, may: map[string]bool{}}
}

func cp[K comparable, T any](m map[K]T) map[K]T {
	r := make(map[K]T, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	return &State{env: cp(st.env), defers: st.defers[:len(st.defers):len(st.defers)], heap: cp(st.heap), zero: cp(st.zero), esc: cp(st.esc),
		bnd: cp(st.bnd), ne: cp(st.ne), bools: cp(st.bools), locks: st.locks[:len(st.locks):len(st.locks)], mon: cp(st.mon), may: cp(st.may), tr: st.tr}
}

func (st *State) note(p token.Pos, s string) { st.tr = &trace{st.tr, p, s} }

// key is a canonical text of the state used to merge equal states
func (st *State) key() string {
	ks := make([]string, 0, len(st.env))
	for k, v := range st.env {
		ks = append(ks, k.Name()+"="+strconv.Itoa(int(v.id)))
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString(strings.Join(ks, ";"))
	sb.WriteString("#D")
	for _, d := range st.defers {
		fmt.Fprintf(&sb, "%p:", d.instr)
		for _, a := range d.args {
			fmt.Fprintf(&sb, "%d,", a.id)
		}
	}
	sb.WriteString(st.coreKey())
	return sb.String()
}

type rowSet struct {
	rows [][4]int64
	buf  []byte
}

func (r *rowSet) add(a, b, c, d int64) { r.rows = append(r.rows, [4]int64{a, b, c, d}) }
func (r *rowSet) flush(tag byte, n int) {
	sort.Slice(r.rows, func(i, j int) bool {
		x, y := &r.rows[i], &r.rows[j]
		for k := 0; k < n; k++ {
			if x[k] != y[k] {
				return x[k] < y[k]
			}
		}
		return false
	})
	r.buf = append(r.buf, tag)
	for i := range r.rows {
		for k := 0; k < n; k++ {
			r.buf = binary.AppendVarint(r.buf, r.rows[i][k])
		}
	}
	r.rows = r.rows[:0]
}

func (st *State) coreKey() string {
	var r rowSet
	for k, v := range st.heap {
		r.add(int64(k.id), int64(v.id), 0, 0)
	}
	r.flush('H', 2)
	for k := range st.zero {
		r.add(int64(k.id), 0, 0, 0)
	}
	r.flush('Z', 1)
	for k := range st.esc {
		r.add(int64(k.id), 0, 0, 0)
	}
	r.flush('E', 1)
	for k, v := range st.bnd {
		r.add(int64(k.id), v.lo, v.hi, 0)
	}
	r.flush('B', 3)
	for k := range st.ne {
		r.add(int64(k.v.id), k.c, 0, 0)
	}
	r.flush('N', 2)
	for k, v := range st.bools {
		r.add(int64(k.id), int64(b2i(v)), 0, 0)
	}
	r.flush('F', 2)
	return string(r.buf) + st.lockKey() + "#M" + st.monKey(false) + st.mayKey()
}

func (st *State) mayKey() string {
	if len(st.may) == 0 {
		return ""
	}
	var n []string
	for k := range st.may {
		n = append(n, k)
	}
	sort.Strings(n)
	return "#Y" + strings.Join(n, ";")
}

func (st *State) lockKey() string {
	var n []string
	for _, l := range st.locks {
		n = append(n, fmt.Sprintf("%d%c", l.addr.id, l.mode))
	}
	return "#L" + strings.Join(n, ";")
}

func (st *State) monKey(shape bool) string {
	var n []string
	for k, v := range st.mon {
		if shape && len(v.atoms) > 0 {
			n = append(n, k+"=*")
		} else {
			n = append(n, fmt.Sprintf("%s=%d", k, v.id))
		}
	}
	sort.Strings(n)
	return strings.Join(n, ";")
}

// ---------------------------------------------------------------- facts

func (e *Eng) intrinsic(v *V) iv {
	switch v.kind {
	case KConst:
		if n, ok := v.intVal(); ok {
			return iv{n, n}
		}
	case KOp:
		switch v.op {
		case "len", "cap":
			return iv{0, maxI}
		case "and":
			for _, a := range v.args {
				if n, ok := a.intVal(); ok && n >= 0 {
					return iv{0, n}
				}
			}
		case "rem":
			if n, ok := v.args[1].intVal(); ok && n > 0 {
				if v.typ != nil && isUnsigned(v.typ) || e.intrinsic(v.args[0]).lo >= 0 {
					return iv{0, n - 1}
				}
				return iv{-(n - 1), n - 1}
			}
		case "call:(time.Time).UnixNano", "call:(time.Time).UnixMilli", "call:(time.Time).Unix", "call:(time.Time).UnixMicro":
			return iv{0, maxI} // the clock is past 1970
		case "mod": // non-negative remainder
			if n, ok := v.args[1].intVal(); ok && n > 0 {
				return iv{0, n - 1}
			}
		}
	}
	if v.typ != nil && v.kind != KLin {
		if lo, hi, ok := intRange(v.typ); ok {
			return iv{lo, hi}
		}
	}
	return top
}

// bounds computes an interval for an integer value
func (e *Eng) bounds(st *State, v *V) iv { return e.boundsD(st, v, 0) }

func (e *Eng) boundsD(st *State, v *V, depth int) iv {
	if n, ok := v.intVal(); ok {
		return iv{n, n}
	}
	if st.memo == nil {
		return e.boundsRaw(st, v, depth)
	}
	k := memoKey{v, depth}
	if r, ok := st.memo[k]; ok {
		return r
	}
	r := e.boundsRaw(st, v, depth)
	st.memo[k] = r
	return r
}

// memoKey identifies a computed interval while the facts of a state do not
// change
type memoKey struct {
	v     *V
	depth int
}

func (e *Eng) boundsRaw(st *State, v *V, depth int) iv {
	form, sign, c, ok := e.in.normForm(v)
	if !ok {
		return top
	}
	r := top
	if f, ok := st.bnd[form]; ok {
		r = f
	}
	// sum of the atoms
	at, co, _, _ := e.in.linParts(form)
	if len(at) == 1 && co[0] == 1 {
		r = r.meet(e.intrinsic(at[0]))
		if at[0].kind == KOp {
			r = r.meet(e.opBounds(st, at[0], depth))
		}
	} else {
		s := iv{0, 0}
		for i, a := range at {
			s = s.add(e.boundsD(st, a, depth+1).mul(co[i]))
		}
		r = r.meet(s)
	}
	if depth < 2 {
		// combine with one known fact that shares an atom
		for f, b := range st.bnd {
			if f == form || !sharesAtom(form, f) {
				continue
			}
			n := complexity(form)
			if restLen(form, f, -1) < n {
				rest := e.in.sub(form, f) // form = f + rest
				rb := e.boundsD(st, rest, depth+1)
				if b.lo > minI {
					r.lo = maxi(r.lo, addI(b.lo, rb.lo))
				}
				if b.hi < maxI {
					r.hi = mini(r.hi, addI(b.hi, rb.hi))
				}
			}
			if restLen(form, f, 1) < n {
				rest := e.in.add(form, f) // form = rest - f
				rb := e.boundsD(st, rest, depth+1)
				if b.lo > minI {
					r.hi = mini(r.hi, addI(-b.lo, rb.hi))
				}
				if b.hi < maxI {
					r.lo = maxi(r.lo, addI(-b.hi, rb.lo))
				}
			}
		}
		// combine two facts for pure differences: a-b = (a-m) + (m-b)
		if len(at) <= 2 {
			for f, b := range st.bnd {
				if f == form || !sharesAtom(form, f) || len(f.atomsLin()) != 2 {
					continue
				}
				for _, sg := range []int64{1, -1} {
					if restLen(form, f, -sg) > 2 {
						continue
					}
					rest := e.in.lin(form, 1, f, -sg, nil)
					ra, _, _, ok := e.in.linParts(rest)
					if !ok || len(ra) > 2 {
						continue
					}
					fb := b.mul(sg)
					var rb iv
					if depth < 1 {
						rb = e.boundsD(st, rest, depth+1)
					} else {
						rf, rs, rc, ok := e.in.normForm(rest)
						if !ok {
							continue
						}
						x, okb := st.bnd[rf]
						if !okb {
							continue
						}
						rb = x.mul(rs).add(iv{rc, rc})
					}
					r = r.meet(fb.add(rb))
				}
			}
		}
	}
	// excluded end points
	for r.lo > minI && st.ne[neKey{form, r.lo}] && r.lo <= r.hi {
		r.lo++
	}
	for r.hi < maxI && st.ne[neKey{form, r.hi}] && r.lo <= r.hi {
		r.hi--
	}
	return r.mul(sign).add(iv{c, c})
}

// restLen counts the atoms of a + k*b
func restLen(a, b *V, k int64) int {
	one := []int64{1}
	aa, ac := a.atomsLin(), a.coef
	if a.kind != KLin {
		ac = one
	}
	ba, bc := b.atomsLin(), b.coef
	if b.kind != KLin {
		bc = one
	}
	n, i, j := 0, 0, 0
	for i < len(aa) && j < len(ba) {
		switch {
		case aa[i].id < ba[j].id:
			n++
			i++
		case aa[i].id > ba[j].id:
			n++
			j++
		default:
			if ac[i]+k*bc[j] != 0 {
				n++
			}
			i++
			j++
		}
	}
	return n + len(aa) - i + len(ba) - j
}

func (v *V) atomsLin() []*V {
	if v.kind == KLin {
		return v.args
	}
	if v.self == nil {
		v.self = []*V{v}
	}
	return v.self
}

func complexity(v *V) int {
	switch v.kind {
	case KConst:
		return 0
	case KLin:
		return len(v.args)
	}
	return 1
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func mini(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func sharesAtom(a, b *V) bool {
	for _, x := range a.atomsLin() {
		for _, y := range b.atomsLin() {
			if x == y {
				return true
			}
		}
	}
	return false
}

func (e *Eng) opBounds(st *State, v *V, depth int) iv {
	if depth > 3 {
		return top
	}
	switch v.op {
	case "wrap":
		if lo, hi, ok := intRange(v.typ); ok {
			return iv{lo, hi}
		}
	case "conv":
		b := e.boundsD(st, v.args[0], depth+1)
		if lo, hi, ok := intRange(v.typ); ok && b.lo >= lo && b.hi <= hi {
			return b
		}
	case "min":
		r := e.boundsD(st, v.args[0], depth+1)
		for _, a := range v.args[1:] {
			b := e.boundsD(st, a, depth+1)
			r = iv{mini(r.lo, b.lo), mini(r.hi, b.hi)}
		}
		return r
	case "max":
		r := e.boundsD(st, v.args[0], depth+1)
		for _, a := range v.args[1:] {
			b := e.boundsD(st, a, depth+1)
			r = iv{maxi(r.lo, b.lo), maxi(r.hi, b.hi)}
		}
		return r
	case "mul":
		if a, b := e.boundsD(st, v.args[0], depth+1), e.boundsD(st, v.args[1], depth+1); a.lo >= 0 && b.lo >= 0 {
			r := iv{0, maxI}
			if a.lo == 0 || b.lo <= (maxI-1)/a.lo {
				r.lo = a.lo * b.lo
			}
			if a.hi < maxI && b.hi < maxI && (a.hi == 0 || b.hi <= (maxI-1)/a.hi) {
				r.hi = a.hi * b.hi
			} else {
				return top // may wrap around
			}
			return r
		}
	case "rem", "mod":
		a := e.boundsD(st, v.args[0], depth+1)
		if a.lo >= 0 {
			if n, ok := v.args[1].intVal(); ok && n > 0 {
				if a.hi < n {
					return a
				}
				return iv{0, n - 1}
			}
			d := e.boundsD(st, v.args[1], depth+1)
			if d.hi < maxI {
				return iv{0, mini(a.hi, d.hi-1)}
			}
			return iv{0, a.hi}
		}
	case "quo":
		a := e.boundsD(st, v.args[0], depth+1)
		if n, ok := v.args[1].intVal(); ok && n > 0 && a.lo >= 0 {
			hi := a.hi
			if hi < maxI {
				hi = hi / n
			}
			return iv{a.lo / n, hi}
		}
	case "shr":
		a := e.boundsD(st, v.args[0], depth+1)
		if n, ok := v.args[1].intVal(); ok && n >= 0 && n < 62 && a.lo >= 0 {
			hi := a.hi
			if hi < maxI {
				hi = hi >> uint(n)
			}
			return iv{a.lo >> uint(n), hi}
		}
	case "and":
		a, b := e.boundsD(st, v.args[0], depth+1), e.boundsD(st, v.args[1], depth+1)
		if a.lo >= 0 && b.lo >= 0 {
			return iv{0, mini(a.hi, b.hi)}
		}
	}
	return top
}

// truth evaluates a boolean value: 1 true, 0 false, -1 unknown
func (e *Eng) truth(st *State, v *V) int {
	if b, ok := v.boolVal(); ok {
		if b {
			return 1
		}
		return 0
	}
	if v.kind == KOp {
		switch v.op {
		case "not":
			t := e.truth(st, v.args[0])
			if t < 0 {
				return -1
			}
			return 1 - t
		case "eq":
			x, y := v.args[0], v.args[1]
			if x == y {
				return 1
			}
			if b, ok := st.bools[v]; ok {
				return b2i(b)
			}
			if isIntV(x) && isIntV(y) {
				r := e.bounds(st, e.in.sub(x, y))
				if r.lo > 0 || r.hi < 0 || r.empty() {
					return 0
				}
				if r.lo == 0 && r.hi == 0 {
					return 1
				}
				if form, sign, c, ok := e.in.normForm(e.in.sub(x, y)); ok && form != nil {
					if st.ne[neKey{form, -c * sign}] {
						return 0
					}
				}
				return -1
			}
			return e.eqStruct(st, x, y)
		case "lt":
			r := e.bounds(st, e.in.sub(v.args[0], v.args[1]))
			if r.hi < 0 {
				return 1
			}
			if r.lo >= 0 {
				return 0
			}
			return -1
		}
	}
	if b, ok := st.bools[v]; ok {
		return b2i(b)
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func isIntV(v *V) bool {
	switch v.kind {
	case KConst:
		_, ok := v.intVal()
		return ok
	case KLin:
		return true
	case KSym, KOp:
		return v.typ != nil && isInteger(v.typ)
	}
	return false
}

// eqStruct decides equality of non-integer values where possible
func (e *Eng) eqStruct(st *State, x, y *V) int {
	if x.kind == KNil {
		x, y = y, x
	}
	if y.kind == KNil {
		switch x.kind {
		case KNil:
			return 1
		case KObj, KFunc, KGlobal, KField, KIndex, KIface, KStruct:
			return 0
		case KOp:
			if x.op == "nonnil" {
				return 0
			}
		case KSym:
			if e.symNonNil(x) {
				return 0
			}
		}
		return -1
	}
	if x.kind == KConst && y.kind == KConst {
		return b2i(x == y)
	}
	if x.kind == KObj && y.kind == KObj {
		return 0
	}
	if x.kind == KObj && y.kind == KSym || y.kind == KObj && x.kind == KSym {
		o := x
		if y.kind == KObj {
			o = y
		}
		if !st.esc[o] {
			return 0
		}
	}
	if x.kind == KIface && y.kind == KIface {
		if !types.Identical(x.typ, y.typ) {
			return 0
		}
		return e.truth(st, e.mkEq(x.args[0], y.args[0]))
	}
	if x.kind == KGlobal && y.kind == KGlobal {
		return 0
	}
	return -1
}

// symNonNil tells whether an unknown value is known never to be nil
func (e *Eng) symNonNil(v *V) bool {
	return strings.HasPrefix(v.op, "!")
}

func (e *Eng) mkEq(x, y *V) *V {
	if x.id > y.id {
		x, y = y, x
	}
	if x == y {
		return e.in.Bool(true)
	}
	if x.kind == KConst && y.kind == KConst {
		return e.in.Bool(false)
	}
	return e.in.Op("eq", tBool, x, y)
}
func (e *Eng) mkLt(x, y *V) *V {
	if a, ok := x.intVal(); ok {
		if b, ok := y.intVal(); ok {
			return e.in.Bool(a < b)
		}
	}
	return e.in.Op("lt", tBool, x, y)
}
func (e *Eng) mkNot(x *V) *V {
	if b, ok := x.boolVal(); ok {
		return e.in.Bool(!b)
	}
	if x.kind == KOp && x.op == "not" {
		return x.args[0]
	}
	return e.in.Op("not", tBool, x)
}

func (st *State) setBnd(e *Eng, v *V, r iv) bool {
	if n, ok := v.intVal(); ok {
		return r.lo <= n && n <= r.hi
	}
	form, sign, c, ok := e.in.normForm(v)
	if !ok || form == nil {
		return true
	}
	// sign*form + c in r  =>  form in (r-c)*sign
	f := r.add(iv{-c, -c}).mul(sign)
	old, has := st.bnd[form]
	if has {
		f = f.meet(old)
	}
	full := f.meet(e.bounds(st, form))
	if full.empty() {
		return false
	}
	if f != top {
		st.bnd[form] = f
	}
	return true
}

// assume adds the fact v == want; it returns false if that is impossible
func (e *Eng) assume(st *State, v *V, want bool) bool {
	switch t := e.truth(st, v); t {
	case 0, 1:
		return (t == 1) == want
	}
	if v.kind == KOp {
		switch v.op {
		case "not":
			return e.assume(st, v.args[0], !want)
		case "eq":
			x, y := v.args[0], v.args[1]
			if isIntV(x) && isIntV(y) {
				d := e.in.sub(x, y)
				if want {
					return st.setBnd(e, d, iv{0, 0})
				}
				form, sign, c, ok := e.in.normForm(d)
				if ok && form != nil {
					st.ne[neKey{form, -c * sign}] = true
					if e.bounds(st, form).empty() {
						return false
					}
				}
				return true
			}
			st.bools[v] = want
			if want {
				e.propagateEq(st, x, y)
			}
			return true
		case "lt":
			d := e.in.sub(v.args[0], v.args[1])
			if want {
				return st.setBnd(e, d, iv{minI, -1})
			}
			return st.setBnd(e, d, iv{0, maxI})
		}
	}
	st.bools[v] = want
	return true
}

// propagateEq transfers what is known about one value to an equal one
func (e *Eng) propagateEq(st *State, x, y *V) {
	for _, p := range [][2]*V{{x, y}, {y, x}} {
		if p[1].kind == KNil {
			continue
		}
		n := e.mkEq(p[0], e.in.Nil())
		if t := e.truth(st, n); t >= 0 {
			m := e.mkEq(p[1], e.in.Nil())
			if e.truth(st, m) < 0 {
				st.bools[m] = t == 1
			}
		}
	}
}

func (e *Eng) isNil(st *State, v *V) int { return e.truth(st, e.mkEq(v, e.in.Nil())) }

// purge removes all facts that mention the atom
func (st *State) purge(a *V) {
	for k := range st.bnd {
		if k.hasAtom(a) {
			delete(st.bnd, k)
		}
	}
	for k := range st.ne {
		if k.v.hasAtom(a) {
			delete(st.ne, k)
		}
	}
	for k := range st.bools {
		if k.hasAtom(a) {
			delete(st.bools, k)
		}
	}
	for k, v := range st.heap {
		if k.hasAtom(a) || v.hasAtom(a) {
			delete(st.heap, k)
		}
	}
	delete(st.zero, a)
	delete(st.esc, a)
}

// ---------------------------------------------------------------- locks

func (st *State) holds(addr *V, write bool) bool {
	for _, l := range st.locks {
		if l.addr == addr && (!write || l.mode == 'W') {
			return true
		}
	}
	return false
}
