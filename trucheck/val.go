package main

// Abstract values: hash-consed terms. Two values are the same pointer exactly
// when they are the same term (global value numbering).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KConst  Kind = iota // constant (bool, string, int, float)
	KNil                // nil of some type
	KFunc               // function or closure (args = bindings)
	KGlobal             // address of a package variable
	KObj                // address of an object allocated during the analysis
	KSym                // unknown value
	KField              // address of a field of the struct at args[0]
	KIndex              // address of an element: args[0] base, args[1] index
	KLin                // integer linear combination
	KOp                 // uninterpreted operation
	KTuple
	KStruct
	KIface // interface holding args[0] of dynamic type typ
)

type V struct {
	id    int32
	kind  Kind
	idx   int
	op    string
	typ   types.Type
	aux   interface{}
	args  []*V
	coef  []int64
	c     int64
	self  []*V
	atoms []*V // sorted distinct KSym/KObj subterms
}

type interner struct {
	tab   map[string]*V
	tids  typeutil.Map
	nt    int
	auxID map[interface{}]int
	all   []*V
	buf   []byte
	ints  map[int64]*V
	tptr  map[types.Type]int
}

func cvInt(c constant.Value) constant.Value {
	if c.Kind() == constant.Int {
		return c
	}
	return constant.MakeInt64(0)
}

func newInterner() *interner {
	return &interner{tab: map[string]*V{}, auxID: map[interface{}]int{}, ints: map[int64]*V{}, tptr: map[types.Type]int{}}
}

func (in *interner) tid(t types.Type) int {
	if t == nil {
		return 0
	}
	if x, ok := in.tptr[t]; ok {
		return x
	}
	if x := in.tids.At(t); x != nil {
		in.tptr[t] = x.(int)
		return x.(int)
	}
	in.nt++
	in.tids.Set(t, in.nt)
	in.tptr[t] = in.nt
	return in.nt
}

func (in *interner) aid(a interface{}) int {
	if a == nil {
		return 0
	}
	if x, ok := in.auxID[a]; ok {
		return x
	}
	in.auxID[a] = len(in.auxID) + 1
	return len(in.auxID)
}

func (in *interner) mk(v V) *V {
	buf := in.buf[:0]
	num := func(n int64) {
		buf = strconv.AppendInt(buf, n, 36)
		buf = append(buf, '|')
	}
	num(int64(v.kind))
	num(int64(v.idx))
	buf = append(buf, v.op...)
	buf = append(buf, '|')
	num(int64(in.tid(v.typ)))
	if v.kind == KConst {
		cv := v.aux.(constant.Value)
		num(int64(cv.Kind()))
		if n, exact := constant.Int64Val(cvInt(cv)); exact && cv.Kind() == constant.Int {
			num(n)
		} else {
			buf = append(buf, cv.ExactString()...)
		}
	} else {
		num(int64(in.aid(v.aux)))
	}
	for i, a := range v.args {
		num(int64(a.id))
		if v.coef != nil {
			num(v.coef[i])
		}
	}
	buf = append(buf, '/')
	num(v.c)
	in.buf = buf
	k := string(buf)
	if x, ok := in.tab[k]; ok {
		return x
	}
	nv := v
	nv.self = nil
	nv.id = int32(len(in.all))
	p := &nv
	set := map[*V]bool{}
	for _, a := range v.args {
		for _, at := range a.atoms {
			set[at] = true
		}
	}
	if v.kind == KSym || v.kind == KObj {
		set[p] = true
	}
	if len(set) > 0 {
		for at := range set {
			p.atoms = append(p.atoms, at)
		}
		sort.Slice(p.atoms, func(i, j int) bool { return p.atoms[i].id < p.atoms[j].id })
	}
	in.all = append(in.all, p)
	in.tab[k] = p
	return p
}

func (v *V) hasAtom(a *V) bool {
	for _, x := range v.atoms {
		if x == a {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- helpers

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

func (in *interner) Int(n int64, t types.Type) *V {
	if t == nil {
		t = tInt
	}
	// The type of integer constants does not matter for value numbering
	if x, ok := in.ints[n]; ok {
		return x
	}
	x := in.mk(V{kind: KConst, aux: constant.MakeInt64(n)})
	in.ints[n] = x
	return x
}
func (in *interner) Bool(b bool) *V { return in.mk(V{kind: KConst, aux: constant.MakeBool(b)}) }
func (in *interner) Str(s string) *V {
	return in.mk(V{kind: KConst, aux: constant.MakeString(s)})
}
func (in *interner) Nil() *V { return in.mk(V{kind: KNil}) }

func (in *interner) Const(cv constant.Value) *V {
	if cv == nil {
		return in.Nil()
	}
	if cv.Kind() == constant.Float {
		if i := constant.ToInt(cv); i.Kind() == constant.Int {
			cv = i
		}
	}
	return in.mk(V{kind: KConst, aux: cv})
}

func (in *interner) Op(op string, t types.Type, args ...*V) *V {
	return in.mk(V{kind: KOp, op: op, typ: t, args: args})
}
func (in *interner) OpI(op string, idx int, t types.Type, args ...*V) *V {
	return in.mk(V{kind: KOp, op: op, idx: idx, typ: t, args: args})
}
func (in *interner) Tuple(args ...*V) *V { return in.mk(V{kind: KTuple, args: args}) }
func (in *interner) Struct(t types.Type, args ...*V) *V {
	return in.mk(V{kind: KStruct, typ: t, args: args})
}
func (in *interner) Field(base *V, i int, t types.Type) *V {
	// t: pointer to field type
	return in.mk(V{kind: KField, idx: i, args: []*V{base}, typ: t})
}
func (in *interner) Index(base, i *V, t types.Type) *V {
	return in.mk(V{kind: KIndex, args: []*V{base, i}, typ: t})
}
func (in *interner) Iface(t types.Type, v *V) *V {
	return in.mk(V{kind: KIface, typ: t, args: []*V{v}})
}
func (in *interner) Func(f *ssa.Function, binds ...*V) *V {
	return in.mk(V{kind: KFunc, aux: f, args: binds, typ: f.Signature})
}

func (v *V) isConst() bool { return v.kind == KConst }
func (v *V) intVal() (int64, bool) {
	if v.kind != KConst {
		return 0, false
	}
	cv := v.aux.(constant.Value)
	if cv.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(cv)
	return n, ok
}
func (v *V) boolVal() (val, ok bool) {
	if v.kind != KConst {
		return false, false
	}
	cv := v.aux.(constant.Value)
	if cv.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(cv), true
}
func (v *V) strVal() (string, bool) {
	if v.kind != KConst {
		return "", false
	}
	cv := v.aux.(constant.Value)
	if cv.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(cv), true
}

// ---------------------------------------------------------------- linear forms

func (in *interner) linParts(v *V) (atoms []*V, coef []int64, c int64, ok bool) {
	if n, isInt := v.intVal(); isInt {
		return nil, nil, n, true
	}
	if v.kind == KLin {
		return v.args, v.coef, v.c, true
	}
	if v.kind == KConst || v.kind == KNil {
		return nil, nil, 0, false
	}
	return v.atomsLin(), oneCoef, 0, true
}

var oneCoef = []int64{1}

// lin builds a*ka + b*kb
func (in *interner) lin(a *V, ka int64, b *V, kb int64, t types.Type) *V {
	aa, ac, acn, ok1 := in.linParts(a)
	ba, bc, bcn, ok2 := in.linParts(b)
	if !ok1 || !ok2 {
		return in.Op("badlin", t, a, b)
	}
	var at []*V
	var co []int64
	i, j := 0, 0
	push := func(x *V, k int64) {
		if k != 0 {
			at = append(at, x)
			co = append(co, k)
		}
	}
	for i < len(aa) || j < len(ba) {
		switch {
		case j >= len(ba) || i < len(aa) && aa[i].id < ba[j].id:
			push(aa[i], ac[i]*ka)
			i++
		case i >= len(aa) || ba[j].id < aa[i].id:
			push(ba[j], bc[j]*kb)
			j++
		default:
			push(aa[i], ac[i]*ka+bc[j]*kb)
			i++
			j++
		}
	}
	return in.linOf(at, co, acn*ka+bcn*kb)
}

// linOf takes sorted atoms
func (in *interner) linOf(at []*V, co []int64, c int64) *V {
	if len(at) == 0 {
		return in.Int(c, nil)
	}
	if len(at) == 1 && co[0] == 1 && c == 0 {
		return at[0]
	}
	return in.mk(V{kind: KLin, args: at, coef: co, c: c})
}

func (in *interner) mkLin(m map[*V]int64, c int64, t types.Type) *V {
	var atoms []*V
	for x, k := range m {
		if k != 0 {
			atoms = append(atoms, x)
		}
	}
	if len(atoms) == 0 {
		return in.Int(c, t)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && m[atoms[0]] == 1 && c == 0 {
		return atoms[0]
	}
	coef := make([]int64, len(atoms))
	for i, x := range atoms {
		coef[i] = m[x]
	}
	return in.mk(V{kind: KLin, args: atoms, coef: coef, c: c})
}

func (in *interner) add(a, b *V) *V         { return in.lin(a, 1, b, 1, tInt) }
func (in *interner) sub(a, b *V) *V         { return in.lin(a, 1, b, -1, tInt) }
func (in *interner) addC(a *V, n int64) *V  { return in.lin(a, 1, in.Int(n, nil), 1, tInt) }
func (in *interner) scale(a *V, n int64) *V { return in.lin(a, n, in.Int(0, nil), 1, tInt) }

// normDiff returns the canonical form of v with its constant stripped:
// v = sign*form + c
func (in *interner) normForm(v *V) (form *V, sign int64, c int64, ok bool) {
	at, co, c, ok := in.linParts(v)
	if !ok || len(at) == 0 {
		return nil, 1, c, ok
	}
	sign = 1
	if co[0] < 0 {
		sign = -1
	}
	if sign == 1 && c == 0 {
		return v, 1, 0, true
	}
	if sign == 1 {
		return in.linOf(at, co, 0), 1, c, true
	}
	nc := make([]int64, len(co))
	for i := range co {
		nc[i] = -co[i]
	}
	return in.linOf(at, nc, 0), sign, c, true
}

// ---------------------------------------------------------------- printing

func (v *V) String() string { return v.str(0) }

func (v *V) str(d int) string {
	if v == nil {
		return "<none>"
	}
	if d > 5 {
		return "..."
	}
	list := func(a []*V) string {
		var s []string
		for _, x := range a {
			s = append(s, x.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch v.kind {
	case KConst:
		return v.aux.(constant.Value).String()
	case KNil:
		return "nil"
	case KFunc:
		return v.aux.(*ssa.Function).Name()
	case KGlobal:
		return "&" + v.aux.(*ssa.Global).Name()
	case KObj:
		s := "obj"
		if x, ok := v.aux.(objSite); ok {
			s = x.name()
		}
		if v.idx > 0 {
			s += fmt.Sprintf("'%d", v.idx)
		}
		return s
	case KSym:
		s := v.op
		if len(v.args) > 0 {
			s += "(" + list(v.args) + ")"
		}
		if v.idx > 0 {
			s += fmt.Sprintf("'%d", v.idx)
		}
		return s
	case KField:
		name := fmt.Sprint(v.idx)
		if f := fieldVar(v); f != nil {
			name = f.Name()
		}
		return v.args[0].str(d+1) + "." + name
	case KIndex:
		return v.args[0].str(d+1) + "[" + v.args[1].str(d+1) + "]"
	case KLin:
		var sb strings.Builder
		for i, a := range v.args {
			if v.coef[i] >= 0 && i > 0 {
				sb.WriteString("+")
			}
			switch v.coef[i] {
			case 1:
			case -1:
				sb.WriteString("-")
			default:
				fmt.Fprintf(&sb, "%d*", v.coef[i])
			}
			sb.WriteString(a.str(d + 1))
		}
		if v.c != 0 {
			fmt.Fprintf(&sb, "%+d", v.c)
		}
		return sb.String()
	case KOp:
		return v.op + "(" + list(v.args) + ")"
	case KTuple:
		return "(" + list(v.args) + ")"
	case KStruct:
		return "{" + list(v.args) + "}"
	case KIface:
		return "iface(" + v.args[0].str(d+1) + ")"
	}
	return "?"
}

// fieldVar returns the struct field a KField address designates.
func fieldVar(v *V) *types.Var {
	if v == nil || v.kind != KField {
		return nil
	}
	if st, ok := v.aux.(*types.Struct); ok && v.idx < st.NumFields() {
		return st.Field(v.idx)
	}
	return nil
}

func derefStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (in *interner) FieldAddr(base *V, i int, st *types.Struct) *V {
	return in.mk(V{kind: KField, idx: i, args: []*V{base}, aux: st, typ: types.NewPointer(st.Field(i).Type())})
}

func isNilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}
	return false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, maxI, true
	case types.Int, types.Int64, types.UntypedInt:
		return minI, maxI, true
	}
	return 0, 0, false
}

const (
	maxI = int64(1<<62 - 1)
	minI = -maxI
)

func posStr(fset *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	pp := fset.Position(p)
	f := pp.Filename
	if strings.HasPrefix(f, repoDir+"/") {
		f = f[len(repoDir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}
