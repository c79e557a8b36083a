package main

// Instructions and calls.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) liveAfter(fi *fnInfo, b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range fi.liveIn[s] {
			live[v] = true
		}
		for _, ins := range s.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range s.Preds {
				if p == b {
					live[ph.Edges[k]] = true
				}
			}
		}
	}
	for j := len(b.Instrs) - 1; j > i; j-- {
		ins := b.Instrs[j]
		if v, ok := ins.(ssa.Value); ok {
			delete(live, v)
		}
		var ops [16]*ssa.Value
		for _, op := range ins.Operands(ops[:0]) {
			if *op != nil {
				live[*op] = true
			}
		}
	}
	return live
}

// execInstr executes a non-control instruction; several states mean a fork
func (e *Eng) execInstr(fn *ssa.Function, ins ssa.Instruction, st *State, ctx *Ctx) []*State {
	one := []*State{st}
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := e.freshObj(st, x.Type(), objSite{instr: x, ctx: ctx})
		st.zero[o] = true
		st.env[x] = o
	case *ssa.BinOp:
		a, b := e.val(st, x.X), e.val(st, x.Y)
		if (x.Op == token.QUO || x.Op == token.REM) && isInteger(x.Type()) {
			e.event(st, &Event{Kind: EvDiv, Instr: x, Pos: x.Pos(), In: fn, Val: b, Ctx: ctx})
		}
		st.env[x] = e.binop(st, x.Op, a, b, x.X.Type(), x.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := e.val(st, x.X)
			e.deref(st, x, fn, a, ctx)
			if st.dead {
				return nil
			}
			t := x.Type()
			v := e.load(st, a, t)
			ev := &Event{Kind: EvLoad, Instr: x, Pos: x.Pos(), In: fn, Addr: a, Val: v, Ctx: ctx, Type: t}
			e.event(st, ev)
			st.env[x] = v
			if e.rule.Split != nil && !st.dead && isBoolean(t) && e.truth(st, v) < 0 && e.rule.Split(addrField(a)) {
				var out []*State
				for i, s := range []*State{st.clone(), st} {
					if e.assume(s, v, i == 0) {
						if e.rule.OnFork != nil {
							e.rule.OnFork(e, s, v, i == 0)
						}
						out = append(out, s)
					}
				}
				return out
			}
		case token.ARROW:
			ch := e.val(st, x.X)
			return e.recv(st, x, fn, ch, x.CommaOk, ctx, true)
		case token.NOT:
			st.env[x] = e.mkNot(e.val(st, x.X))
		case token.SUB:
			a := e.val(st, x.X)
			if isInteger(x.Type()) {
				st.env[x] = e.in.scale(a, -1)
			} else {
				st.env[x] = e.in.Op("neg", x.Type(), a)
			}
		case token.XOR:
			a := e.val(st, x.X)
			if n, ok := a.intVal(); ok {
				if lo, hi, ok := intRange(x.Type()); ok && lo == 0 && hi < maxI {
					st.env[x] = e.in.Int(^n&hi, nil)
				} else {
					st.env[x] = e.in.Int(^n, nil)
				}
			} else {
				st.env[x] = e.in.Op("compl", x.Type(), a)
			}
		}
	case *ssa.Store:
		a, v := e.val(st, x.Addr), e.val(st, x.Val)
		e.deref(st, x, fn, a, ctx)
		if st.dead {
			return nil
		}
		e.event(st, &Event{Kind: EvStore, Instr: x, Pos: x.Pos(), In: fn, Addr: a, Val: v, Ctx: ctx, Type: x.Val.Type()})
		e.store(st, a, v, x.Val.Type())
	case *ssa.FieldAddr:
		b := e.val(st, x.X)
		if b.kind == KNil || b.kind == KSym {
			e.deref(st, x, fn, b, ctx)
			if st.dead {
				return nil
			}
		}
		st.env[x] = e.in.FieldAddr(b, x.Field, derefStruct(x.X.Type()))
	case *ssa.Field:
		st.env[x] = e.fieldOf(st, e.val(st, x.X), x.Field, x.X.Type().Underlying().(*types.Struct))
	case *ssa.IndexAddr:
		b, i := e.val(st, x.X), e.val(st, x.Index)
		var ln *V
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer:
			e.deref(st, x, fn, b, ctx)
			if ar, ok := u.Elem().Underlying().(*types.Array); ok {
				ln = e.in.Int(ar.Len(), nil)
			}
		default:
			ln = e.lenOf(st, b, x.X.Type())
		}
		e.event(st, &Event{Kind: EvIndex, Instr: x, Pos: x.Pos(), In: fn, Addr: b, Key: i, Val: ln, Ctx: ctx})
		if !e.boundsFact(st, i, ln) {
			return nil
		}
		st.env[x] = e.elemAddr(b, i, x.Type())
	case *ssa.Index:
		b, i := e.val(st, x.X), e.val(st, x.Index)
		ln := e.lenOf(st, b, x.X.Type())
		e.event(st, &Event{Kind: EvIndex, Instr: x, Pos: x.Pos(), In: fn, Addr: b, Key: i, Val: ln, Ctx: ctx})
		if !e.boundsFact(st, i, ln) {
			return nil
		}
		st.env[x] = e.indexVal(b, i, x.Type())
	case *ssa.Slice:
		return e.sliceInstr(st, x, fn, ctx)
	case *ssa.Lookup:
		return e.lookup(st, x, fn, ctx)
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		e.event(st, &Event{Kind: EvMapUpdate, Instr: x, Pos: x.Pos(), In: fn, Addr: m, Key: k, Val: v, Ctx: ctx, Hit: e.knownEnt(st, m, k)})
		e.killEnts(st, m, k)
		st.heap[e.mapent(m, k)] = v
		if e.shared(st, rootBase(m)) {
			e.escape(st, v)
			e.escape(st, k)
		}
	case *ssa.MakeMap:
		o := e.freshObj(st, x.Type(), objSite{instr: x, ctx: ctx})
		st.env[x] = o
	case *ssa.MakeChan:
		o := e.freshObj(st, x.Type(), objSite{instr: x, ctx: ctx})
		sz := e.val(st, x.Size)
		st.heap[e.in.Op("chancap", tInt, o)] = sz
		e.event(st, &Event{Kind: EvMakeChan, Instr: x, Pos: x.Pos(), In: fn, Addr: o, Val: sz, Ctx: ctx})
		st.env[x] = o
	case *ssa.MakeSlice:
		l := e.val(st, x.Len)
		c := e.val(st, x.Cap)
		e.event(st, &Event{Kind: EvMakeSlice, Instr: x, Pos: x.Pos(), In: fn, Val: l, Key: c, Ctx: ctx})
		o := e.freshObj(st, x.Type(), objSite{instr: x, ctx: ctx})
		st.zero[o] = true
		st.env[x] = e.mkSlice(o, e.in.Int(0, nil), l, x.Type())
	case *ssa.MakeClosure:
		var b []*V
		for _, v := range x.Bindings {
			b = append(b, e.val(st, v))
		}
		st.env[x] = e.in.Func(x.Fn.(*ssa.Function), b...)
	case *ssa.MakeInterface:
		st.env[x] = e.in.Iface(x.X.Type(), e.val(st, x.X))
	case *ssa.ChangeInterface:
		st.env[x] = e.val(st, x.X)
	case *ssa.ChangeType:
		st.env[x] = e.val(st, x.X)
	case *ssa.Convert:
		st.env[x] = e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		st.env[x] = e.in.Op("conv", x.Type(), e.val(st, x.X))
	case *ssa.SliceToArrayPointer:
		st.env[x] = e.in.Op("toarray", x.Type(), e.val(st, x.X))
	case *ssa.TypeAssert:
		return e.typeAssert(st, x, fn, ctx)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.kind == KTuple && x.Index < len(t.args) {
			st.env[x] = t.args[x.Index]
		} else {
			st.env[x] = e.in.OpI("extract", x.Index, x.Type(), t)
		}
	case *ssa.Send:
		ch, v := e.val(st, x.Chan), e.val(st, x.X)
		e.event(st, &Event{Kind: EvSend, Instr: x, Pos: x.Pos(), In: fn, Addr: ch, Val: v, Block: true, Ctx: ctx})
		e.escape(st, v)
		e.invalidate(st, false)
	case *ssa.Select:
		return e.selectInstr(st, x, fn, ctx)
	case *ssa.Range:
		m := e.val(st, x.X)
		e.event(st, &Event{Kind: EvRange, Instr: x, Pos: x.Pos(), In: fn, Addr: m, Ctx: ctx})
		st.env[x] = e.in.Op("range", nil, m)
	case *ssa.Next:
		it := e.val(st, x.Iter)
		if it.kind == KOp && it.op == "range" && !x.IsString {
			e.event(st, &Event{Kind: EvRange, Instr: x, Pos: x.Pos(), In: fn, Addr: it.args[0], Ctx: ctx})
		}
		a := st
		b := st.clone()
		tt := x.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		if b1, ok := kt.(*types.Basic); ok && b1.Kind() == types.Invalid {
			kt = it.args[0].typ
			if it.args[0].typ != nil {
				if mt, ok := it.args[0].typ.Underlying().(*types.Map); ok {
					kt = mt.Key()
				}
			}
		}
		if b1, ok := vt.(*types.Basic); ok && b1.Kind() == types.Invalid {
			if it.args[0].typ != nil {
				if mt, ok := it.args[0].typ.Underlying().(*types.Map); ok {
					vt = mt.Elem()
				}
			}
		}
		k := e.freshA(a, "key", kt, symKey{instr: x, ctx: ctx, tag: "k"})
		name := "elem"
		if e.p.mapElemNeverNil(it.args[0]) {
			name = "!elem"
		}
		v := e.freshA(a, name, vt, symKey{instr: x, ctx: ctx, tag: "v"})
		a.env[x] = e.in.Tuple(e.in.Bool(true), k, v)
		if !x.IsString && len(it.args) > 0 {
			a.heap[e.mapent(it.args[0], k)] = v
			e.event(a, &Event{Kind: EvLookup, Instr: x, Pos: x.Pos(), In: fn, Addr: it.args[0], Key: k, Val: v, Hit: 1, Ctx: ctx})
		}
		b.env[x] = e.in.Tuple(e.in.Bool(false), e.in.Int(0, nil), e.in.Nil())
		return []*State{a, b}
	default:
		e.undecided(ins.Pos(), "instruction %T not handled", ins)
	}
	return one
}

func (e *Eng) deref(st *State, ins ssa.Instruction, fn *ssa.Function, a *V, ctx *Ctx) {
	if a.kind == KObj || a.kind == KGlobal || a.kind == KField || a.kind == KIndex {
		return
	}
	e.event(st, &Event{Kind: EvDeref, Instr: ins, Pos: ins.Pos(), In: fn, Addr: a, Ctx: ctx})
	if !e.assume(st, e.mkEq(a, e.in.Nil()), false) {
		st.dead = true
	}
}

func (e *Eng) boundsFact(st *State, i, ln *V) bool {
	if ln == nil {
		return true
	}
	return st.setBnd(e, i, iv{0, maxI}) && st.setBnd(e, e.in.sub(i, ln), iv{minI, -1})
}

// ---------------------------------------------------------------- slices

// Slices are Op("slice", base, lo, len); base is an array object or an unknown
// slice value.
func (e *Eng) mkSlice(base, lo, ln *V, t types.Type) *V {
	if base.kind == KSym {
		if n, ok := lo.intVal(); ok && n == 0 && ln.kind == KOp && ln.op == "len" && ln.args[0] == base {
			return base
		}
	}
	return e.in.mk(V{kind: KOp, op: "slice", args: []*V{base, lo, ln}, typ: nil})
}

func (e *Eng) lenOf(st *State, v *V, t types.Type) *V {
	if t != nil {
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return e.in.Int(a.Len(), nil)
		}
	}
	if s, ok := v.strVal(); ok {
		return e.in.Int(int64(len(s)), nil)
	}
	switch v.kind {
	case KNil:
		return e.in.Int(0, nil)
	case KOp:
		switch v.op {
		case "slice":
			return v.args[2]
		case "append":
			acc := e.lenOf(st, v.args[0], nil)
			for _, a := range v.args[1:] {
				acc = e.in.add(acc, e.lenOf(st, a, nil))
			}
			return acc
		case "sum":
			return v.args[1]
		case "putle", "putbe":
			return e.in.Int(int64(v.idx), nil)
		case "elems":
			return v.args[0]
		case "lit":
			return e.in.Int(int64(len(v.args)), nil)
		case "byte":
			return e.in.Int(1, nil)
		case "aead":
			return e.in.addC(e.lenOf(st, v.args[2], nil), 16)
		case "zeros":
			return v.args[0]
		case "enc":
			if i := v.args[1]; i.kind == KIface {
				if n := fixedSize(i.typ); n > 0 {
					return e.in.Int(n, nil)
				}
				if _, ok := i.typ.Underlying().(*types.Slice); ok {
					return e.lenOf(st, i.args[0], nil)
				}
			}
		case "bytes":
			acc := e.in.Int(0, nil)
			for _, a := range v.args {
				acc = e.in.add(acc, e.lenOf(st, a, nil))
			}
			return acc
		case "conv", "bytes2str", "str2bytes":
			return e.lenOf(st, v.args[0], nil)
		case "concat":
			return e.in.add(e.lenOf(st, v.args[0], nil), e.lenOf(st, v.args[1], nil))
		}
	}
	return e.in.mk(V{kind: KOp, op: "len", args: []*V{v}, typ: tInt})
}

func (e *Eng) elemAddr(b, i *V, t types.Type) *V {
	if b.kind == KOp && b.op == "slice" {
		return e.in.Index(b.args[0], e.in.add(b.args[1], i), t)
	}
	return e.in.Index(b, i, t)
}

func (e *Eng) indexVal(b, i *V, t types.Type) *V {
	if s, ok := b.strVal(); ok {
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(s) {
			return e.in.Int(int64(s[n]), nil)
		}
	}
	return e.in.Op("index", t, b, i)
}

func (e *Eng) sliceInstr(st *State, x *ssa.Slice, fn *ssa.Function, ctx *Ctx) []*State {
	b := e.val(st, x.X)
	isPtr := false
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		isPtr = true
		e.deref(st, x, fn, b, ctx)
	}
	full := e.lenOf(st, b, x.X.Type())
	lo := e.in.Int(0, nil)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	hi := full
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	e.event(st, &Event{Kind: EvSlice, Instr: x, Pos: x.Pos(), In: fn, Addr: b, Key: lo, Val: hi, Res: full, Ctx: ctx, Hit: b2i(isPtr)})
	if x.Low != nil || x.High != nil {
		if !st.setBnd(e, lo, iv{0, maxI}) || !st.setBnd(e, e.in.sub(hi, lo), iv{0, maxI}) {
			return nil
		}
	}
	if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		v := e.val(st, x.X)
		if x.Low == nil && x.High == nil {
			st.env[x] = v
		} else {
			st.env[x] = e.in.Op("substr", x.Type(), v, lo, hi)
		}
		return []*State{st}
	}
	ln := e.in.sub(hi, lo)
	var r *V
	if b.kind == KNil {
		r = b
	} else if b.kind == KOp && b.op == "slice" {
		r = e.mkSlice(b.args[0], e.in.add(b.args[1], lo), ln, x.Type())
	} else if isPtr {
		r = e.mkSlice(b, lo, ln, x.Type())
	} else if lo == e.in.Int(0, nil) && hi == full {
		r = b
	} else {
		r = e.mkSlice(b, lo, ln, x.Type())
	}
	st.env[x] = r
	return []*State{st}
}

// ---------------------------------------------------------------- maps

func (e *Eng) mapent(m, k *V) *V { return e.in.mk(V{kind: KOp, op: "mapent", args: []*V{m, k}}) }

var absentOp = "absent"

func isAbsent(v *V) bool { return v.kind == KOp && v.op == absentOp }

// mapStable: nobody else changes the entries of the map now
func (e *Eng) mapStable(st *State, m *V, cb bool) bool {
	if m.kind == KObj && !st.esc[m] {
		return true
	}
	if m.typ == nil {
		return false
	}
	var ks []string
	if f := mapField(m); f != nil {
		ks = []string{"F:" + fieldKey(f), "X:" + m.typ.String()}
	} else {
		ks = []string{"T:" + m.typ.String()}
	}
	for _, k := range ks {
		w := e.p.mapWr[k]
		if len(w) == 0 {
			continue
		}
		if len(w) == 1 && w["listener"] && !cb && e.root != nil && e.p.listenerTask(e.root) {
			continue
		}
		return false
	}
	return true
}

// mapField is the field a map value was loaded from
func mapField(m *V) *types.Var {
	if m.kind == KSym && len(m.args) > 0 {
		return fieldVar(m.args[0])
	}
	return nil
}

func (e *Eng) knownEnt(st *State, m, k *V) int {
	v, ok := st.heap[e.mapent(m, k)]
	if !ok {
		return -1
	}
	if v.kind == KOp && v.op == absentOp {
		return 0
	}
	return 1
}

func (e *Eng) killEnts(st *State, m, k *V) {
	for a := range st.heap {
		if a.kind == KOp && a.op == "mapent" && a.args[1] != k {
			if a.args[0] != m {
				// another map value: same type may alias
				if a.args[0].typ == nil || m.typ == nil || !types.Identical(a.args[0].typ.Underlying(), m.typ.Underlying()) {
					continue
				}
				if a.args[0].kind == KObj && m.kind == KObj {
					continue
				}
			}
			if e.truth(st, e.mkEq(a.args[1], k)) == 0 {
				continue
			}
			delete(st.heap, a)
		}
	}
}

func (e *Eng) lookup(st *State, x *ssa.Lookup, fn *ssa.Function, ctx *Ctx) []*State {
	m, k := e.val(st, x.X), e.val(st, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap { // string index
		ln := e.lenOf(st, m, x.X.Type())
		e.event(st, &Event{Kind: EvIndex, Instr: x, Pos: x.Pos(), In: fn, Addr: m, Key: k, Val: ln, Ctx: ctx})
		if !e.boundsFact(st, k, ln) {
			return nil
		}
		st.env[x] = e.indexVal(m, k, x.Type())
		return []*State{st}
	}
	set := func(s *State, v *V, ok bool) {
		if x.CommaOk {
			s.env[x] = e.in.Tuple(v, e.in.Bool(ok))
		} else {
			s.env[x] = v
		}
		h := 0
		if ok {
			h = 1
		}
		e.event(s, &Event{Kind: EvLookup, Instr: x, Pos: x.Pos(), In: fn, Addr: m, Key: k, Val: v, Hit: h, Ctx: ctx})
	}
	ent := e.mapent(m, k)
	if v, ok := st.heap[ent]; ok {
		if v.kind == KOp && v.op == absentOp {
			set(st, e.zeroVal(mt.Elem()), false)
		} else {
			set(st, v, true)
		}
		return []*State{st}
	}
	a, b := st, st.clone()
	name := "ent"
	if e.p.mapElemNeverNil(m) {
		name = "!ent"
	}
	v := e.freshA(a, name, mt.Elem(), symKey{instr: x, ctx: ctx, tag: "lk"}, m, k)
	a.heap[ent] = v
	a.note(x.Pos(), "key present in map")
	set(a, v, true)
	b.heap[ent] = e.in.Op(absentOp, nil)
	b.note(x.Pos(), "key absent from map")
	set(b, e.zeroVal(mt.Elem()), false)
	return []*State{a, b}
}

// ---------------------------------------------------------------- channels

func (e *Eng) recv(st *State, x *ssa.UnOp, fn *ssa.Function, ch *V, commaOk bool, ctx *Ctx, block bool) []*State {
	ct := x.X.Type().Underlying().(*types.Chan)
	e.invalidate(st, false)
	v := e.recvVal(st, x, ct.Elem(), ctx, ch, 0)
	var res []*State
	if commaOk {
		ok := e.fresh(st, "ok", tBool, symKey{instr: x, ctx: ctx, tag: "ok"})
		st.env[x] = e.in.Tuple(v, ok)
		e.event(st, &Event{Kind: EvRecv, Instr: x, Pos: x.Pos(), In: fn, Addr: ch, Val: v, Block: block, Ok: ok, Ctx: ctx})
	} else {
		st.env[x] = v
		e.event(st, &Event{Kind: EvRecv, Instr: x, Pos: x.Pos(), In: fn, Addr: ch, Val: v, Block: block, Ctx: ctx})
	}
	return append(res, st)
}

func (e *Eng) recvVal(st *State, key interface{}, t types.Type, ctx *Ctx, ch *V, i int) *V {
	name := "recv"
	if e.p.chanElemNeverNil(t) {
		name = "!recv"
	}
	return e.freshA(st, name, t, symKey{instr: key, ctx: ctx, tag: fmt.Sprint("rv", i)})
}

func (e *Eng) selectInstr(st *State, x *ssa.Select, fn *ssa.Function, ctx *Ctx) []*State {
	var out []*State
	tt := x.Type().(*types.Tuple)
	var chans []*V
	for _, s := range x.States {
		chans = append(chans, e.val(st, s.Chan))
	}
	mkRes := func(s *State, idx int64, ok *V, recvIdx int, rv *V) {
		vals := []*V{e.in.Int(idx, nil), ok}
		for i := 2; i < tt.Len(); i++ {
			if i-2 == recvIdx && rv != nil {
				vals = append(vals, rv)
			} else {
				vals = append(vals, e.zeroVal(tt.At(i).Type()))
			}
		}
		s.env[x] = e.in.Tuple(vals...)
	}
	ri := 0
	for i, sc := range x.States {
		s := st.clone()
		ch := chans[i]
		if e.isNil(st, ch) == 1 {
			if sc.Dir == types.RecvOnly {
				ri++
			}
			continue
		}
		s.note(sc.Pos, fmt.Sprintf("select case %d", i))
		if sc.Dir == types.SendOnly {
			v := e.val(s, sc.Send)
			e.event(s, &Event{Kind: EvSend, Instr: x, Pos: sc.Pos, In: fn, Addr: ch, Val: v, Block: x.Blocking, Ctx: ctx, Alts: chans, Default: !x.Blocking})
			e.escape(s, v)
			e.invalidate(s, false)
			mkRes(s, int64(i), e.in.Bool(false), -1, nil)
		} else {
			e.invalidate(s, false)
			ct := sc.Chan.Type().Underlying().(*types.Chan)
			rv := e.recvVal(s, x, ct.Elem(), ctx, ch, i)
			ok := e.fresh(s, "ok", tBool, symKey{instr: x, ctx: ctx, tag: fmt.Sprint("sok", i)})
			e.event(s, &Event{Kind: EvRecv, Instr: x, Pos: sc.Pos, In: fn, Addr: ch, Val: rv, Block: x.Blocking, Ok: ok, Ctx: ctx, Alts: chans, Default: !x.Blocking})
			mkRes(s, int64(i), ok, ri, rv)
			ri++
		}
		out = append(out, s)
	}
	if !x.Blocking {
		s := st.clone()
		s.note(x.Pos(), "select default")
		e.event(s, &Event{Kind: EvDefault, Instr: x, Pos: x.Pos(), In: fn, Ctx: ctx, Alts: chans, Default: true})
		mkRes(s, -1, e.in.Bool(false), -1, nil)
		out = append(out, s)
	}
	return out
}

// ---------------------------------------------------------------- operators

func (e *Eng) binop(st *State, op token.Token, a, b *V, xt, rt types.Type) *V {
	in := e.in
	switch op {
	case token.EQL:
		return e.cmpEq(st, a, b)
	case token.NEQ:
		return e.mkNot(e.cmpEq(st, a, b))
	}
	if isInteger(xt) {
		switch op {
		case token.LSS:
			return e.mkLt(a, b)
		case token.GTR:
			return e.mkLt(b, a)
		case token.LEQ:
			return e.mkNot(e.mkLt(b, a))
		case token.GEQ:
			return e.mkNot(e.mkLt(a, b))
		}
		if ca, ok := a.aux.(constant.Value); ok && a.kind == KConst {
			if cb, ok := b.aux.(constant.Value); ok && b.kind == KConst {
				if r := foldInt(op, ca, cb, xt); r != nil {
					return in.Const(r)
				}
			}
		}
		switch op {
		case token.ADD:
			return e.wrapLin(st, in.lin(a, 1, b, 1, rt), rt)
		case token.SUB:
			return e.wrapLin(st, in.lin(a, 1, b, -1, rt), rt)
		case token.MUL:
			if n, ok := b.intVal(); ok {
				return e.wrapLin(st, in.scale(a, n), rt)
			}
			if n, ok := a.intVal(); ok {
				return e.wrapLin(st, in.scale(b, n), rt)
			}
			if a.id > b.id {
				a, b = b, a
			}
			return in.Op("mul", rt, a, b)
		case token.QUO:
			return in.Op("quo", rt, a, b)
		case token.REM:
			if n, ok := b.intVal(); ok && n > 0 {
				if r := e.bounds(st, a); r.lo >= 0 && r.hi < n {
					return a
				}
			}
			r := in.Op("rem", rt, a, b)
			if e.bounds(st, a).lo >= 0 && e.bounds(st, b).lo > 0 {
				st.setBnd(e, in.sub(r, b), iv{minI, -1})
				st.setBnd(e, r, iv{0, maxI})
			}
			return r
		case token.AND:
			if a.kind == KConst {
				a, b = b, a
			}
			if n, ok := b.intVal(); ok {
				if n == 0 {
					return in.Int(0, nil)
				}
				if r := e.bounds(st, a); n > 0 && n&(n+1) == 0 && r.lo >= 0 && r.hi <= n {
					return a
				}
			} else if a.id > b.id {
				a, b = b, a
			}
			return in.Op("and", rt, a, b)
		case token.OR, token.XOR:
			if a.kind == KConst || b.kind != KConst && a.id > b.id {
				a, b = b, a
			}
			if n, ok := b.intVal(); ok && n == 0 {
				return a
			}
			if op == token.OR {
				return in.Op("or", rt, a, b)
			}
			return in.Op("xor", rt, a, b)
		case token.AND_NOT:
			if n, ok := a.intVal(); ok && n == 0 {
				return a
			}
			// (x | c) &^ c = x &^ c
			if a.kind == KOp && a.op == "or" && a.args[1] == b {
				return e.binop(st, op, a.args[0], b, xt, rt)
			}
			return in.Op("andnot", rt, a, b)
		case token.SHL:
			return in.Op("shl", rt, a, b)
		case token.SHR:
			return in.Op("shr", rt, a, b)
		}
	}
	if a.kind == KConst && b.kind == KConst {
		ca, cb := a.aux.(constant.Value), b.aux.(constant.Value)
		switch op {
		case token.ADD:
			if ca.Kind() == cb.Kind() {
				return in.Const(constant.BinaryOp(ca, op, cb))
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if ca.Kind() == cb.Kind() {
				return in.Bool(constant.Compare(ca, op, cb))
			}
		}
	}
	switch op {
	case token.ADD:
		if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return in.Op("concat", rt, a, b)
		}
		return in.Op("fadd", rt, a, b)
	case token.LSS:
		return in.Op("slt", tBool, a, b)
	case token.GTR:
		return in.Op("slt", tBool, b, a)
	case token.LEQ:
		return e.mkNot(in.Op("slt", tBool, b, a))
	case token.GEQ:
		return e.mkNot(in.Op("slt", tBool, a, b))
	}
	return in.Op("bin"+op.String(), rt, a, b)
}

// wrapLin: with exact arithmetic, a result that may not fit its type is wrapped
func (e *Eng) wrapLin(st *State, v *V, t types.Type) *V {
	if !e.rule.Exact {
		return v
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	b := e.bounds(st, v)
	if b.lo >= lo && b.hi <= hi {
		return v
	}
	return e.in.Op("wrap", t, v)
}

func (e *Eng) cmpEq(st *State, a, b *V) *V {
	if a.kind == KConst && a != b {
		a, b = b, a
	}
	if v, ok := b.boolVal(); ok {
		if v {
			return a
		}
		return e.mkNot(a)
	}
	// interface holding a value compared with a plain value
	if a.kind == KIface && b.kind == KIface && types.Identical(a.typ, b.typ) {
		return e.cmpEq(st, a.args[0], b.args[0])
	}
	if a.kind == KStruct && b.kind == KStruct && len(a.args) == len(b.args) {
		r := e.in.Bool(true)
		for i := range a.args {
			c := e.cmpEq(st, a.args[i], b.args[i])
			if t := e.truth(st, c); t == 1 {
				continue
			} else if t == 0 {
				return e.in.Bool(false)
			}
			r = e.in.Op("and&&", tBool, r, c)
		}
		return r
	}
	return e.mkEq(a, b)
}

func foldInt(op token.Token, a, b constant.Value, t types.Type) constant.Value {
	if a.Kind() != constant.Int || b.Kind() != constant.Int {
		return nil
	}
	var r constant.Value
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b)
		if !ok || n > 200 {
			return nil
		}
		r = constant.Shift(a, op, uint(n))
	case token.QUO, token.REM:
		if constant.Sign(b) == 0 {
			return nil
		}
		if op == token.QUO {
			op = token.QUO_ASSIGN
		}
		r = constant.BinaryOp(a, op, b)
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		r = constant.BinaryOp(a, op, b)
	default:
		return nil
	}
	return wrapConst(r, t)
}

func bits(t types.Type) (n uint, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, true
	case types.Int8:
		return 8, false
	case types.Uint16:
		return 16, true
	case types.Int16:
		return 16, false
	case types.Uint32:
		return 32, true
	case types.Int32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	case types.Int64, types.Int:
		return 64, false
	}
	return 0, false
}

func wrapConst(r constant.Value, t types.Type) constant.Value {
	n, uns := bits(t)
	if n == 0 || r.Kind() != constant.Int {
		return r
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, n)
	mask := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	w := constant.BinaryOp(r, token.AND, mask)
	if !uns {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, n-1)
		if constant.Compare(w, token.GEQ, half) {
			w = constant.BinaryOp(w, token.SUB, mod)
		}
	}
	return w
}

func (e *Eng) convert(st *State, v *V, from, to types.Type) *V {
	if isInteger(from) && isInteger(to) {
		if v.kind == KConst {
			return e.in.Const(wrapConst(v.aux.(constant.Value), to))
		}
		lo, hi, _ := intRange(to)
		if v.kind == KOp && v.op == "wrap" {
			n, _ := bits(to)
			m, _ := bits(v.typ)
			if n <= m {
				x := v.args[0]
				if b := e.bounds(st, x); b.lo >= lo && b.hi <= hi {
					return x
				}
				return e.in.Op("wrap", to, x)
			}
		}
		b := e.bounds(st, v)
		if b.lo >= lo && (b.hi <= hi || hi == maxI) {
			return v
		}
		n, _ := bits(to)
		m, _ := bits(from)
		if lo == minI && (m < n || n == 64) { // to int: value preserving for what fits
			return v
		}
		if v.kind == KOp && v.op == "conv" {
			// narrowing of a narrowing
			if k, _ := bits(v.typ); k >= n {
				return e.convert(st, v.args[0], v.args[0].typOr(from), to)
			}
		}
		return e.in.Op("conv", to, v)
	}
	fs, ts := isStr(from), isStr(to)
	if fs && !ts {
		if v.kind == KOp && v.op == "bytes2str" {
			return v.args[0]
		}
		return e.in.Op("str2bytes", to, v)
	}
	if ts && !fs {
		if v.kind == KOp && v.op == "str2bytes" {
			return v.args[0]
		}
		return e.in.Op("bytes2str", to, v)
	}
	if v.kind == KConst {
		return v
	}
	return e.in.Op("conv", to, v)
}

func (v *V) typOr(t types.Type) types.Type {
	if v.typ != nil {
		return v.typ
	}
	return t
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Eng) typeAssert(st *State, x *ssa.TypeAssert, fn *ssa.Function, ctx *Ctx) []*State {
	v := e.val(st, x.X)
	t := x.AssertedType
	known := -1
	isI := types.IsInterface(t)
	switch v.kind {
	case KNil:
		known = 0
	case KIface:
		if isI {
			known = b2i(types.AssignableTo(v.typ, t))
		} else {
			known = b2i(types.Identical(v.typ, t))
		}
	case KSym:
		// the static type it was loaded or passed with
		if v.typ == nil {
			break
		}
		vi, ok := v.typ.Underlying().(*types.Interface)
		if !ok {
			break
		}
		if !isI && !types.Implements(t, vi) {
			known = 0
		}
		if isI && e.isNil(st, v) == 0 && types.AssignableTo(v.typ, t) {
			known = 1
		}
	}
	cond := e.in.Op("istype", tBool, v, e.in.mk(V{kind: KOp, op: "type", typ: t}))
	if known < 0 {
		if b, ok := st.bools[cond]; ok {
			known = b2i(b)
		} else if !isI {
			// excluded by another concrete type
			for k, b := range st.bools {
				if b && k.kind == KOp && k.op == "istype" && k.args[0] == v && !types.IsInterface(k.args[1].typ) && k.args[1] != cond.args[1] {
					known = 0
				}
			}
		}
	}
	unbox := func(s *State) *V {
		if isI {
			return v
		}
		if v.kind == KIface {
			return v.args[0]
		}
		name := "unbox"
		if e.p.unboxNeverNil(t) {
			name = "!unbox"
		}
		return e.in.mk(V{kind: KSym, op: name, typ: t, args: []*V{v}})
	}
	var out []*State
	if !x.CommaOk {
		e.event(st, &Event{Kind: EvAssert, Instr: x, Pos: x.Pos(), In: fn, Val: v, Hit: known, Type: t, Ctx: ctx})
		if known == 0 {
			return nil
		}
		if known < 0 {
			st.bools[cond] = true
		}
		if e.isNil(st, v) < 0 {
			st.bools[e.mkEq(v, e.in.Nil())] = false
		}
		st.env[x] = unbox(st)
		return []*State{st}
	}
	if known != 0 {
		s := st.clone()
		if known < 0 {
			s.bools[cond] = true
			s.note(x.Pos(), "dynamic type "+t.String())
			if e.isNil(s, v) < 0 {
				s.bools[e.mkEq(v, e.in.Nil())] = false
			}
		}
		res := unbox(s)
		s.env[x] = e.in.Tuple(res, e.in.Bool(true))
		e.event(s, &Event{Kind: EvIs, Instr: x, Pos: x.Pos(), In: fn, Val: v, Hit: 1, Type: t, Res: res, Ctx: ctx})
		out = append(out, s)
	}
	if known != 1 {
		s := st.clone()
		if known < 0 {
			s.bools[cond] = false
		}
		s.env[x] = e.in.Tuple(e.zeroVal(t), e.in.Bool(false))
		e.event(s, &Event{Kind: EvIs, Instr: x, Pos: x.Pos(), In: fn, Val: v, Hit: 0, Type: t, Ctx: ctx})
		out = append(out, s)
	}
	return out
}

// ---------------------------------------------------------------- calls

func (e *Eng) callParts(st *State, c *ssa.CallCommon) (*V, []*V) {
	var args []*V
	if c.IsInvoke() {
		recv := e.val(st, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, e.val(st, a))
		}
		return nil, args
	}
	f := e.val(st, c.Value)
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	return f, args
}

// doCall performs a call (or a deferred call)
func (e *Eng) doCall(ins ssa.CallInstruction, f *V, args []*V, st *State, ctx *Ctx, fn *ssa.Function, fi *fnInfo, b *ssa.BasicBlock, i int) []Outcome {
	c := ins.Common()
	ci := &CallInfo{Instr: ins, Pos: ins.Pos(), In: fn, Fn: f, Args: args, Ctx: ctx, ResT: c.Signature().Results()}
	if c.IsInvoke() {
		ci.Method = c.Method
		ci.Recv = args[0]
		if args[0].kind == KIface {
			if m := e.p.prog.LookupMethod(args[0].typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				ci.Callee = m
				ci.Args = append([]*V{args[0].args[0]}, args[1:]...)
			}
		}
	} else if f.kind == KFunc {
		ci.Callee = f.aux.(*ssa.Function)
	}
	saved := st.env
	savedD := st.defers
	var live map[ssa.Value]bool
	if fi != nil {
		live = e.liveAfter(fi, b, i)
	}
	restore := func(outs []Outcome) []Outcome {
		for k := range outs {
			outs[k].st.env = cp(saved)
			outs[k].st.defers = savedD
		}
		return outs
	}
	if !c.IsInvoke() && f.kind == KOp && len(f.op) > 8 && f.op[:8] == "builtin:" {
		return e.builtin(st, f.op[8:], ci)
	}
	if e.rule.OnCall != nil {
		if outs, ok := e.rule.OnCall(e, st, ci); ok {
			return restore(outs)
		}
	}
	callee := ci.Callee
	if callee != nil && callee.Blocks != nil && e.p.inModule(callee) && (e.rule.Inline == nil || e.rule.Inline(callee)) {
		if ctx.depth > 40 || ctx.has(callee) > 2 {
			e.undecided(ins.Pos(), "recursion of %s not resolved", callee)
			return restore(e.unknownCall(st, ci, true))
		}
		var lv []*V
		for k, v := range saved {
			if live == nil || live[k] {
				lv = append(lv, v)
			}
		}
		for _, d := range savedD {
			lv = append(lv, d.args...)
			if d.fn != nil {
				lv = append(lv, d.fn)
			}
		}
		// the arguments stay live for the events at return
		e.callers = append(e.callers, lv)
		e.event(st, &Event{Kind: EvEnter, Instr: ins, Pos: ins.Pos(), In: fn, Callee: callee, Args: ci.Args, Ctx: ctx})
		var binds []*V
		if f != nil {
			binds = f.args
		}
		outs := e.runFn(callee, ci.Args, binds, st, ctx.kid(ins, callee))
		e.callers = e.callers[:len(e.callers)-1]
		restore(outs)
		for k := range outs {
			if !outs[k].panik {
				var r *V
				if len(outs[k].ret) == 1 {
					r = outs[k].ret[0]
				} else {
					r = e.in.Tuple(outs[k].ret...)
				}
				e.event(outs[k].st, &Event{Kind: EvExit, Instr: ins, Pos: ins.Pos(), In: fn, Callee: callee, Args: ci.Args, Res: r, Ctx: ctx})
			}
		}
		var ok []Outcome
		for _, o := range outs {
			if !o.st.dead {
				ok = append(ok, o)
			}
		}
		return ok
	}
	if callee != nil {
		return restore(e.external(st, ci))
	}
	if ci.Method != nil {
		return restore(e.invoke(st, ci))
	}
	return restore(e.dynCall(st, ci))
}

// dynCall: call of an unknown function value (a user callback)
func (e *Eng) dynCall(st *State, ci *CallInfo) []Outcome {
	e.event(st, &Event{Kind: EvDeref, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Addr: ci.Fn, Ctx: ci.Ctx})
	if !e.assume(st, e.mkEq(ci.Fn, e.in.Nil()), false) {
		return nil
	}
	ev := &Event{Kind: EvDyn, Instr: ci.Instr, Pos: ci.Pos, In: ci.In, Fn: ci.Fn, Args: ci.Args, Ctx: ci.Ctx}
	e.event(st, ev)
	return e.unknownCall(st, ci, true)
}

func (e *Eng) unknownCall(st *State, ci *CallInfo, cb bool) []Outcome {
	for _, a := range ci.Args {
		e.escape(st, a)
	}
	if cb {
		e.invalidate(st, true)
	}
	var ret []*V
	for i := 0; i < ci.ResT.Len(); i++ {
		ret = append(ret, e.freshA(st, "res", ci.ResT.At(i).Type(), symKey{instr: ci.Instr, ctx: ci.Ctx, tag: fmt.Sprint("r", i)}))
	}
	return []Outcome{{st: st, ret: ret}}
}

func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
