package main

// Path-sensitive interprocedural dataflow over the SSA form. Functions of the
// module are analysed in the calling context (inlined); loops are iterated to a
// fixpoint with widening; equal states are merged.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind int

const (
	EvLoad EvKind = iota
	EvStore
	EvMapUpdate
	EvMapDelete
	EvLookup
	EvSend
	EvRecv
	EvClose
	EvLock
	EvUnlock
	EvCall   // external function or method
	EvInvoke // interface method
	EvDyn    // unknown function value
	EvGo
	EvTimer
	EvPanic
	EvDeref
	EvIndex
	EvSlice
	EvAssert
	EvDiv
	EvCopy
	EvEnter
	EvExit
	EvMakeSlice
	EvMakeChan
	EvRange
	EvDefault // default case of a select, Alts are its channels
	EvIs      // outcome of a comma-ok type assertion: Val, Type, Hit, Res
)

var evNames = []string{"load", "store", "mapupdate", "mapdelete", "lookup", "send", "recv", "close", "lock", "unlock", "call", "invoke", "dyn", "go", "timer", "panic", "deref", "index", "slice", "assert", "div", "copy", "enter", "exit", "makeslice", "makechan", "range", "default", "is"}

// Event is one observable step reported to the running rule
type Event struct {
	Kind    EvKind
	Instr   ssa.Instruction
	Pos     token.Pos
	In      *ssa.Function // function that contains the instruction
	Name    string        // external function or method
	Callee  *ssa.Function
	Fn      *V // called value
	Addr    *V // address, map, channel or lock
	Key     *V
	Val     *V
	Args    []*V
	Res     *V
	Hit     int  // lookup: 1 present, 0 absent, -1 unknown
	Mode    byte // lock mode
	Block   bool // channel operation may block
	Ok      *V
	Type    types.Type
	Alts    []*V // channels of the other cases of the same select
	Ctx     *Ctx
	Default bool // select with default
}

type objSite struct {
	instr ssa.Value
	label string
	ctx   *Ctx
}

func (o objSite) name() string {
	if o.instr != nil {
		return "new@" + o.instr.Name() + ":" + o.instr.Parent().Name()
	}
	return o.label
}

type Ctx struct {
	up    *Ctx
	instr ssa.Instruction
	fn    *ssa.Function
	depth int
	kids  map[ctxKey]*Ctx
}
type ctxKey struct {
	i  ssa.Instruction
	fn *ssa.Function
}

func (c *Ctx) kid(i ssa.Instruction, fn *ssa.Function) *Ctx {
	k := ctxKey{i, fn}
	if x, ok := c.kids[k]; ok {
		return x
	}
	x := &Ctx{up: c, instr: i, fn: fn, depth: c.depth + 1, kids: map[ctxKey]*Ctx{}}
	c.kids[k] = x
	return x
}

func (c *Ctx) has(fn *ssa.Function) int {
	n := 0
	for x := c; x != nil; x = x.up {
		if x.fn == fn {
			n++
		}
	}
	return n
}

func (c *Ctx) chain() string {
	var s []string
	for x := c; x != nil; x = x.up {
		if x.fn != nil {
			s = append([]string{x.fn.Name()}, s...)
		}
	}
	return strings.Join(s, " > ")
}

type Outcome struct {
	st    *State
	ret   []*V
	panik bool
}

// Rule is one property automaton driven by the engine
type Rule struct {
	OnEvent     func(e *Eng, st *State, ev *Event)
	OnCall      func(e *Eng, st *State, c *CallInfo) ([]Outcome, bool)
	OnSpawn     func(e *Eng, st *State, t *Task) bool // accept spawned root
	OnReturn    func(e *Eng, st *State, root *Task, ret []*V)
	OnExit      func(e *Eng, st *State, fn *ssa.Function, ctx *Ctx, ret []*V) // before paths are merged
	OnFork      func(e *Eng, st *State, cond *V, taken bool)
	OnAlloc     func(e *Eng, x *V)
	Faults      func(name string) bool // calls that can fail even if nobody looks at the result
	OnJoin      func(e *Eng, A, B, J *State, a, b, s *V) // s of J stands for a of A and b of B
	Inline      func(fn *ssa.Function) bool              // default: module functions
	Derefs      bool                                     // report EvDeref/EvIndex/EvSlice/...
	NoMerge     bool                                     // keep all paths apart
	Exact       bool                                     // integer arithmetic wraps around
	ShapeConsts bool                                     // keep different constants apart
	Split       func(f *types.Var) bool                  // flags whose value is decided when they are loaded
}

type CallInfo struct {
	Instr  ssa.CallInstruction
	Pos    token.Pos
	In     *ssa.Function
	Callee *ssa.Function
	Fn     *V
	Args   []*V // receiver first
	Method *types.Func
	Recv   *V
	Ctx    *Ctx
	ResT   *types.Tuple
}

type Task struct {
	Name  string
	Fn    *ssa.Function
	Args  []*V
	Binds []*V
	St    *State
	Kind  string // root, go, timer
	Pos   token.Pos
}

type Eng struct {
	in      *interner
	p       *Program
	rule    *Rule
	callers [][]*V
	tasks   []*Task
	seen    map[string]bool
	steps   int
	forks   int
	funcs   map[*ssa.Function]bool
	events  [40]int
	limit   int
	undec   []string
	fins    map[*ssa.Function]*fnInfo
	root    *Task
	maxSt   int
	asZero  bool // fields of fresh objects read as zero although others see them
	ntask   map[*ssa.Function]int
	joins   int
	merges  int
}

func newEng(p *Program, r *Rule) *Eng {
	if p.flags != nil && r.Split == nil {
		r.Split = func(f *types.Var) bool { return f != nil && p.flags[f] }
	}
	return &Eng{in: newInterner(), p: p, rule: r, seen: map[string]bool{}, ntask: map[*ssa.Function]int{}, funcs: map[*ssa.Function]bool{},
		limit: 3000000, fins: map[*ssa.Function]*fnInfo{}, maxSt: 200}
}

func (e *Eng) undecided(pos token.Pos, format string, a ...interface{}) {
	s := posStr(e.p.fset, pos) + ": " + fmt.Sprintf(format, a...)
	for _, x := range e.undec {
		if x == s {
			return
		}
	}
	e.undec = append(e.undec, s)
}

var pushDbg = os.Getenv("PUSH")

type limitErr struct{}

// Run analyses the root function and everything it spawns
func (e *Eng) Run(t *Task) {
	e.ntask = map[*ssa.Function]int{}
	e.push(t)
	for len(e.tasks) > 0 {
		t := e.tasks[0]
		e.tasks = e.tasks[1:]
		e.root = t
		ctx := &Ctx{fn: t.Fn, kids: map[ctxKey]*Ctx{}}
		e.callers = nil
		outs := e.runFn(t.Fn, t.Args, t.Binds, t.St, ctx)
		for _, o := range outs {
			if !o.panik && e.rule.OnReturn != nil {
				e.rule.OnReturn(e, o.st, t, o.ret)
			}
		}
	}
}

func (e *Eng) push(t *Task) bool {
	k := fmt.Sprintf("%p|%s|", t.Fn, t.Kind)
	for _, a := range append(append([]*V{}, t.Args...), t.Binds...) {
		k += fmt.Sprintf("%d,", a.id)
	}
	k += t.St.coreKey()
	if e.seen[k] {
		return false
	}
	e.seen[k] = true
	if pushDbg != "" && t.Fn.Name() == pushDbg {
		fmt.Fprintf(os.Stderr, "PUSH %s\n", k)
		for _, h := range sortedV(t.St.heap) {
			fmt.Fprintf(os.Stderr, "    %v = %v\n", h, t.St.heap[h])
		}
		fmt.Fprintf(os.Stderr, "    bnd %v ne %v bools %v zero %v esc %v\n", t.St.bnd, t.St.ne, t.St.bools, t.St.zero, t.St.esc)
	}
	e.tasks = append(e.tasks, t)
	return true
}

// RootTask makes a task with unknown arguments
func (e *Eng) RootTask(fn *ssa.Function) *Task {
	t := &Task{Name: fn.Name(), Fn: fn, St: newState(), Kind: "root"}
	for _, p := range fn.Params {
		t.Args = append(t.Args, e.Param(fn, p))
	}
	for _, p := range fn.FreeVars {
		t.Binds = append(t.Binds, e.named("!"+p.Name(), p.Type(), p))
	}
	return t
}

func (e *Eng) Param(fn *ssa.Function, p *ssa.Parameter) *V {
	name := p.Name()
	if _, ok := p.Type().Underlying().(*types.Pointer); ok {
		name = "!" + name
	} else if p == firstParam(fn) && fn.Signature.Recv() != nil {
		name = "!" + name
	}
	return e.named(name, p.Type(), p)
}

func firstParam(fn *ssa.Function) *ssa.Parameter {
	if len(fn.Params) > 0 {
		return fn.Params[0]
	}
	return nil
}

func (e *Eng) named(name string, t types.Type, aux interface{}) *V {
	return e.in.mk(V{kind: KSym, op: name, typ: t, aux: aux})
}

type symKey struct {
	instr interface{}
	ctx   *Ctx
	tag   string
}

// fresh makes an unknown value that is not in use in the state
func (e *Eng) fresh(st *State, name string, t types.Type, key symKey) *V {
	return e.freshA(st, name, t, key)
}

func (e *Eng) freshA(st *State, name string, t types.Type, key symKey, args ...*V) *V {
	if t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok && false {
			_ = s
		}
	}
	for k := 0; ; k++ {
		v := V{kind: KSym, op: name, typ: t, aux: key, idx: k, args: args}
		x := e.in.mk(v)
		if !e.inUse(st, x) {
			st.purge(x)
			if e.rule.OnAlloc != nil {
				e.rule.OnAlloc(e, x)
			}
			return x
		}
		if k > 40 {
			st.purge(x)
			if e.rule.OnAlloc != nil {
				e.rule.OnAlloc(e, x)
			}
			return x
		}
	}
}

func (e *Eng) freshObj(st *State, t types.Type, site objSite) *V {
	for k := 0; ; k++ {
		x := e.in.mk(V{kind: KObj, typ: t, aux: site, idx: k})
		if k > 20 || !e.inUse(st, x) {
			st.purge(x)
			if e.rule.OnAlloc != nil {
				e.rule.OnAlloc(e, x)
			}
			return x
		}
	}
}

func (e *Eng) inUse(st *State, a *V) bool {
	for _, v := range st.env {
		if v.hasAtom(a) {
			return true
		}
	}
	for k, v := range st.heap {
		if v.hasAtom(a) {
			return true
		}
		_ = k
	}
	for _, v := range st.mon {
		if v.hasAtom(a) {
			return true
		}
	}
	for _, l := range st.locks {
		if l.addr.hasAtom(a) {
			return true
		}
	}
	for _, d := range st.defers {
		for _, v := range d.args {
			if v.hasAtom(a) {
				return true
			}
		}
		if d.fn != nil && d.fn.hasAtom(a) {
			return true
		}
	}
	for _, c := range e.callers {
		for _, v := range c {
			if v.hasAtom(a) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- function info

type fnInfo struct {
	liveIn   map[*ssa.BasicBlock]map[ssa.Value]bool
	rpo      map[*ssa.BasicBlock]int
	loopHead map[*ssa.BasicBlock]bool
	selfTail map[*ssa.Call]bool
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	if x, ok := e.fins[fn]; ok {
		return x
	}
	fi := &fnInfo{liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, rpo: map[*ssa.BasicBlock]int{}, loopHead: map[*ssa.BasicBlock]bool{}, selfTail: map[*ssa.Call]bool{}}
	e.fins[fn] = fi
	// post order
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	onStack := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onStack[b] = true
		for _, s := range b.Succs {
			if onStack[s] {
				fi.loopHead[s] = true
			}
			if !seen[s] {
				dfs(s)
			}
		}
		onStack[b] = false
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := range order {
		fi.rpo[order[i]] = len(order) - 1 - i
	}
	// liveness
	for _, b := range fn.Blocks {
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for _, b := range order {
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					live[v] = true
				}
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
					if pi >= 0 {
						for i, p := range s.Preds {
							if p == b {
								live[ph.Edges[i]] = true
							}
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			// phis of b are defined on entry
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					delete(live, ph)
				} else {
					break
				}
			}
			if len(live) != len(fi.liveIn[b]) {
				fi.liveIn[b] = live
				changed = true
			} else {
				for v := range live {
					if !fi.liveIn[b][v] {
						fi.liveIn[b] = live
						changed = true
						break
					}
				}
			}
		}
	}
	// self tail calls
	for _, b := range fn.Blocks {
		n := len(b.Instrs)
		if n < 2 {
			continue
		}
		ret, ok := b.Instrs[n-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i := n - 2; i >= 0; i-- {
			c, ok := b.Instrs[i].(*ssa.Call)
			if !ok {
				if _, isx := b.Instrs[i].(*ssa.Extract); isx {
					continue
				}
				if _, isd := b.Instrs[i].(*ssa.DebugRef); isd {
					continue
				}
				break
			}
			if c.Call.StaticCallee() != fn || usesDefer(fn) {
				break
			}
			good := true
			for j, r := range ret.Results {
				if r == ssa.Value(c) {
					continue
				}
				if x, ok := r.(*ssa.Extract); ok && x.Tuple == ssa.Value(c) && x.Index == j {
					continue
				}
				good = false
			}
			if good {
				fi.selfTail[c] = true
				fi.loopHead[fn.Blocks[0]] = true
			}
			break
		}
	}
	return fi
}

func usesDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- interpreter

type workItem struct {
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	st   *State
	seq  int
	args []*V // self tail call: new parameters
}

type headInfo struct {
	keys  map[string]bool
	parts map[string]*partInfo
	n     int
}
type partInfo struct {
	st    *State
	count int
}

func (e *Eng) runFn(fn *ssa.Function, args, binds []*V, st *State, ctx *Ctx) []Outcome {
	e.funcs[fn] = true
	if debugTime {
		fnCalls[fn]++
		if os.Getenv("CALLS") == fn.Name() {
			fmt.Fprintf(os.Stderr, ">> %s steps %d args %v\n", ctx.chain(), e.steps, args)
		}
	}
	if fn.Blocks == nil {
		panic("no body: " + fn.String())
	}
	fi := e.info(fn)
	st.env = map[ssa.Value]*V{}
	st.defers = nil
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[p] = binds[i]
	}
	var work []workItem
	seq := 0
	heads := map[*ssa.BasicBlock]*headInfo{}
	add := func(w workItem) { w.seq = seq; seq++; work = append(work, w) }
	add(workItem{b: fn.Blocks[0], st: st})
	var outs []Outcome
	outKeys := map[string]bool{}
	emit := func(o Outcome) {
		if e.rule.OnExit != nil && !o.panik {
			e.rule.OnExit(e, o.st, fn, ctx, o.ret)
		}
		o.st.env = map[ssa.Value]*V{}
		o.st.defers = nil
		for i, r := range o.ret {
			o.st.env[retKey(i)] = r
		}
		e.gc(o.st, nil)
		k := fmt.Sprint(o.panik) + o.st.key()
		if outKeys[k] {
			return
		}
		outKeys[k] = true
		outs = append(outs, o)
		if debugTime {
			fnOuts[fn]++
		}
	}
	for len(work) > 0 {
		// the block that comes first in reverse post order
		bi := 0
		for i := range work {
			x, y := work[i], work[bi]
			if fi.rpo[x.b] < fi.rpo[y.b] || fi.rpo[x.b] == fi.rpo[y.b] && x.seq < y.seq {
				bi = i
			}
		}
		b := work[bi].b
		var batch, rest []workItem
		for _, w := range work {
			if w.b == b && (!e.rule.NoMerge || len(batch) == 0) {
				batch = append(batch, w)
			} else {
				rest = append(rest, w)
			}
		}
		work = rest
		var sts []*State
		for _, w := range batch {
			st := w.st
			if w.args != nil {
				for i, p := range fn.Params {
					st.env[p] = w.args[i]
				}
			}
			e.enterBlock(fn, fi, b, w.prev, st)
			sts = append(sts, st)
		}
		if !e.rule.NoMerge {
			sts = e.merge(sts, joinLabel{b, ctx, "m"})
		}
		h := heads[b]
		if h == nil {
			h = &headInfo{keys: map[string]bool{}, parts: map[string]*partInfo{}}
			heads[b] = h
		}
		for _, st := range sts {
			k := st.key()
			if h.keys[k] {
				continue
			}
			if fi.loopHead[b] || len(h.keys) >= e.maxSt {
				pk := e.partKey(st)
				pt := h.parts[pk]
				if pt == nil {
					pt = &partInfo{}
					h.parts[pk] = pt
				}
				pt.count++
				if pt.st == nil {
					pt.st = st.clone()
				} else if pt.count > 1 {
					e.joins++
					j := e.join(pt.st, st, joinLabel{b, ctx, pk}, pt.count > 3)
					jk := j.key()
					if h.keys[jk] && jk == pt.st.key() {
						continue
					}
					if pt.count > 60 {
						e.undecided(b.Parent().Pos(), "loop in %s does not stabilise", fn)
						continue
					}
					pt.st = j.clone()
					st = j
					k = jk
					if h.keys[k] {
						continue
					}
				}
			}
			h.keys[k] = true
			st = st.clone()
			e.execBlock(fn, fi, b, 0, st, ctx, func(nb *ssa.BasicBlock, s *State) {
				add(workItem{b: nb, prev: b, st: s})
			}, func(args []*V, s *State) {
				s.env = map[ssa.Value]*V{}
				for i, p := range fn.FreeVars {
					s.env[p] = binds[i]
				}
				add(workItem{b: fn.Blocks[0], st: s, args: args})
			}, emit)
		}
	}
	outs2 := e.mergeOuts(outs, fn, ctx)
	if debugTime && os.Getenv("OUTS") == fn.Name() {
		fmt.Fprintf(os.Stderr, "== %s outs %d -> %d\n", ctx.chain(), len(outs), len(outs2))
		for _, o := range outs2 {
			for i, r := range o.ret {
				o.st.env[retKey(i)] = r
			}
			fmt.Fprintf(os.Stderr, "   %s\n", e.partKey(o.st))
			for _, l := range o.st.locks {
				fmt.Fprintf(os.Stderr, "      held %s %s\n", l.addr, posStr(e.p.fset, l.pos))
			}
			o.st.env = map[ssa.Value]*V{}
		}
	}
	return outs2
}

// enterBlock evaluates the phis and drops dead values
func (e *Eng) enterBlock(fn *ssa.Function, fi *fnInfo, b, prev *ssa.BasicBlock, st *State) {
	if prev != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
				break
			}
		}
		vals := map[ssa.Value]*V{}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			vals[ph] = e.val(st, ph.Edges[pi])
		}
		for k, v := range vals {
			st.env[k] = v
		}
	}
	live := fi.liveIn[b]
	for k := range st.env {
		if live[k] {
			continue
		}
		if ph, ok := k.(*ssa.Phi); ok && ph.Block() == b && e.phiUsed(ph) {
			continue
		}
		delete(st.env, k)
	}
	e.gc(st, nil)
}

func (e *Eng) phiUsed(ph *ssa.Phi) bool { return len(*ph.Referrers()) > 0 }

// partKey tells which states may be merged: the same locks, the same automaton
// state and the same known truth values
func (e *Eng) partKey(st *State) string {
	return st.lockKey() + "|" + st.monKey(true) + "|" + e.shapeKey(st) + "|" + fmt.Sprint(len(st.defers))
}

// merge joins the states that agree on the partition key
func (e *Eng) merge(sts []*State, label joinLabel) []*State {
	if len(sts) < 2 {
		return sts
	}
	var order []string
	groups := map[string]*State{}
	keys := map[string]bool{}
	for _, s := range sts {
		pk := e.partKey(s)
		g, ok := groups[pk]
		if !ok {
			order = append(order, pk)
			groups[pk] = s
			keys[pk+s.key()] = true
			continue
		}
		if k := pk + s.key(); keys[k] {
			continue
		} else {
			keys[k] = true
		}
		l := label
		l.pk += pk
		e.merges++
		groups[pk] = e.join(g, s, l, false)
	}
	var out []*State
	for _, k := range order {
		out = append(out, groups[k])
	}
	return out
}

func (e *Eng) mergeOuts(outs []Outcome, fn *ssa.Function, ctx *Ctx) []Outcome {
	if !e.rule.NoMerge && len(outs) > 1 {
		var res []Outcome
		for _, panik := range []bool{false, true} {
			var sts []*State
			n := 0
			for _, o := range outs {
				if o.panik == panik {
					sts = append(sts, o.st)
					n = len(o.ret)
				}
			}
			for _, s := range e.merge(sts, joinLabel{fn.Blocks[0], ctx, fmt.Sprint("out", panik)}) {
				var ret []*V
				if !panik {
					for i := 0; i < n; i++ {
						ret = append(ret, s.env[retKey(i)])
					}
				}
				res = append(res, Outcome{st: s, ret: ret, panik: panik})
			}
		}
		outs = res
	}
	for i := range outs {
		outs[i].st.env = map[ssa.Value]*V{}
	}
	return outs
}

type retK struct {
	ssa.Value
	i int
}

func (r retK) Name() string     { return fmt.Sprintf("ret%d", r.i) }
func (r retK) Type() types.Type { return nil }
func (r retK) Pos() token.Pos   { return token.NoPos }
func retKey(i int) ssa.Value    { return retK{nil, i} }

// shapeKey keeps states apart that differ in a known truth value, in the
// nil-ness or in the dynamic type of a live value or captured variable.
func (e *Eng) shapeKey(st *State) string {
	var n []string
	for k, v := range st.env {
		if x := e.shape(st, v, k.Type()); x != "" {
			n = append(n, k.Name()+"="+x)
		}
	}
	near := map[*V]bool{}
	for _, v := range st.env {
		for _, a := range v.atoms {
			if a.kind == KObj && !near[a] {
				near[a] = true
				if w, ok := st.heap[a]; ok {
					if x := e.shape(st, w, addrElem(a)); x != "" {
						n = append(n, "h"+strconv.Itoa(int(a.id))+"="+x)
					}
				}
			}
		}
	}
	sort.Strings(n)
	return strings.Join(n, ",")
}

func (e *Eng) shape(st *State, v *V, t types.Type) string {
	switch v.kind {
	case KConst:
		if b, ok := v.boolVal(); ok {
			return fmt.Sprint(b)
		}
		if e.rule.ShapeConsts {
			return fmt.Sprint("c", v.id)
		}
		return ""
	case KNil:
		return "nil"
	case KTuple:
		s := ""
		for _, a := range v.args {
			s += e.shape(st, a, a.typ) + "/"
		}
		return s
	case KFunc:
		return fmt.Sprint("f", e.in.aid(v.aux))
	case KIface:
		return fmt.Sprint("i", e.in.tid(v.typ))
	case KObj, KGlobal, KField, KIndex:
		return "nn"
	}
	if v.typ != nil {
		t = v.typ
	}
	if t == nil {
		return ""
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			switch e.truth(st, v) {
			case 1:
				return "true"
			case 0:
				return "false"
			}
		}
		return ""
	}
	if nilTracked(t) {
		switch e.isNil(st, v) {
		case 1:
			return "nil"
		case 0:
			return "nn"
		}
	}
	return ""
}

// execBlock runs instructions from index i to the end of the block
func (e *Eng) execBlock(fn *ssa.Function, fi *fnInfo, b *ssa.BasicBlock, i int, st *State, ctx *Ctx,
	jump func(*ssa.BasicBlock, *State), tail func([]*V, *State), emit func(Outcome)) {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if debugTime {
			fnSteps[fn]++
		}
		if e.steps > e.limit || overBudget.Load() {
			panic(limitErr{})
		}
		if st.dead {
			return
		}
		ins := b.Instrs[i]
		cont := func(s *State) {
			e.execBlock(fn, fi, b, i+1, s, ctx, jump, tail, emit)
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(st, x.Cond)
			t := e.truth(st, c)
			if t != 0 {
				s := st
				if t < 0 {
					s = st.clone()
				}
				if e.assume(s, c, true) {
					if t < 0 {
						e.forks++
						s.note(x.Cond.Pos(), "taken: "+c.String())
					}
					if e.rule.OnFork != nil {
						e.rule.OnFork(e, s, c, true)
					}
					jump(b.Succs[0], s)
				}
			}
			if t != 1 {
				s := st
				if e.assume(s, c, false) {
					if t < 0 {
						s.note(x.Cond.Pos(), "not taken: "+c.String())
					}
					if e.rule.OnFork != nil {
						e.rule.OnFork(e, s, c, false)
					}
					jump(b.Succs[1], s)
				}
			}
			return
		case *ssa.Jump:
			jump(b.Succs[0], st)
			return
		case *ssa.Return:
			var ret []*V
			for _, r := range x.Results {
				ret = append(ret, e.val(st, r))
			}
			emit(Outcome{st: st, ret: ret})
			return
		case *ssa.Panic:
			v := e.val(st, x.X)
			e.event(st, &Event{Kind: EvPanic, Instr: x, Pos: x.Pos(), In: fn, Val: v, Ctx: ctx})
			emit(Outcome{st: st, panik: true})
			return
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			states := []*State{st}
			for j := len(ds) - 1; j >= 0; j-- {
				var next []*State
				for _, s := range states {
					for _, o := range e.doCall(ds[j].instr, ds[j].fn, ds[j].args, s, ctx, fn, fi, b, i) {
						if !o.panik {
							next = append(next, o.st)
						}
					}
				}
				states = next
			}
			states = e.mergeAt(fi, b, i, states, ctx)
			if len(states) == 1 {
				st = states[0]
				continue
			}
			for _, s := range states {
				cont(s)
			}
			return
		case *ssa.Defer:
			f, args := e.callParts(st, &x.Call)
			st.defers = append(st.defers, deferRec{x, f, args})
		case *ssa.Call:
			if fi.selfTail[x] {
				var args []*V
				for _, a := range x.Call.Args {
					args = append(args, e.val(st, a))
				}
				tail(args, st)
				return
			}
			f, args := e.callParts(st, &x.Call)
			outs := e.doCall(x, f, args, st, ctx, fn, fi, b, i)
			if len(outs) == 0 {
				return
			}
			if len(outs) == 1 && !outs[0].panik {
				st = outs[0].st
				e.setRes(st, x, outs[0].ret)
				continue
			}
			var states []*State
			for _, o := range outs {
				if o.panik {
					emit(Outcome{st: o.st, panik: true})
					continue
				}
				e.setRes(o.st, x, o.ret)
				states = append(states, o.st)
			}
			states = e.mergeAt(fi, b, i, states, ctx)
			if len(states) == 1 {
				st = states[0]
				continue
			}
			for _, s := range states {
				cont(s)
			}
			return
		case *ssa.Go:
			f, args := e.callParts(st, &x.Call)
			e.spawn(st, "go", x.Pos(), f, args, x, ctx, fn)
		default:
			outs := e.execInstr(fn, ins, st, ctx)
			if len(outs) == 0 {
				return
			}
			outs = e.mergeAt(fi, b, i, outs, ctx)
			if len(outs) == 1 {
				st = outs[0]
				continue
			}
			for _, s := range outs {
				cont(s)
			}
			return
		}
	}
}

// mergeAt merges the states after instruction i of a block
func (e *Eng) mergeAt(fi *fnInfo, b *ssa.BasicBlock, i int, sts []*State, ctx *Ctx) []*State {
	if e.rule.NoMerge || len(sts) < 2 {
		return sts
	}
	live := e.liveAfter(fi, b, i)
	for _, s := range sts {
		for k := range s.env {
			if !live[k] {
				delete(s.env, k)
			}
		}
		e.gc(s, nil)
	}
	return e.merge(sts, joinLabel{b, ctx, fmt.Sprint("i", i)})
}

func (e *Eng) setRes(st *State, x *ssa.Call, ret []*V) {
	sig := x.Call.Signature()
	switch sig.Results().Len() {
	case 0:
	case 1:
		if len(ret) == 1 {
			st.env[x] = ret[0]
		} else {
			st.env[x] = e.in.Tuple(ret...)
		}
	default:
		st.env[x] = e.in.Tuple(ret...)
	}
}

func (e *Eng) event(st *State, ev *Event) {
	e.events[ev.Kind]++
	if e.rule.OnEvent != nil {
		e.rule.OnEvent(e, st, ev)
	}
}

// val evaluates an operand
func (e *Eng) val(st *State, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isNilable(x.Type()) {
				return e.in.Nil()
			}
			return e.zeroVal(x.Type())
		}
		return e.in.Const(constOf(x.Value, x.Type()))
	case *ssa.Function:
		return e.in.Func(x)
	case *ssa.Global:
		return e.in.mk(V{kind: KGlobal, aux: x, typ: x.Type()})
	case *ssa.Builtin:
		return e.in.mk(V{kind: KOp, op: "builtin:" + x.Name(), aux: x})
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	// not computed on this path (dead code in the slice): unknown
	return e.named("?"+v.Name(), v.Type(), v)
}

func constOf(c constant.Value, t types.Type) constant.Value {
	if isInteger(t) {
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			return i
		}
	}
	return c
}

func (e *Eng) zeroVal(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.in.Bool(false)
		case u.Info()&types.IsString != 0:
			return e.in.Str("")
		case u.Info()&types.IsNumeric != 0:
			return e.in.Int(0, t)
		}
		return e.in.Nil()
	case *types.Struct:
		var f []*V
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, e.zeroVal(u.Field(i).Type()))
		}
		return e.in.Struct(t, f...)
	case *types.Array:
		return e.in.Op("zeroarray", t)
	}
	return e.in.Nil()
}

// ---------------------------------------------------------------- memory

func rootBase(a *V) *V {
	for a.kind == KField || a.kind == KIndex {
		a = a.args[0]
	}
	if a.kind == KOp && a.op == "mapent" {
		return rootBase(a.args[0])
	}
	return a
}

// mapent(m, k): the map value m is usually a load symbol whose address is known

func (e *Eng) load(st *State, addr *V, t types.Type) *V {
	if v, ok := st.heap[addr]; ok {
		if v.kind == KSym && addr.kind == KField {
			if f := fieldVar(addr); f != nil && nilTracked(f.Type()) && e.isNil(st, v) == -1 && e.pairNonNil(st, addr, f) {
				e.assume(st, e.mkEq(v, e.in.Nil()), false)
			}
		}
		return v
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		// struct value made from its fields
		if w, ok := st.heap[e.wholeKey(addr)]; ok {
			_ = w
		}
		f := make([]*V, s.NumFields())
		for i := range f {
			f[i] = e.load(st, e.in.FieldAddr(addr, i, s), s.Field(i).Type())
		}
		return e.in.Struct(t, f...)
	}
	rb := rootBase(addr)
	if st.zero[rb] && !e.indexedUnknown(st, addr) && (e.asZero || !e.shared(st, rb) || e.stableAddr(st, addr, false)) {
		return e.zeroVal(t)
	}
	return e.loadFresh(st, addr, t)
}

// loadFresh: an unknown value of the location
func (e *Eng) loadFresh(st *State, addr *V, t types.Type) *V {
	name := "ld"
	if f := fieldVar(addr); f != nil {
		if e.p.neverNil(f) || e.pairNonNil(st, addr, f) {
			name = "!ld"
		}
	} else if addr.kind == KIndex && e.p.elemNeverNil(addr) {
		name = "!ld"
	} else if addr.kind == KGlobal && e.p.globalNeverNil(addr.aux.(*ssa.Global)) {
		name = "!ld"
	}
	if x := e.listValue(st, addr, t); x != nil {
		st.heap[addr] = x
		return x
	}
	v := e.freshA(st, name, t, symKey{tag: "ld"}, addr)
	st.heap[addr] = v
	if f := fieldVar(addr); f != nil && isInteger(t) {
		if r, ok := e.p.fieldRange(f); ok {
			st.setBnd(e, v, r)
		}
	}
	return v
}

// listValue: the values of container/list elements all have one dynamic type
// when the module pushes values of one type only
func (e *Eng) listValue(st *State, addr *V, t types.Type) *V {
	f := fieldVar(addr)
	if f == nil || f.Name() != "Value" || f.Pkg() == nil || f.Pkg().Path() != "container/list" || len(e.p.listTypes) != 1 {
		return nil
	}
	for _, lt := range e.p.listTypes {
		name := "ld"
		if nilTracked(lt) && !e.p.nullable["L:"+lt.String()] {
			name = "!ld"
		}
		return e.in.Iface(lt, e.freshA(st, name, lt, symKey{tag: "lv"}, addr))
	}
	return nil
}

func (e *Eng) wholeKey(addr *V) *V { return e.in.Op("whole", nil, addr) }

// indexedUnknown: an element with unknown index of a known array
func (e *Eng) indexedUnknown(st *State, addr *V) bool {
	for a := addr; a.kind == KField || a.kind == KIndex; a = a.args[0] {
		if a.kind == KIndex {
			if _, ok := a.args[1].intVal(); !ok {
				return true
			}
			if e.marked(st, "dirty", a.args[0]) || e.marked(st, "touched", a.args[0]) {
				return true
			}
			for k := range st.heap {
				if k.kind == KOp && k.op == "content" && k.args[0].kind == KOp && k.args[0].op == "slice" && k.args[0].args[0] == a.args[0] && !e.apart(st, k.args[0].args[1], k.args[0].args[2], a.args[1], e.in.Int(1, nil)) {
					return true
				}
			}
		}
	}
	return false
}

func (e *Eng) store(st *State, addr, v *V, t types.Type) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, e.in.FieldAddr(addr, i, s), e.fieldOf(st, v, i, s), s.Field(i).Type())
		}
		return
	}
	// kill possible aliases
	for k := range st.heap {
		if k == addr {
			continue
		}
		if e.mayAlias(st, k, addr) {
			e.kill(st, k)
		}
	}
	if addr.kind == KField && e.p.pairStruct[fieldVar(addr)] != nil {
		for k := range st.heap {
			if k.kind == KOp && k.op == "pair" && (k.args[0] == addr || k.args[1] == addr) {
				delete(st.heap, k)
			}
		}
	}
	// elements with unknown index
	if addr.kind == KIndex {
		if _, ok := addr.args[1].intVal(); !ok {
			st.heap[e.in.Op("dirty", nil, addr.args[0])] = e.in.Bool(true)
		}
		one := e.in.Int(1, nil)
		for k := range st.heap {
			if k.kind == KOp && k.op == "content" && e.sliceOverlap(k.args[0], addr.args[0]) {
				b, lo, n := e.span(k.args[0])
				if b == addr.args[0] && e.apart(st, lo, n, addr.args[1], one) {
					continue
				}
				if b.kind == KObj {
					st.heap[e.in.Op("touched", nil, b)] = e.in.Bool(true)
				}
				delete(st.heap, k)
			}
		}
	}
	st.heap[addr] = v
	if e.shared(st, rootBase(addr)) {
		e.escape(st, v)
	}
}

func (e *Eng) kill(st *State, k *V) {
	rb := rootBase(k)
	if st.zero[rb] {
		if p, ok := k.typ.(*types.Pointer); ok {
			delete(st.heap, k)
			e.loadFresh(st, k, p.Elem())
			return
		}
	}
	delete(st.heap, k)
}

// fieldOf selects field i of a struct value
func (e *Eng) fieldOf(st *State, v *V, i int, s *types.Struct) *V {
	if v.kind == KStruct && i < len(v.args) {
		return v.args[i]
	}
	ft := s.Field(i).Type()
	if _, ok := ft.Underlying().(*types.Struct); ok {
		return e.in.OpI("field", i, ft, v)
	}
	if e.p.neverNil(s.Field(i)) {
		st.bools[e.mkEq(e.in.OpI("field", i, ft, v), e.in.Nil())] = false
	}
	return e.in.OpI("field", i, ft, v)
}

// mayAlias tells whether two different addresses may designate the same location
func (e *Eng) mayAlias(st *State, a, b *V) bool {
	if a.kind == KOp || b.kind == KOp {
		return false
	}
	// compare paths from the end
	x, y := a, b
	for {
		if x == y {
			// same base, the remaining paths were equal or possibly equal
			return true
		}
		if x.kind == KField && y.kind == KField {
			if x.aux != y.aux || x.idx != y.idx {
				return false
			}
			x, y = x.args[0], y.args[0]
			continue
		}
		if x.kind == KIndex && y.kind == KIndex {
			if e.truth(st, e.mkEq(x.args[1], y.args[1])) == 0 {
				return false
			}
			x, y = x.args[0], y.args[0]
			continue
		}
		break
	}
	if x.kind == KField || y.kind == KField || x.kind == KIndex || y.kind == KIndex {
		// one is a field or element, the other a base pointer that may point at it
		fx, fy := x, y
		if fx.kind != KField && fx.kind != KIndex {
			fx, fy = fy, fx
		}
		// fy is a pointer (Sym/Obj/Global); an allocated object is no field
		if fy.kind == KObj || fy.kind == KGlobal {
			return false
		}
		if fy.kind == KField || fy.kind == KIndex {
			return false
		}
		// types must agree
		if fx.typ != nil && fy.typ != nil && !types.Identical(fx.typ.Underlying(), fy.typ.Underlying()) {
			return false
		}
		if b := rootBase(fx); b.kind == KObj && !st.esc[b] {
			return false
		}
		return fy.kind == KSym && !isParamRecvDistinct(fx, fy)
	}
	if x.kind == KObj && y.kind == KObj || x.kind == KGlobal && y.kind == KGlobal || x.kind == KGlobal && y.kind == KObj || x.kind == KObj && y.kind == KGlobal {
		return false
	}
	if x.kind == KObj && !st.esc[x] || y.kind == KObj && !st.esc[y] {
		return false
	}
	if x.kind == KGlobal || y.kind == KGlobal {
		// a pointer to a package variable: the module never takes one of scalars
		return false
	}
	if x.typ != nil && y.typ != nil && !types.Identical(x.typ.Underlying(), y.typ.Underlying()) {
		return false
	}
	if e.truth(st, e.mkEq(x, y)) == 0 {
		return false
	}
	return true
}

func isParamRecvDistinct(f, p *V) bool { return false }

// shared: other goroutines or callbacks may reach the object
func (e *Eng) shared(st *State, base *V) bool {
	switch base.kind {
	case KSym, KGlobal:
		return true
	case KObj:
		return st.esc[base]
	case KOp:
		return true
	}
	return false
}

func (e *Eng) escape(st *State, v *V) {
	for _, a := range v.atoms {
		if a.kind == KObj && !st.esc[a] {
			st.esc[a] = true
			for k, x := range st.heap {
				if rootBase(k) == a {
					e.escape(st, x)
				}
			}
		}
	}
}

// invalidate forgets what other goroutines may have changed meanwhile
func (e *Eng) invalidate(st *State, cb bool) {
	for k := range st.heap {
		if k.kind == KOp {
			if k.op == "mapent" {
				if e.mapStable(st, k.args[0], cb) {
					continue
				}
				delete(st.heap, k)
			}
			continue
		}
		rb := rootBase(k)
		if !e.shared(st, rb) {
			continue
		}
		if e.stableAddr(st, k, cb) {
			continue
		}
		e.kill(st, k)
	}
}

// stableAddr: the location can not be changed by another goroutine now
func (e *Eng) stableAddr(st *State, k *V, cb bool) bool {
	if k.kind == KSym && len(k.args) > 0 { // map value loaded from a field
		k = k.args[0]
	}
	if k.kind == KObj {
		if !st.esc[k] {
			return true
		}
		if o, ok := k.aux.(objSite); ok && o.instr != nil {
			if a, ok := o.instr.(*ssa.Alloc); ok {
				return e.p.ownCell(a)
			}
		}
		return false
	}
	// innermost field decides
	for a := k; a.kind == KField || a.kind == KIndex; a = a.args[0] {
		if f := fieldVar(a); f != nil {
			s := e.p.stability(f)
			if s == stInit {
				return true
			}
			if s == stListener && !cb && e.root != nil && e.p.listenerTask(e.root) {
				return true
			}
			// a struct field inside a struct: guarded by its own lock or not
			// stable
			if _, isStruct := f.Type().Underlying().(*types.Struct); !isStruct {
				return false
			}
		}
	}
	if rb := rootBase(k); rb.kind == KGlobal {
		return e.p.globalStable(rb.aux.(*ssa.Global))
	}
	// captured variable cell
	if rb := rootBase(k); rb == k && k.kind == KObj {
		return false
	}
	return false
}

// ---------------------------------------------------------------- gc

func (e *Eng) gc(st *State, extra []*V) {
	live := map[*V]bool{}
	var stack []*V
	mark := func(v *V) {
		for _, a := range v.atoms {
			if !live[a] {
				live[a] = true
				stack = append(stack, a)
			}
		}
	}
	for _, v := range st.env {
		mark(v)
	}
	for _, d := range st.defers {
		for _, a := range d.args {
			mark(a)
		}
		if d.fn != nil {
			mark(d.fn)
		}
	}
	for _, v := range st.mon {
		mark(v)
	}
	for _, l := range st.locks {
		mark(l.addr)
	}
	for _, c := range e.callers {
		for _, v := range c {
			mark(v)
		}
	}
	for _, v := range extra {
		mark(v)
	}
	// heap reachability
	done := map[*V]bool{}
	for {
		n := 0
		for k, v := range st.heap {
			if done[k] {
				continue
			}
			ok := true
			for _, a := range k.atoms {
				if !live[a] {
					ok = false
					break
				}
			}
			if ok {
				done[k] = true
				mark(v)
				// arguments of live symbols are live through the term itself
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	for k := range st.heap {
		if !done[k] {
			delete(st.heap, k)
		}
	}
	dead := func(k *V) bool {
		for _, a := range k.atoms {
			if !live[a] {
				return true
			}
		}
		return false
	}
	// what a forgotten value said about a remaining one
	var tight, rest map[*V]iv
	for k := range st.bnd {
		if !dead(k) {
			continue
		}
		at := k.atomsLin()
		if len(at) < 2 {
			continue
		}
		if len(at) > 2 && k.kind == KLin {
			// the part of the sum that remains
			m := map[*V]int64{}
			for i, x := range k.args {
				if !dead(x) {
					m[x] = k.coef[i]
				}
			}
			if len(m) > 1 {
				if x := e.in.mkLin(m, 0, nil); x.kind == KLin {
					if _, had := rest[x]; !had {
						if rest == nil {
							rest = map[*V]iv{}
						}
						rest[x] = e.bounds(st, x)
					}
				}
			}
		}
		for _, x := range at {
			if _, had := tight[x]; had || dead(x) {
				continue
			}
			if tight == nil {
				tight = map[*V]iv{}
			}
			tight[x] = e.bounds(st, x)
		}
	}
	for k := range st.bnd {
		if dead(k) {
			delete(st.bnd, k)
		}
	}
	for x, b := range rest {
		if old := e.bounds(st, x); b.lo > old.lo || b.hi < old.hi {
			st.setBnd(e, x, b)
		}
	}
	for x, b := range tight {
		if old := e.bounds(st, x); b.lo > old.lo || b.hi < old.hi {
			st.setBnd(e, x, b)
		}
	}
	for k := range st.ne {
		if dead(k.v) {
			delete(st.ne, k)
		}
	}
	for k := range st.bools {
		if dead(k) {
			delete(st.bools, k)
		}
	}
	for k := range st.zero {
		if !live[k] {
			delete(st.zero, k)
		}
	}
	for k := range st.esc {
		if !live[k] {
			delete(st.esc, k)
		}
	}
}

// ---------------------------------------------------------------- spawn

func (e *Eng) spawn(st *State, kind string, pos token.Pos, f *V, args []*V, ins ssa.Instruction, ctx *Ctx, in *ssa.Function) {
	if f.kind == KFunc && kind == "go" {
		w := f.aux.(*ssa.Function)
		if g, as := e.p.goWrap(w); g != nil && len(f.args) == len(w.FreeVars) {
			var na []*V
			for i, a := range as {
				var v *V
				switch {
				case a.free >= 0:
					v = f.args[a.free]
					if a.ind {
						v = e.load(st, v, a.val.Type())
					}
				case a.par >= 0 && a.par < len(args):
					v = args[a.par]
				default:
					v = e.val(st, a.val)
				}
				if v == nil {
					v = e.fresh(st, "arg", a.val.Type(), symKey{instr: ins, ctx: ctx, tag: fmt.Sprint("wrap", i)})
				}
				na = append(na, v)
			}
			f, args = e.in.Func(g), na
		}
	}
	ek := EvGo
	if kind == "timer" {
		ek = EvTimer
	}
	e.escape(st, f)
	for _, a := range args {
		e.escape(st, a)
	}
	ev := &Event{Kind: ek, Instr: ins, Pos: pos, In: in, Fn: f, Args: args, Ctx: ctx}
	if f.kind == KFunc {
		ev.Callee = f.aux.(*ssa.Function)
	}
	e.event(st, ev)
	if f.kind != KFunc || e.rule.OnSpawn == nil {
		return
	}
	fn := f.aux.(*ssa.Function)
	if fn.Blocks == nil || !e.p.inModule(fn) {
		return
	}
	e.spawnTask(st, kind, f, args, pos, ins)
}

// storedAfter: the variable may be written after the instruction
func storedAfter(a *ssa.Alloc, ins ssa.Instruction) bool {
	blk := ins.Block()
	if a.Parent() != ins.Parent() || blk == nil {
		return true
	}
	var reach map[*ssa.BasicBlock]bool
	for _, r := range *a.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != ssa.Value(a) {
			continue
		}
		if s.Block() == blk {
			pi, ps := -1, -1
			for i, x := range blk.Instrs {
				if x == ins {
					pi = i
				}
				if x == ssa.Instruction(s) {
					ps = i
				}
			}
			if ps > pi {
				return true
			}
		}
		if reach == nil {
			reach = map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				for _, n := range b.Succs {
					if !reach[n] {
						reach[n] = true
						walk(n)
					}
				}
			}
			walk(blk)
		}
		if reach[s.Block()] {
			return true
		}
	}
	return false
}

func (e *Eng) spawnTask(st *State, kind string, f *V, args []*V, pos token.Pos, ins ssa.Instruction) {
	fn := f.aux.(*ssa.Function)
	s := st.clone()
	s.env = map[ssa.Value]*V{}
	s.defers = nil
	s.locks = nil
	s.mon = map[string]*V{}
	s.may = map[string]bool{}
	t := &Task{Name: fn.Name(), Fn: fn, Args: append([]*V{}, args...), Binds: f.args, St: s, Kind: kind, Pos: pos}
	if !e.rule.OnSpawn(e, s, t) {
		return
	}
	save := e.callers
	e.callers = [][]*V{append(append([]*V{}, t.Args...), t.Binds...)}
	for _, a := range e.callers[0] {
		e.escape(s, a)
	}
	for _, b := range f.args {
		if o, ok := b.aux.(objSite); ok && b.kind == KObj && ins != nil {
			if a, ok := o.instr.(*ssa.Alloc); ok && storedAfter(a, ins) {
				delete(s.heap, b)
				delete(s.zero, b)
			}
		}
	}
	old := e.root
	e.root = t
	e.invalidate(s, true)
	e.root = old
	e.gc(s, nil)
	e.callers = save
	e.canon(t)
	if e.ntask[fn] > 12 {
		e.forget(t)
	}
	if e.push(t) {
		e.ntask[fn]++
	}
}

// forget drops what the task knows about objects other goroutines can reach, so
// that tasks that start each other become equal
func (e *Eng) forget(t *Task) {
	st := t.St
	for k := range st.heap {
		if rb := rootBase(k); e.shared(st, rb) {
			if k.kind == KObj || k.kind == KIndex {
				continue // a captured variable
			}
			if k.kind == KField && nilTracked(k.typ.Underlying().(*types.Pointer).Elem()) {
				if f := fieldVar(k); f != nil && e.p.stability(f) == stInit {
					continue
				}
			}
			delete(st.heap, k)
		}
	}
	for k := range st.zero {
		if e.shared(st, k) {
			delete(st.zero, k)
		}
	}
	st.bnd = newState().bnd
	st.ne = newState().ne
	st.bools = newState().bools
	save := e.callers
	e.callers = [][]*V{append(append([]*V{}, t.Args...), t.Binds...)}
	e.gc(st, nil)
	e.callers = save
	e.canon(t)
}

// canon renames objects and symbols of a spawned task by order of appearance so
// that the same task spawned from different places is analysed once
func (e *Eng) canon(t *Task) {
	m := map[*V]*V{}
	cnt := map[string]int{}
	var order []*V
	var visit func(v *V)
	visit = func(v *V) {
		for _, a := range v.atoms {
			if _, ok := m[a]; ok {
				continue
			}
			m[a] = nil
			order = append(order, a)
		}
	}
	for _, a := range t.Args {
		visit(a)
	}
	for _, a := range t.Binds {
		visit(a)
	}
	for i := 0; i < len(order); i++ {
		a := order[i]
		var ks []*V
		for k := range t.St.heap {
			if rootBase(k) == a {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			visit(t.St.heap[k])
		}
	}
	for _, a := range order {
		if a.kind == KSym && len(a.args) > 0 {
			continue // loads are renamed through their address
		}
		if a.kind == KSym {
			if _, isP := a.aux.(*ssa.Parameter); isP {
				m[a] = a
				continue
			}
		}
		base := fmt.Sprintf("%d|%s|%d", a.kind, a.op, e.in.tid(a.typ))
		k := cnt[base]
		cnt[base]++
		nv := *a
		nv.atoms = nil
		nv.idx = k
		if a.kind == KObj {
			site := objSite{label: "spawned"}
			if o, ok := a.aux.(objSite); ok {
				if al, ok := o.instr.(*ssa.Alloc); ok {
					site.instr = al
				}
			}
			nv.aux = site
		} else {
			nv.aux = symKey{tag: "spawned"}
		}
		m[a] = e.in.mk(nv)
	}
	sub := &substituter{e: e, m: map[*V]*V{}}
	for a, b := range m {
		if b != nil {
			sub.m[a] = b
		}
	}
	for i := range t.Args {
		t.Args[i] = sub.apply(t.Args[i])
	}
	nb := make([]*V, len(t.Binds))
	for i := range t.Binds {
		nb[i] = sub.apply(t.Binds[i])
	}
	t.Binds = nb
	t.St = sub.state(t.St)
}

type substituter struct {
	e *Eng
	m map[*V]*V
}

func (s *substituter) apply(v *V) *V {
	if r, ok := s.m[v]; ok {
		return r
	}
	if len(v.args) == 0 {
		return v
	}
	ch := false
	na := make([]*V, len(v.args))
	for i, a := range v.args {
		na[i] = s.apply(a)
		if na[i] != a {
			ch = true
		}
	}
	r := v
	if ch {
		if v.kind == KLin {
			m := map[*V]int64{}
			acc := s.e.in.Int(v.c, nil)
			_ = m
			for i, a := range na {
				acc = s.e.in.lin(acc, 1, a, v.coef[i], nil)
			}
			r = acc
		} else if v.kind == KOp && v.op == "eq" {
			r = s.e.mkEq(na[0], na[1])
		} else {
			nv := *v
			nv.args = na
			nv.atoms = nil
			r = s.e.in.mk(nv)
		}
	}
	s.m[v] = r
	return r
}

func (s *substituter) state(st *State) *State {
	n := newState()
	n.tr = st.tr
	for k, v := range st.env {
		n.env[k] = s.apply(v)
	}
	for k, v := range st.heap {
		n.heap[s.apply(k)] = s.apply(v)
	}
	for k := range st.zero {
		n.zero[s.apply(k)] = true
	}
	for k := range st.esc {
		n.esc[s.apply(k)] = true
	}
	for k, v := range st.bnd {
		n.setBnd(s.e, s.apply(k), v)
	}
	for k := range st.ne {
		n.ne[neKey{s.apply(k.v), k.c}] = true
	}
	for k, v := range st.bools {
		x := s.apply(k)
		if _, isC := x.boolVal(); !isC {
			n.bools[x] = v
		}
	}
	for _, l := range st.locks {
		l.addr = s.apply(l.addr)
		n.locks = append(n.locks, l)
	}
	for k, v := range st.mon {
		n.mon[k] = s.apply(v)
	}
	n.may = cp(st.may)
	for _, d := range st.defers {
		a := make([]*V, len(d.args))
		for i := range a {
			a[i] = s.apply(d.args[i])
		}
		if d.fn != nil {
			d.fn = s.apply(d.fn)
		}
		d.args = a
		n.defers = append(n.defers, d)
	}
	return n
}
