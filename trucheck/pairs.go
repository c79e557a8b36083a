package main

// Pair invariants: a boolean field that is true only while a pointer field of
// the same struct is set. Inferred by phase 0 for structs that only the listener
// goroutine changes; checked at the exit of every outermost function that stores
// to the struct.

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

type pairInfo struct {
	bools, ptrs []*types.Var
}

// buildPairs finds the structs with boolean and pointer fields and the functions
// that store to them
func (p *Program) buildPairs() {
	p.pairStruct = map[*types.Var]*types.Struct{}
	p.pairPtrs = map[*types.Var][]*types.Var{}
	p.pairInfo = map[*types.Struct]*pairInfo{}
	p.pairStores = map[*ssa.Function]map[*types.Struct]bool{}
	for f := range p.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := derefStruct(fa.X.Type())
				if st == nil || st.NumFields() == 0 || !p.inModVar(st.Field(fa.Field)) {
					continue
				}
				if p.pairInfo[st] == nil {
					pi := &pairInfo{}
					for k := 0; k < st.NumFields(); k++ {
						v := st.Field(k)
						if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
							pi.bools = append(pi.bools, v)
						} else if nilTracked(v.Type()) {
							pi.ptrs = append(pi.ptrs, v)
						}
						p.pairStruct[v] = st
					}
					p.pairInfo[st] = pi
					for _, v := range pi.bools {
						p.pairPtrs[v] = pi.ptrs
					}
				}
				if len(p.pairInfo[st].bools) == 0 || len(p.pairInfo[st].ptrs) == 0 {
					continue
				}
				if p.pairStores[f] == nil {
					p.pairStores[f] = map[*types.Struct]bool{}
				}
				p.pairStores[f][st] = true
			}
		}
	}
}

func fieldIndex(s *types.Struct, f *types.Var) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == f {
			return i
		}
	}
	return -1
}

// pairNonNil: a flag of the struct that is known to be set says that the field
// is not nil
func (e *Eng) pairNonNil(st *State, addr *V, f *types.Var) bool {
	if e.p.allowNil || !nilTracked(f.Type()) || e.root == nil || !e.p.listenerTask(e.root) || e.p.stability(f) == stNone {
		return false
	}
	s := e.p.pairStruct[f]
	if s == nil {
		return false
	}
	for _, b := range e.p.pairInfo[s].bools {
		if e.p.pairBad[[2]*types.Var{b, f}] || e.p.stability(b) == stNone {
			continue
		}
		if v, ok := st.heap[e.in.FieldAddr(addr.args[0], fieldIndex(s, b), s)]; ok && e.truth(st, v) == 1 {
			return true
		}
	}
	return false
}

// checkPairs is called when a function returns
func (ph *phase0) checkPairs(e *Eng, st *State, fn *ssa.Function, ctx *Ctx) {
	for s := range e.p.pairStores[fn] {
		outer := true
		for c := ctx; c != nil; c = c.up {
			if c.fn != nil && e.p.pairStores[c.fn][s] {
				outer = false
			}
		}
		if !outer {
			continue
		}
		pi := e.p.pairInfo[s]
		bases := map[*V]bool{}
		for k := range st.heap {
			if k.kind == KField {
				if f := fieldVar(k); f != nil && e.p.pairStruct[f] == s {
					bases[k.args[0]] = true
				}
			}
		}
		for base := range bases {
			z := st.zero[rootBase(base)]
			get := func(f *types.Var) (*V, bool) {
				v, ok := st.heap[e.in.FieldAddr(base, fieldIndex(s, f), s)]
				return v, ok
			}
			for _, b := range pi.bools {
				for _, f := range pi.ptrs {
					if !e.pairHolds(st, base, s, b, f) {
						if pairDbg == b.Name()+"/"+f.Name() {
							bv, bok := get(b)
							pv, pok := get(f)
							fmt.Fprintf(os.Stderr, "PAIR %s at exit of %s: %v=%v(%v) %v(%v) zero %v root %s\n", pairDbg, ctx.chain(), b.Name(), bv, bok, pv, pok, z, e.root.Name)
						}
						ph.pairs[[2]*types.Var{b, f}] = true
					}
				}
			}
		}
	}
}

var pairDbg = os.Getenv("PAIR")

// pairHolds: in this state the flag b implies that f is set
func (e *Eng) pairHolds(st *State, base *V, s *types.Struct, b, f *types.Var) bool {
	ba, fa := e.in.FieldAddr(base, fieldIndex(s, b), s), e.in.FieldAddr(base, fieldIndex(s, f), s)
	z := st.zero[rootBase(base)]
	bv, bok := st.heap[ba]
	pv, pok := st.heap[fa]
	if _, ok := st.heap[e.in.Op("pair", nil, ba, fa)]; ok {
		return true
	}
	switch {
	case bok && e.truth(st, bv) == 0, !bok && z:
		return true
	case pok && e.isNil(st, pv) == 0:
		return true
	case !bok && !pok:
		return true
	case !pok && !z && bok && bv.kind == KSym && len(bv.args) > 0 && bv.args[0] == ba:
		return true // the flag was only read
	}
	return false
}

// joinPair keeps the implication when both joined states satisfy it
func (e *Eng) joinPair(A, B, J *State, ba *V) {
	b := fieldVar(ba)
	s := e.p.pairStruct[b]
	base := ba.args[0]
	for _, f := range e.p.pairPtrs[b] {
		if !e.pairHolds(J, base, s, b, f) && e.pairHolds(A, base, s, b, f) && e.pairHolds(B, base, s, b, f) {
			J.heap[e.in.Op("pair", nil, ba, e.in.FieldAddr(base, fieldIndex(s, f), s))] = e.in.Bool(true)
		}
	}
}
