package main

// S04: where key material goes.

import (
	"go/types"
	"strings"
)

type leakMon struct {
	ro *roles
}

// carries: printing a value of the type prints key material
func (m *leakMon) carries(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if t.String() == "crypto/rsa.PrivateKey" {
		return true
	}
	if n, ok := t.(*types.Named); ok && hasMethod(n, "String") {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f == m.ro.key || f.Type().String() == "crypto/rsa.PrivateKey" {
			return true
		}
		if _, ok := f.Type().Underlying().(*types.Struct); ok && m.carries(f.Type()) {
			return true
		}
	}
	return false
}

// elementOf: the address is an element of the array object itself
func elementOf(k, o *V) bool {
	for k.kind == KIndex {
		if k = k.args[0]; k == o {
			return true
		}
	}
	return false
}

func hasMethod(n *types.Named, name string) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// secret says what key material a value holds, if any
func (m *leakMon) secret(e *Eng, st *State, v *V) string { return m.walk(e, st, v, 0, map[*V]bool{}) }

func (m *leakMon) walk(e *Eng, st *State, v *V, d int, seen map[*V]bool) string {
	if v == nil || d > 8 || seen[v] {
		return ""
	}
	seen[v] = true
	rec := func(x *V) string { return m.walk(e, st, x, d+1, seen) }
	switch v.kind {
	case KConst, KNil, KFunc, KGlobal:
		return ""
	case KIface:
		if m.carries(v.typ) {
			return "a value of type " + v.typ.String()
		}
		return rec(v.args[0])
	case KSym:
		if v.op == "random" {
			return "freshly drawn random bytes"
		}
		if k := st.heap[e.in.Op("keep:secret", nil, v)]; k != nil {
			if s, ok := k.strVal(); ok {
				return s
			}
		}
		if f := loadedFrom(v); f != nil {
			if f == m.ro.key {
				return "the session key"
			}
			if f.Type().String() == "*crypto/rsa.PrivateKey" && (f == m.ro.truKey || f.Pkg() != nil && f.Pkg() == m.ro.tru.Obj().Pkg()) {
				return "the private key"
			}
			if f.Pkg() != nil && f.Pkg().Path() == "crypto/rsa" {
				switch f.Name() {
				case "D", "Primes", "Precomputed":
					return "a secret part of the private key"
				}
			}
		}
		if len(v.args) > 0 {
			// an element of a secret
			a := v.args[0]
			if a.kind == KIndex {
				return rec(a.args[0])
			}
			if strings.HasPrefix(v.op, "call:") {
				for _, x := range v.args {
					if s := rec(x); s != "" {
						return s
					}
				}
			}
		}
		return ""
	case KField:
		return ""
	case KOp:
		switch v.op {
		case "rsaenc", "sealedpkt", "len", "eq", "lt", "not", "sum", "aead", "cap":
			return ""
		case "rsadec":
			return "the result of public-key decryption"
		}
		if strings.HasPrefix(v.op, "call:crypto/sha") {
			return ""
		}
	}
	if c := e.contentOf(st, v); c != v {
		if s := rec(c); s != "" {
			return s
		}
	}
	if o := sliceBase(v); o.kind == KObj && (v.kind == KObj || v.kind == KOp) {
		for k, x := range st.heap {
			if k.kind != KOp && rootBase(k) == o && k != o {
				if !elementOf(k, o) {
					continue // what an object points to is not printed or sent with it
				}
				if s := rec(x); s != "" {
					return s
				}
			}
		}
		return ""
	}
	for _, x := range v.args {
		if s := rec(x); s != "" {
			return s
		}
	}
	return ""
}

// mayTake: functions of the standard library that key material may be given to
func mayTake(name string) bool {
	for _, p := range []string{"append", "copy", "len", "cap", "crypto/aes.NewCipher", "crypto/cipher.NewGCM", "crypto/rsa.EncryptOAEP", "crypto/rsa.DecryptOAEP", "crypto/rsa.GenerateKey", "(*crypto/rsa.PrivateKey).", "(*crypto/rsa.PublicKey).",
		"encoding/pem.Decode", "io.ReadFull", "crypto/rand.Read", "bytes.Equal", "bytes.Clone", "slices.", "crypto/subtle.", "crypto/hmac.", "crypto/sha", "crypto/md5.", "(hash.Hash).", "(crypto/cipher.", "bytes.NewReader", "(*bytes.", "bytes.NewBuffer", "encoding/binary.Write", "crypto/x509.ParsePKIXPublicKey", "clear", "min", "max", "runtime.", "time."} {
		if name == p || strings.HasPrefix(name, p) && (strings.HasSuffix(p, ".") || strings.HasPrefix(p, "crypto/sha")) {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{
		ID: "S04", Level: "other", Prep: true,
		Technique:   "information-flow analysis of key material over path-sensitive interprocedural abstract interpretation (go/ssa), closed list of functions that may receive it",
		Note:        "Session keys, fresh random bytes, decrypted handshake bodies and private keys are followed to every call that leaves the module, every packet, every callback, every stored text and every result.",
		Assumptions: []string{"the listed functions of the standard library do not disclose their arguments"},
		NotCovered:  "flows through comparisons and timing; memory dumps.",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Secrets are: the session key field, bytes drawn from crypto/rand, results of public-key decryption, private keys and their secret parts, and anything that contains or is computed from them except through public-key encryption, packet encryption or a hash, and what is one of these on any of the paths that join. No secret is an argument of a function outside the module that is not on the closed list, part of a queued or recorded packet, sent on another channel, given to a callback, stored as text or bytes in shared memory other than the key's own field, or a result of an exported function.")
			m := &leakMon{ro: ro}
			r.runThreads(func(q *Report) *Rule {
				p := newPrims(ro)
				return &Rule{
					OnSpawn: func(e *Eng, st *State, t *Task) bool { return true },
					OnCall:  p.call,
					// where paths join, a value that is secret on one of them stays secret
					OnJoin: func(e *Eng, A, B, J *State, a, b, s *V) {
						if s.kind != KSym || J.heap[e.in.Op("keep:secret", nil, s)] != nil {
							return
						}
						x := m.secret(e, A, a)
						if x == "" {
							x = m.secret(e, B, b)
						}
						if x != "" {
							J.heap[e.in.Op("keep:secret", nil, s)] = e.in.Str(x)
						}
					},
					OnEvent: func(e *Eng, st *State, ev *Event) {
						c := instrName(ev.In, ev.Instr)
						pin(e, st, ev, ro.pktData)
						switch ev.Kind {
						case EvCall, EvInvoke:
							if mayTake(ev.Name) || ev.Name == "(io.Writer).Write" && len(ev.Args) > 0 && st.heap[e.in.Op("hash", nil, ev.Args[0])] != nil {
								if strings.HasPrefix(ev.Name, "crypto/") || strings.HasPrefix(ev.Name, "(*crypto/") {
									q.ob(true, "allowed", c, ev.Pos, st, "")
								}
								return
							}
							for _, a := range ev.Args {
								s := m.secret(e, st, a)
								q.ob(s == "", "given", c, ev.Pos, st, "%s is given to %s", s, ev.Name)
							}
						case EvSend:
							if loadedFrom(ev.Addr) == ro.senderCh {
								_, pac, _ := sentItem(e, st, ev.Val, ro)
								if pac != nil && !queued(pac, ro) {
									s := m.secret(e, st, pinned(e, st, pac, ro.pktData))
									q.ob(s == "", "sent", c, ev.Pos, st, "%s is sent as the payload of a packet", s)
								}
								return
							}
							s := m.secret(e, st, ev.Val)
							q.ob(s == "", "passed", c, ev.Pos, st, "%s is sent on a channel", s)
						case EvDyn:
							if ev.Fn.kind == KFunc {
								return
							}
							for _, a := range ev.Args {
								s := m.secret(e, st, a)
								q.ob(s == "", "callback", c, ev.Pos, st, "%s is given to a callback", s)
							}
						case EvStore:
							f := addrField(ev.Addr)
							if f == nil || f == ro.key || f == ro.pktData || f == ro.cpData || !e.shared(st, rootBase(ev.Addr)) {
								return
							}
							if f.Type().String() == "*crypto/rsa.PrivateKey" {
								return
							}
							switch f.Type().Underlying().(type) {
							case *types.Basic, *types.Slice, *types.Interface, *types.Map:
								s := m.secret(e, st, ev.Val)
								q.ob(s == "", "stored", c, ev.Pos, st, "%s is stored in %s", s, f.Name())
							}
						case EvMapUpdate:
							s := m.secret(e, st, ev.Val)
							if s == "" {
								s = m.secret(e, st, ev.Key)
							}
							q.ob(s == "", "stored", c, ev.Pos, st, "%s is stored in a map", s)
						}
					},
					OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
						if t.Kind != "root" {
							return
						}
						for i, x := range ret {
							if i < t.Fn.Signature.Results().Len() && t.Fn.Signature.Results().At(i).Type().String() == "*crypto/rsa.PrivateKey" {
								continue
							}
							s := m.secret(e, st, x)
							q.ob(s == "", "returned", "results of "+fnName(t.Fn), t.Fn.Pos(), st, "%s is returned", s)
						}
					},
				}
			}, nil)
			r.atLeast("allowed", 2)
			r.atLeast("given", 20)
			r.atLeast("sent", 1)
			r.atLeast("callback", 3)
		},
	})
}
