package main

// Secrecy: S01 to S04.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ghost cells follow a quantity of the rule through loops like a variable of
// the program
func (e *Eng) ghost(st *State, name string) *V { return st.heap[e.in.Op("ghost:"+name, nil)] }

func (e *Eng) setGhost(st *State, name string, v *V) { st.heap[e.in.Op("ghost:"+name, nil)] = v }

// cipherSpec is what one path of the packet cipher does with a range of payload
// lengths
type cipherSpec struct {
	len    iv // length of its input
	mode   string
	key    string
	over   int64
	layout string // where nonce and sealed bytes are, associated data
	tr     *State
}

// keyString names the bytes a key is made of: K is the whole session key, i<n>
// bit n of the packet number
func keyString(e *Eng, st *State, key, id *V, ro *roles) (string, string) {
	kind := "raw"
	if key.kind == KOp && key.op == "slice" {
		key = e.contentOf(st, key)
	}
	content := key
	if key.kind == KOp && key.op == "sum" {
		k, ok := key.args[0].strVal()
		if !ok || k == "unknown" {
			return "", "the hash of the key is not known"
		}
		kind, content = k, key.args[2]
	}
	segs, ok := e.flatten(st, content, 0)
	if !ok {
		return "", "the key is made of " + desc(content)
	}
	var out []string
	for _, s := range e.nonEmpty(st, segs) {
		if s.b == nil {
			if loadedFrom(s.base) == ro.key && e.isConst(st, s.lo, 0) && e.same(st, s.n, e.lenOf(st, s.base, nil)) {
				out = append(out, "K")
				continue
			}
			return "", "the key holds " + segString([]lseg{s})
		}
		var bs []string
		for _, b := range s.b {
			switch {
			case b.v == nil:
				bs = append(bs, fmt.Sprint(b.n))
			case b.v == id:
				bs = append(bs, fmt.Sprintf("i%d.", b.n))
			default:
				return "", "the key depends on " + desc(b.v)
			}
		}
		out = append(out, strings.Join(bs, ""))
	}
	return kind + "(" + strings.Join(out, " ") + ")", ""
}

// dependsOnAll: session key and every bit of the number
func dependsOnAll(key string, n int) string {
	if !strings.Contains(key, "K") {
		return "the key does not depend on the session key"
	}
	for i := 0; i < n; i++ {
		if !strings.Contains(key, fmt.Sprintf("i%d.", i)) {
			return fmt.Sprintf("the key does not depend on bit %d of the packet number", i)
		}
	}
	return ""
}

// cipherMon follows the packet cipher in one direction
type cipherMon struct {
	r         *Report
	ro        *roles
	fn        *ssa.Function
	enc       bool
	data, id  *V
	specs     *[]cipherSpec
	construct string
}

func (m *cipherMon) wholeData(e *Eng, st *State, v *V) bool {
	segs, ok := e.flatten(st, v, 0)
	if !ok {
		return false
	}
	segs = e.nonEmpty(st, segs)
	ln := e.lenOf(st, m.data, nil)
	if len(segs) == 0 {
		return e.bounds(st, ln).hi <= 0
	}
	return len(segs) == 1 && segs[0].b == nil && segs[0].base == m.data && e.isConst(st, segs[0].lo, 0) && e.same(st, segs[0].n, ln)
}

func (m *cipherMon) rule() *Rule {
	r, ro := m.r, m.ro
	return &Rule{
		NoMerge: true,
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			c := instrName(ev.In, ev.Instr)
			switch ev.Kind {
			case EvCall, EvInvoke:
				if ev.Hit == 0 && ev.Res != nil && ev.Res.kind == KTuple {
					e.monSet(st, "libfail", 1)
				}
				switch ev.Name {
				case "crypto/aes.NewCipher":
					if ev.Hit == 1 {
						st.mon["cipherkey"], st.mon["cipher"] = ev.Args[0], ev.Res.args[0]
					}
				case "crypto/cipher.NewGCM":
					if ev.Hit == 1 && ev.Args[0] == st.mon["cipher"] {
						st.mon["gcm"] = ev.Res.args[0]
					}
				case "(crypto/cipher.AEAD).Seal":
					st.mon["ct"] = ev.Res
					st.mon["nonce"] = e.contentOf(st, ev.Args[2])
					st.mon["aad"] = e.contentOf(st, ev.Args[4])
					r.ob(ev.Args[0] == st.mon["gcm"] && m.wholeData(e, st, ev.Args[3]), "sealed", c, ev.Pos, st, "what is sealed is %s, not the payload under the packet's cipher", desc(ev.Args[3]))
				case "(crypto/cipher.AEAD).Open":
					if ev.Hit == 1 {
						st.mon["plain"] = ev.Res.args[0]
						st.mon["nonce"] = e.contentOf(st, ev.Args[2])
						st.mon["sealed"] = e.contentOf(st, ev.Args[3])
						st.mon["aad"] = e.contentOf(st, ev.Args[4])
						r.ob(ev.Args[0] == st.mon["gcm"] && e.bounds(st, e.lenOf(st, ev.Args[1], nil)).hi <= 0, "opened", c, ev.Pos, st, "the payload is not opened with the packet's cipher into an empty buffer")
					}
				}
			case EvLoad:
				if addrField(ev.Addr) == ro.key {
					st.mon["keyld"] = ev.Val
				}
				if ev.Addr.kind == KIndex && !isSum(ev.Addr.args[0]) {
					st.mon["srcaddr"], st.mon["srcval"] = ev.Addr, ev.Val
				}
			case EvStore:
				if ev.Addr.kind != KIndex || ev.Type == nil || !types.Identical(ev.Type.Underlying(), types.Typ[types.Uint8]) {
					return
				}
				m.xorStore(e, st, ev, c)
			}
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) { m.ret(e, st, ret) },
	}
}

func isSum(v *V) bool { return v.kind == KOp && v.op == "sum" }

// xorStore: element i of the buffer is combined with element i of the key stream
func (m *cipherMon) xorStore(e *Eng, st *State, ev *Event, c string) {
	base, idx := ev.Addr.args[0], ev.Addr.args[1]
	pos := e.ghost(st, "pos")
	if st.mon["xkey"] == nil && (ev.Val.kind != KOp || ev.Val.op != "xor") {
		return // filling of another buffer
	}
	fail := func(f string, a ...interface{}) { m.r.ob(false, "keystream", c, ev.Pos, st, f, a...) }
	if ev.Val.kind != KOp || ev.Val.op != "xor" {
		fail("the buffer is overwritten with %s", desc(ev.Val))
		return
	}
	var src, ks *V
	for i, a := range ev.Val.args {
		if a.kind == KSym && len(a.args) > 0 && a.args[0].kind == KIndex && isSum(a.args[0].args[0]) {
			ks, src = a, ev.Val.args[1-i]
		}
	}
	if ks == nil {
		fail("%s is not a combination with the packet key", desc(ev.Val))
		return
	}
	key, ki := ks.args[0].args[0], ks.args[0].args[1]
	kl := e.lenOf(st, key, nil)
	okIdx := e.same(st, ki, idx) || ki.kind == KOp && ki.op == "rem" && e.same(st, ki.args[0], idx) && e.same(st, ki.args[1], kl)
	if !okIdx {
		fail("byte %s of the payload is combined with byte %s of the key", desc(idx), desc(ki))
		return
	}
	if !e.same(st, idx, pos) {
		fail("byte %s follows byte %s", desc(idx), desc(pos))
		return
	}
	sa := st.mon["srcaddr"]
	if sa == nil || st.mon["srcval"] != src || !e.same(st, sa.args[1], idx) || sa.args[0] != base && sa.args[0] != m.data {
		fail("byte %s is made from %s, not from the same byte of the payload", desc(idx), desc(src))
		return
	}
	if st.mon["xkey"] == nil {
		// the buffer holds the payload before the first byte is changed
		whole := func() bool {
			if n := e.lenOf(st, base, nil); base.kind == KOp && base.op == "append" && n != nil && e.same(st, n, e.lenOf(st, m.data, nil)) {
				return m.wholeData(e, st, base)
			}
			return m.wholeData(e, st, e.mkSlice(base, e.in.Int(0, nil), e.lenOf(st, m.data, nil), nil))
		}
		if base != m.data && sa.args[0] == base && !whole() {
			fail("the buffer does not hold the payload")
			return
		}
		ks, why := keyString(e, st, key, m.id, m.ro)
		if why != "" {
			fail("%s", why)
			return
		}
		st.mon["xkey"] = e.in.Str(ks)
		st.mon["xbase"] = base
	} else if st.mon["xbase"] != base {
		fail("two buffers are changed")
		return
	}
	m.r.ob(true, "keystream", c, ev.Pos, st, "")
	e.setGhost(st, "pos", e.in.addC(idx, 1))
}

func (m *cipherMon) ret(e *Eng, st *State, ret []*V) {
	pos := m.fn.Pos()
	c := m.construct
	ln := e.lenOf(st, m.data, nil)
	b := e.bounds(st, ln)
	b.lo = maxi(b.lo, 0)
	if e.isNil(st, ret[1]) != 1 {
		noKey := st.mon["keyld"] != nil && e.bounds(st, e.lenOf(st, st.mon["keyld"], nil)).hi <= 0
		if !noKey && monI(st, "libfail") == 0 {
			*m.specs = append(*m.specs, cipherSpec{len: b, mode: "refused", tr: st})
		}
		return
	}
	if b.hi <= 0 {
		return // nothing to encrypt
	}
	s := cipherSpec{len: b, tr: st}
	add := func() { *m.specs = append(*m.specs, s) }
	fail := func(f string, a ...interface{}) { m.r.ob(false, "cipher", c, pos, st, f, a...) }
	okOver := func() bool {
		d := e.bounds(st, e.in.sub(e.lenOf(st, ret[0], nil), ln))
		s.over = d.lo
		return d.lo == d.hi
	}
	if k := st.mon["xkey"]; k != nil {
		s.mode = "xor"
		s.key, _ = k.strVal()
		base, lo, _ := e.span(ret[0])
		if base != st.mon["xbase"] || !e.isConst(st, lo, 0) || !okOver() || s.over != 0 {
			fail("the result is %s, not the combined buffer", desc(ret[0]))
			return
		}
		if !e.same(st, e.ghost(st, "pos"), ln) {
			fail("only the bytes before %s are combined with the key", desc(e.ghost(st, "pos")))
			return
		}
		add()
		return
	}
	gcm := st.mon["cipherkey"]
	if gcm == nil || st.mon["nonce"] == nil {
		fail("a payload of %d..%d bytes is passed on as it is: %s", b.lo, b.hi, desc(ret[0]))
		return
	}
	key, why := keyString(e, st, gcm, m.id, m.ro)
	if why != "" {
		fail("%s", why)
		return
	}
	s.mode, s.key = "aes-gcm", key
	aad, ok := e.flatten(st, st.mon["aad"], 0)
	if !ok || len(e.nonEmpty(st, aad)) > 0 {
		fail("associated data %s is not understood", desc(st.mon["aad"]))
		return
	}
	if m.enc {
		if !okOver() {
			fail("the result is %s", desc(ret[0]))
			return
		}
		segs, ok := e.flatten(st, ret[0], 0)
		nn, ok2 := e.flatten(st, st.mon["nonce"], 0)
		segs, nn = e.nonEmpty(st, segs), e.nonEmpty(st, nn)
		if !ok || !ok2 || len(nn) != 1 || nn[0].b != nil {
			fail("the result is %s", desc(ret[0]))
			return
		}
		off := e.in.Int(0, nil)
		n, ct := "", ""
		for _, x := range segs {
			switch {
			case x.b != nil:
				off = e.in.addC(off, 1)
				continue
			case x.base == nn[0].base && e.same(st, x.lo, nn[0].lo) && e.same(st, x.n, nn[0].n):
				n = fmt.Sprintf("nonce at %d", e.bounds(st, off).lo)
			case x.base.kind == KOp && x.base.op == "aead" && e.isConst(st, x.lo, 0):
				ct = fmt.Sprintf("sealed at %d", e.bounds(st, off).lo)
			default:
				fail("the result holds %s", segString([]lseg{x}))
				return
			}
			off = e.in.add(off, x.n)
		}
		s.layout = n + " " + ct
		add()
		return
	}
	if ret[0] != st.mon["plain"] {
		fail("the result is %s, not what was opened", desc(ret[0]))
		return
	}
	nn, ok1 := e.flatten(st, st.mon["nonce"], 0)
	ct, ok2 := e.flatten(st, st.mon["sealed"], 0)
	nn, ct = e.nonEmpty(st, nn), e.nonEmpty(st, ct)
	if !ok1 || !ok2 || len(nn) != 1 || len(ct) != 1 || nn[0].base != m.data || ct[0].base != m.data || !e.isConst(st, nn[0].n, 12) || !e.same(st, e.in.add(ct[0].lo, ct[0].n), ln) {
		fail("nonce or sealed bytes are not parts of the received payload")
		return
	}
	s.layout = fmt.Sprintf("nonce at %d sealed at %d", e.bounds(st, nn[0].lo).lo, e.bounds(st, ct[0].lo).lo)
	add()
}

func baseTypeName(a *V) string {
	if a.args[0].typ == nil {
		return ""
	}
	t := a.args[0].typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (p *Program) rsaBits() int64 {
	bits := int64(0)
	for _, f := range p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || fullName(c.Common().StaticCallee()) != "crypto/rsa.GenerateKey" {
					continue
				}
				k, ok := c.Common().Args[1].(*ssa.Const)
				if !ok || bits != 0 && k.Int64() != bits {
					return 0
				}
				bits = k.Int64()
			}
		}
	}
	return bits
}

// callerOf gives the function by name, or the only one that makes the call
func (p *Program) callerFn(name, callee string) *ssa.Function {
	if f := p.lookupFunc("tru", name); f != nil {
		return f
	}
	var hit *ssa.Function
	for _, f := range p.functions() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && fullName(c.Common().StaticCallee()) == callee {
					if hit != nil && hit != f {
						return nil
					}
					hit = f
				}
			}
		}
	}
	return hit
}

var hashOfCrypto = map[int64]string{4: "crypto/sha256.New224", 5: "crypto/sha256.New", 3: "crypto/sha1.New", 2: "crypto/md5.New", 7: "crypto/sha512.New", 6: "crypto/sha512.New384"}

// rsaChunks checks one direction of the chunked public-key transport and gives
// the hash it uses
func rsaChunks(r *Report, ro *roles, fn *ssa.Function, enc bool, bits int64) map[string]bool {
	hashes := map[string]bool{}
	k := bits / 8
	what := "decryption"
	if enc {
		what = "encryption"
	}
	rule := "rsa " + what
	var in *V
	hashName := func(e *Eng, st *State, v *V) string {
		for _, x := range []*V{v, unbox(v)} {
			if x != nil {
				if h := st.heap[e.in.Op("hash", nil, x)]; h != nil {
					s, _ := h.args[0].strVal()
					return s
				}
			}
		}
		return "?"
	}
	r.run(&Rule{
		NoMerge: true,
		OnSpawn: func(e *Eng, st *State, t *Task) bool { return false },
		OnEvent: func(e *Eng, st *State, ev *Event) {
			if ev.Kind == EvStore && ev.Addr.kind == KField && ev.Type != nil {
				switch {
				case ev.Type.String() == "crypto.Hash":
					st.mon["opthash"] = ev.Val
				case baseTypeName(ev.Addr) == "OAEPOptions" && fieldVar(ev.Addr) != nil && fieldVar(ev.Addr).Name() == "Label":
					r.ob(e.isNil(st, ev.Val) == 1, rule, instrName(ev.In, ev.Instr), ev.Pos, st, "a label is used")
				}
			}
			if ev.Kind != EvCall && ev.Kind != EvInvoke {
				return
			}
			c := instrName(ev.In, ev.Instr)
			if ev.Hit == 0 && ev.Res != nil && ev.Res.kind == KTuple {
				e.monSet(st, "libfail", 1)
			}
			var msg, hash *V
			h := ""
			switch ev.Name {
			case "append":
				if ch := st.mon["chunk"]; ch != nil && len(ev.Args) == 2 && ev.Args[1] == ch {
					acc := e.ghost(st, "acc")
					r.ob(ev.Args[0] == acc || acc.kind == KNil && e.bounds(st, e.lenOf(st, ev.Args[0], nil)).hi <= 0, rule, c, ev.Pos, st, "a part is not appended to the parts before it")
					e.setGhost(st, "acc", ev.Res)
					delete(st.mon, "chunk")
				}
				return
			case "crypto/rsa.EncryptOAEP":
				msg, hash = ev.Args[3], ev.Args[0]
				r.ob(e.isNil(st, ev.Args[4]) == 1, rule, c, ev.Pos, st, "a label is used")
			case "crypto/rsa.DecryptOAEP":
				msg, hash = ev.Args[3], ev.Args[0]
				r.ob(e.isNil(st, ev.Args[4]) == 1, rule, c, ev.Pos, st, "a label is used")
			case "(*crypto/rsa.PrivateKey).Decrypt":
				msg = ev.Args[2]
				if v := st.mon["opthash"]; v != nil {
					if n, ok := v.intVal(); ok {
						h = hashOfCrypto[n]
					}
				}
			default:
				return
			}
			if ev.Hit != 1 {
				return
			}
			if hash != nil {
				h = hashName(e, st, hash)
			}
			hashes[h] = true
			base, lo, n := e.span(msg)
			if n == nil {
				n = e.lenOf(st, msg, nil)
			}
			pos := e.ghost(st, "pos")
			nb := e.bounds(st, n)
			good := base == in && e.same(st, lo, pos) && st.mon["chunk"] == nil
			r.ob(good, rule, c, ev.Pos, st, "the part [%s:+%s] does not follow the bytes before %s", desc(lo), desc(n), desc(pos))
			if enc {
				r.ob(nb.hi <= k-66, rule, c, ev.Pos, st, "a part may have %d bytes, more than fit into the key", nb.hi)
			} else {
				full := nb.lo == k && nb.hi == k || nb.hi <= k && e.same(st, e.in.add(lo, n), e.lenOf(st, in, nil))
				r.ob(full, rule, c, ev.Pos, st, "a part has %d..%d bytes, the sender makes parts of %d", nb.lo, nb.hi, k)
			}
			e.setGhost(st, "pos", e.in.add(lo, n))
			if e.same(st, e.in.add(lo, n), e.lenOf(st, in, nil)) {
				e.monSet(st, "end", 1) // the last part is not confused with a full one
			}
			st.mon["chunk"] = ev.Res.args[0]
		},
		OnReturn: func(e *Eng, st *State, t *Task, ret []*V) {
			c := "return of " + fnName(fn)
			if e.isNil(st, ret[1]) != 1 {
				r.ob(monI(st, "libfail") == 1, rule, c, fn.Pos(), st, "it fails although no operation failed")
				return
			}
			acc := e.ghost(st, "acc")
			ok := e.same(st, e.ghost(st, "pos"), e.lenOf(st, in, nil)) && st.mon["chunk"] == nil && (e.same(st, ret[0], acc) || acc.kind == KNil && e.bounds(st, e.lenOf(st, ret[0], nil)).hi <= 0)
			r.ob(ok, rule, c, fn.Pos(), st, "the result is not made of all parts: %s bytes of %s are used, result %s", desc(e.ghost(st, "pos")), desc(e.lenOf(st, in, nil)), desc(ret[0]))
		},
	}, func(e *Eng) *Task {
		t := e.RootTask(fn)
		in = t.Args[len(t.Args)-1]
		t.St.mon["in"] = in
		e.setGhost(t.St, "pos", e.in.Int(0, nil))
		e.setGhost(t.St, "acc", e.in.Nil())
		return t
	})
	r.atLeast(rule, 2)
	return hashes
}

func init() {
	register(&Check{
		ID: "S01", Level: "other", Prep: true,
		Technique:   "path-sensitive abstract interpretation of both cipher directions over interval, byte-provenance and typestate domains, compared length class by length class (go/ssa)",
		Note:        "For every path of the sender's and of the receiver's cipher the set of payload lengths, the cipher, the exact make-up of the key and the layout are derived from the source; every pair of paths that can meet over a payload must agree.",
		Assumptions: []string{"the standard library's AES-GCM, RSA-OAEP and hashes invert as documented", "both ends run this code with the same session key"},
		NotCovered:  "which session key the two ends hold (handshake, C09).",
		Run: func(r *Report) {
			ro := r.p.roles()
			if !ro.need(r) {
				return
			}
			r.rule("Per path of encryption: interval of payload lengths, cipher, key (hash and the bytes hashed, traced to session key and bits of the packet number), growth and layout. Per path of decryption: the same over received lengths. Wherever an encryption interval, shifted by its growth, meets a decryption interval, cipher, key and layout are equal, and no decryption path refuses such a length by itself. Every key depends on the whole session key and on every bit of the number. Byte-wise ciphers combine byte i with key byte i mod key length for every i. RSA parts follow each other without gap, fit the key, have the key's size on the way back and use the same hash.")
			var enc, dec []cipherSpec
			for _, d := range []struct {
				fn    *ssa.Function
				specs *[]cipherSpec
			}{{ro.encPkt, &enc}, {ro.decPkt, &dec}} {
				d := d
				m := &cipherMon{r: r, ro: ro, fn: d.fn, enc: d.fn == ro.encPkt, specs: d.specs, construct: "return of " + fnName(d.fn)}
				r.run(m.rule(), func(e *Eng) *Task {
					t := e.RootTask(d.fn)
					n := len(t.Args)
					m.id, m.data = t.Args[n-2], t.Args[n-1]
					t.St.setBnd(e, m.id, iv{0, ro.limit - 1})
					t.St.mon["id"], t.St.mon["data"] = m.id, m.data
					e.setGhost(t.St, "pos", e.in.Int(0, nil))
					return t
				})
			}
			names := func(ss []cipherSpec) string {
				var o []string
				had := map[string]bool{}
				for _, s := range ss {
					if x := fmt.Sprint(s.len, s.mode, s.key, s.over); had[x] {
						continue
					} else {
						had[x] = true
					}
					o = append(o, fmt.Sprintf("%d..%d %s %s +%d %s", s.len.lo, s.len.hi, s.mode, s.key, s.over, s.layout))
				}
				sort.Strings(o)
				return strings.Join(o, "; ")
			}
			r.note = append(r.note, "encryption: "+names(enc), "decryption: "+names(dec))
			pos := ro.decPkt.Pos()
			nid := 0
			for 1<<nid < ro.limit {
				nid++
			}
			for _, s := range enc {
				if s.mode == "refused" {
					continue
				}
				c := fmt.Sprintf("payload of %d..%d bytes", s.len.lo, s.len.hi)
				why := dependsOnAll(s.key, nid)
				r.ob(why == "", "depends", c, ro.encPkt.Pos(), s.tr, "%s", why)
				w := iv{s.len.lo + s.over, addI(s.len.hi, s.over)}
				covered := false
				for _, d := range dec {
					if d.len.meet(w).empty() {
						continue
					}
					if d.mode == "refused" {
						r.ob(false, "agree", c, pos, d.tr, "the receiver refuses a payload of %d..%d bytes", d.len.lo, d.len.hi)
						continue
					}
					covered = true
					r.ob(d.mode == s.mode && d.key == s.key && d.layout == s.layout, "agree", c, pos, d.tr, "sent as %s with key %s %s, received as %s with key %s %s", s.mode, s.key, s.layout, d.mode, d.key, d.layout)
				}
				r.ob(covered, "agree", c, pos, s.tr, "no path of the receiver opens it")
			}
			// every length is handled by both
			r.ob(coversAll(enc), "total", "lengths handled by "+fnName(ro.encPkt), ro.encPkt.Pos(), nil, "some payload lengths have no path: %s", names(enc))
			r.atLeast("agree", 2)
			r.atLeast("depends", 2)
			r.atLeast("keystream", 1)
			r.atLeast("sealed", 1)
			r.atLeast("opened", 1)
			bits := r.p.rsaBits()
			r.ob(bits >= 1024 && bits%8 == 0, "rsa key", "size of the key pair", 0, nil, "the size of the key pair is %d", bits)
			ef, df := r.p.callerFn("(*crypt).encrypt", "crypto/rsa.EncryptOAEP"), r.p.callerFn("(*crypt).decrypt", "(*crypto/rsa.PrivateKey).Decrypt")
			if ef == nil || df == nil {
				r.fail("public-key transport not found")
				return
			}
			eh, dh := rsaChunks(r, ro, ef, true, bits), rsaChunks(r, ro, df, false, bits)
			same := len(eh) == 1 && len(dh) == 1
			for h := range eh {
				same = same && dh[h] && h == "crypto/sha256.New"
			}
			r.ob(same, "rsa hash", "hash of the public-key transport", df.Pos(), nil, "encryption uses %v, decryption %v", eh, dh)
		},
	})
}

func coversAll(ss []cipherSpec) bool {
	next := int64(1)
	for {
		grown := false
		for _, s := range ss {
			if s.mode != "refused" && s.len.lo <= next && s.len.hi >= next {
				if s.len.hi >= 65507-32 {
					return true
				}
				next = s.len.hi + 1
				grown = true
			}
		}
		if !grown {
			return false
		}
	}
}
