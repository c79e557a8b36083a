package main

// The parts of the program the rules talk about, found by name with a fallback
// on types and use.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type roles struct {
	p                                            *Program
	tru, channel, packet, connData, connPkt      *types.Named
	chans, truClosed, truConn, truKey, truTimer  *types.Var // Tru
	truReader, connectcb, readerCh, senderCh     *types.Var
	listenStop, truMu                            *types.Var
	chID, chExp, chReader, chTru, chAddr, chUUID *types.Var // Channel
	chCrypt                                      *types.Var
	pktID, pktStatus, pktData, pktTime           *types.Var // Packet
	pktDelivery, pktTimer, pktRT, pktRA          *types.Var
	recvMap, sendIndex, sendList, sendDestroyed  *types.Var
	retransmitTimer, destroyed, lastActivity     *types.Var
	connects, cdCh, cdWch, cdReader              *types.Var
	cpUUID, cpData                               *types.Var
	key                                          *types.Var
	serve, unmarshal, marshal, distance, newExp  *ssa.Function
	newID, encPkt, decPkt, combine, cpUnmarshal  *ssa.Function
	cpMarshal, writeTo, rawWrite, split          *ssa.Function
	limit                                        int64
	missing                                      []string
}

func (p *Program) roles() *roles {
	r := &roles{p: p}
	named := func(n string) *types.Named {
		t := p.structType("tru", n)
		if t == nil {
			r.missing = append(r.missing, "type "+n)
		}
		return t
	}
	field := func(t *types.Named, name string, typ string) *types.Var {
		if t == nil {
			return nil
		}
		if f := deepField(t, name); f != nil {
			return f
		}
		// the only field of that type
		var hit []*types.Var
		s, _ := t.Underlying().(*types.Struct)
		if s != nil && typ != "" {
			for i := 0; i < s.NumFields(); i++ {
				if strings.HasSuffix(s.Field(i).Type().String(), typ) {
					hit = append(hit, s.Field(i))
				}
			}
		}
		if len(hit) == 1 {
			return hit[0]
		}
		r.missing = append(r.missing, "field "+t.Obj().Name()+"."+name)
		return nil
	}
	fn := func(names ...string) *ssa.Function {
		for _, n := range names {
			if f := p.lookupFunc("tru", n); f != nil {
				return f
			}
		}
		r.missing = append(r.missing, "function "+names[0])
		return nil
	}
	r.tru, r.channel, r.packet = named("Tru"), named("Channel"), named("Packet")
	r.connData, r.connPkt = named("connectData"), named("connectPacketData")
	r.chans = field(r.tru, "channels", "]*"+modPath+".Channel")
	r.truClosed = field(r.tru, "closed", "bool")
	r.truConn = field(r.tru, "conn", "net.PacketConn")
	r.truKey = field(r.tru, "privateKey", "*crypto/rsa.PrivateKey")
	r.truTimer = field(r.tru, "statTimer", "*time.Timer")
	r.truReader = field(r.tru, "reader", modPath+".ReaderFunc")
	r.connectcb = field(r.tru, "connectcb", modPath+".ConnectFunc")
	r.readerCh = field(r.tru, "readerCh", "")
	r.senderCh = field(r.tru, "senderCh", "")
	r.listenStop = field(r.tru, "listenStop", "chan interface{}")
	r.truMu = field(r.tru, "mu", "sync.RWMutex")
	r.chID = field(r.channel, "id", "")
	r.chExp = field(r.channel, "expectedID", "")
	r.chReader = field(r.channel, "reader", modPath+".ReaderFunc")
	r.chTru = field(r.channel, "tru", "*"+modPath+".Tru")
	r.chAddr = field(r.channel, "addr", "net.Addr")
	r.chUUID = field(r.channel, "uuid", "string")
	r.pktID = field(r.packet, "id", "uint32")
	r.pktStatus = field(r.packet, "status", "uint8")
	r.pktData = field(r.packet, "data", "[]byte")
	r.pktTime = field(r.packet, "time", "")
	r.pktRT = field(r.packet, "retransmitTime", "")
	r.pktRA = field(r.packet, "retransmitAttempts", "int")
	r.pktDelivery = field(r.packet, "delivery", modPath+".PacketDeliveryFunc")
	r.pktTimer = field(r.packet, "deliveryTimer", "*time.Timer")
	r.recvMap = field(r.channel, "ma", "")
	r.sendIndex = field(r.channel, "index", "")
	r.sendList = field(r.channel, "queue", "container/list.List")
	r.retransmitTimer = field(r.channel, "retransmitTimer", "")
	if s := fieldTypeOf(r.channel, "stat"); s != nil {
		r.destroyed = fieldByName(s, "destroyed")
	}
	if s := fieldTypeOf(r.channel, "sendQueue"); s != nil {
		r.sendDestroyed = fieldByName(s, "destroyed")
	}
	if r.destroyed == nil {
		r.missing = append(r.missing, "field statistic.destroyed")
	}
	r.lastActivity = field(r.channel, "lastActivity", "")
	r.connects = field(r.tru, "connects", "")
	r.cdCh = field(r.connData, "ch", "*"+modPath+".Channel")
	r.cdWch = field(r.connData, "wch", "")
	r.cdReader = field(r.connData, "reader", modPath+".ReaderFunc")
	r.cpUUID = field(r.connPkt, "uuid", "")
	r.cpData = field(r.connPkt, "data", "")
	r.key = field(r.channel, "bytes", "")
	if r.channel != nil && r.key != nil {
		s := r.channel.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if n := derefNamed(s.Field(i).Type()); n != nil && n != r.tru && n != r.channel && deepField(n, r.key.Name()) == r.key {
				r.chCrypt = s.Field(i)
			}
		}
	}
	r.serve = fn("(*Tru).serve")
	r.unmarshal = fn("(*Packet).UnmarshalBinary")
	r.marshal = fn("(*Packet).MarshalBinary")
	r.distance = fn("(*Packet).distance")
	r.newExp = fn("(*Channel).newExpectedID")
	r.newID = fn("(*Channel).newID")
	r.encPkt = fn("(*crypt).encryptPacketData")
	r.decPkt = fn("(*crypt).decryptPacketData")
	r.combine = fn("(*combinePacket).packet")
	r.cpUnmarshal = fn("(*connectPacketData).UnmarshalBinary")
	r.cpMarshal = fn("(*connectPacketData).MarshalBinary")
	r.writeTo = fn("(*Channel).WriteTo")
	r.rawWrite = fn("(*Tru).WriteTo")
	r.split = fn("(*Channel).splitPacket")
	if n, ok := p.constInt("packetIDLimit"); ok {
		r.limit = n
	} else {
		r.missing = append(r.missing, "constant packetIDLimit")
	}
	return r
}

// need fails the check when one of the roles it uses was not found
func (r *roles) need(rep *Report) bool {
	for _, m := range r.missing {
		rep.fail("%s not found", m)
	}
	return len(r.missing) == 0
}

func (p *Program) constInt(name string) (int64, bool) {
	pk := p.pkgs["tru"]
	if pk == nil {
		return 0, false
	}
	c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

// status gives a packet status by name
func (r *roles) status(name string, def int64) int64 {
	if n, ok := r.p.constInt(name); ok {
		return n
	}
	return def
}

// deepField finds a field in a struct or in the module structs it contains
func deepField(t types.Type, name string) *types.Var {
	seen := map[types.Type]bool{}
	level := []types.Type{t}
	for len(level) > 0 {
		var next []types.Type
		for _, t := range level {
			if seen[t] {
				continue
			}
			seen[t] = true
			s, _ := t.Underlying().(*types.Struct)
			if s == nil {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return s.Field(i)
				}
			}
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if p, ok := ft.(*types.Pointer); ok && s.Field(i).Embedded() {
					ft = p.Elem()
				}
				if n, ok := ft.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
					next = append(next, ft)
				}
			}
		}
		level = next
	}
	return nil
}

func fieldTypeOf(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	if f := deepField(t, name); f != nil {
		return f.Type()
	}
	return nil
}

// ---------------------------------------------------------------- values

// loadedFrom is the field a value was loaded from
func loadedFrom(v *V) *types.Var {
	if v != nil && v.kind == KSym && len(v.args) > 0 {
		return fieldVar(v.args[0])
	}
	return nil
}

// addrField is the struct field an address designates (the innermost field for
// elements)
func addrField(a *V) *types.Var {
	for ; a != nil && (a.kind == KField || a.kind == KIndex); a = a.args[0] {
		if f := fieldVar(a); f != nil {
			return f
		}
	}
	return nil
}

// baseOf strips n fields from an address
func baseOf(a *V) *V {
	for a.kind == KField || a.kind == KIndex {
		a = a.args[0]
	}
	return a
}

// get reads a field of the struct that ptr points to
func (e *Eng) get(st *State, ptr *V, f *types.Var) *V {
	a := e.addrOf(ptr, f)
	if a == nil {
		return nil
	}
	return e.load(st, a, f.Type())
}

// set writes a field of the struct that ptr points to
func (e *Eng) set(st *State, ptr *V, f *types.Var, v *V) {
	if a := e.addrOf(ptr, f); a != nil {
		e.store(st, a, v, f.Type())
	}
}

// addrOf is the address of a field of the struct that ptr points to
func (e *Eng) addrOf(ptr *V, f *types.Var) *V {
	if ptr == nil || f == nil || ptr.typ == nil {
		return nil
	}
	var path func(s *types.Struct, a *V, d int) *V
	path = func(s *types.Struct, a *V, d int) *V {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i) == f {
				return e.in.FieldAddr(a, i, s)
			}
		}
		if d > 3 {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if n, ok := s.Field(i).Type().Underlying().(*types.Struct); ok && e.p.inModVar(s.Field(i)) {
				if x := path(n, e.in.FieldAddr(a, i, s), d+1); x != nil {
					return x
				}
			}
		}
		return nil
	}
	s := derefStruct(ptr.typ)
	if s == nil {
		return nil
	}
	return path(s, ptr, 0)
}

func (e *Eng) same(st *State, a, b *V) bool {
	return a != nil && b != nil && (a == b || e.truth(st, e.mkEq(a, b)) == 1)
}

func (e *Eng) differs(st *State, a, b *V) bool {
	return a != nil && b != nil && e.truth(st, e.mkEq(a, b)) == 0
}

func (e *Eng) isConst(st *State, v *V, n int64) bool {
	return v != nil && e.same(st, v, e.in.Int(n, nil))
}
