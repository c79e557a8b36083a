import sys; sys.path.insert(0, '/verif/tools/seeds')
from pre import PRE
S = [
dict(id='c01-hold-window', property='C01',
 needs='a data packet that overtakes its predecessor by more than 2048 numbers',
 breaks='a packet far ahead of sequence is acknowledged but not held, so it never reaches the reader',
 edits=[('tru.go', '			if !ok {\n				ch.recvQueue.add(pac)\n', '			if !ok && dist <= 2048 {\n				ch.recvQueue.add(pac)\n')],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	var got msgs
	a := endpoint(t, got.reader)
	defer a.Close()
	b := endpoint(t)
	defer b.Close()
	ch, err := b.Connect(hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	var srv *Channel
	a.ForEachChannel(func(c *Channel) { srv = c })
	// what the peer sent, in the order 1..n, 0
	const n = 2100
	data := func(i int) []byte {
		d, err := ch.encryptPacketData(i, []byte(fmt.Sprint("m", i)))
		if err != nil {
			t.Fatal(err)
		}
		return rawDatagram(statusData, i, d)
	}
	for i := 1; i <= n; i++ {
		d := data(i)
		a.serve(len(d), srv.Addr(), d)
	}
	d := data(0)
	a.serve(len(d), srv.Addr(), d)
	if !until(5*time.Second, func() bool { return len(got.get()) >= n+1 }) {
		t.Fatalf("only %d of %d messages arrived", len(got.get()), n+1)
	}
	for i, m := range got.get() {
		if m != fmt.Sprint("m", i) {
			t.Fatalf("message %d is %q", i, m)
		}
	}
}
'''),
dict(id='c01-release-wrap', property='C01',
 needs='packets held ahead of a gap across the wrap of the sequence numbers',
 breaks='held packets are released by counting the number up without wrapping, so those after the wrap stay held',
 edits=[('receive_queue.go', '''	id := int(ch.expectedID)
	pac, ok := ch.recvQueue.get(id)
	if !ok {
		return
	}
	send(ch, pac)
	// ch.newExpectedID()
	ch.recvQueue.delete(id)

	return r.process(ch, send)
''', '''	for id := int(ch.expectedID); ; id++ {
		pac, ok := ch.recvQueue.get(id)
		if !ok {
			return
		}
		send(ch, pac)
		ch.recvQueue.delete(id)
	}
''')],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	var got msgs
	a := endpoint(t, got.reader)
	defer a.Close()
	b := endpoint(t)
	defer b.Close()
	ch, err := b.Connect(hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	var srv *Channel
	a.ForEachChannel(func(c *Channel) { srv = c })
	a.mu.Lock()
	srv.expectedID = packetIDLimit - 3
	a.mu.Unlock()
	in := func(id int, m string) {
		d, err := ch.encryptPacketData(id, []byte(m))
		if err != nil {
			t.Fatal(err)
		}
		d = rawDatagram(statusData, id, d)
		a.serve(len(d), srv.Addr(), d)
	}
	in(packetIDLimit-2, "b")
	in(packetIDLimit-1, "c")
	in(0, "d")
	in(1, "e")
	in(packetIDLimit-3, "a")
	if !until(3*time.Second, func() bool { return len(got.get()) >= 5 }) || strings.Join(got.get(), "") != "abcde" {
		t.Fatalf("got %v", got.get())
	}
}
'''),
dict(id='c02-ack-ahead', property='C02',
 needs='a duplicate of a packet that is already held ahead of sequence',
 breaks='a repeated packet that is already held is not acknowledged',
 edits=[('tru.go', '		ch.writeToAck(pac)\n		switch {\n', '		if _, held := ch.recvQueue.get(pac.ID()); !held {\n			ch.writeToAck(pac)\n		}\n		switch {\n')],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	defer a.Close()
	r := newRelay(t, a.LocalAddr())
	b := endpoint(t)
	defer b.Close()
	ch, err := b.Connect(r.c.LocalAddr().String())
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	acks, sent := 0, 0
	r.set(func(fromClient bool, st, id int, d []byte, send func([]byte)) {
		mu.Lock()
		defer mu.Unlock()
		switch {
		case fromClient && st == statusData && id == 0:
			return // lost
		case fromClient && st == statusData && id == 1:
			if sent == 0 {
				sent = 3
				send(d)
				send(d)
				send(d)
			}
			return
		case !fromClient && st == statusAck && id == 1:
			acks++
			return // the sender does not see it
		}
		send(d)
	})
	ch.WriteTo([]byte("zero"))
	ch.WriteTo([]byte("one"))
	ok := until(2*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return acks == 3 })
	if !ok {
		t.Fatalf("%d acknowledgements for %d datagrams", acks, sent)
	}
}
'''),
dict(id='c02-ack-consumed', property='C02',
 needs='a data packet that is the last piece of a split message',
 breaks='the acknowledgement of the final piece of a split message carries the number of the first piece',
 edits=[('tru.go', '		dist := pac.distance(ch.expectedID, pac.id)\n		ch.writeToAck(pac)\n', '		dist := pac.distance(ch.expectedID, pac.id)\n		if first := ch.combine.first; first != nil && dist == 0 && pac.status == statusData {\n			ch.writeToAck(first)\n		} else {\n			ch.writeToAck(pac)\n		}\n')],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	defer a.Close()
	r := newRelay(t, a.LocalAddr())
	b := endpoint(t, MaxDataLenType(100))
	defer b.Close()
	ch, err := b.Connect(r.c.LocalAddr().String())
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	data, acks := map[int]int{}, map[int]int{}
	r.set(func(fromClient bool, st, id int, d []byte, send func([]byte)) {
		mu.Lock()
		defer mu.Unlock()
		if fromClient && (st == statusData || st == statusDataNext) {
			data[id]++
		}
		if !fromClient && st == statusAck {
			acks[id]++
		}
		send(d)
	})
	ch.WriteTo(make([]byte, 350))
	time.Sleep(600 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if len(data) != 4 || fmt.Sprint(data) != fmt.Sprint(acks) {
		t.Fatalf("data %v acks %v", data, acks)
	}
}
'''),
dict(id='c08-public-key', property='C08',
 needs='a connect datagram that carries a well-formed public key of another kind than RSA',
 breaks='the type of the received public key is asserted without a test, so the listener panics',
 edits=[('crypt.go', "	key, ok := ifc.(*rsa.PublicKey)\n	if !ok {\n		err = errors.New(\"data is not public key\")\n	}\n	return\n", "	return ifc.(*rsa.PublicKey), nil\n")],
 test=PRE.replace('import (', 'import (\n\t"crypto/ecdsa"\n\t"crypto/elliptic"\n\tcrand "crypto/rand"\n\t"crypto/x509"\n\t"encoding/pem"') + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	defer a.Close()
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	der, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	cp := connectPacketData{[]byte("id"), pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})}
	d, _ := cp.MarshalBinary()
	c, err := net.Dial("udp", hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	c.Write(rawDatagram(statusConnect, 0, d))
	time.Sleep(300 * time.Millisecond)
	b := endpoint(t)
	defer b.Close()
	if _, err := b.Connect(hostport(a.LocalAddr())); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c08-uuid-slice', property='C08',
 needs='a handshake datagram whose length byte promises more identifier bytes than it carries',
 breaks='the identifier is sliced out of the received body without checking its length, so the listener panics',
 edits=[('connect.go', "	uuid := make([]byte, l)\n	err = binary.Read(buf, le, &uuid)\n	if err != nil {\n		return\n	}\n	c.uuid = uuid\n\n	if buflen := buf.Len(); buflen > 0 {\n		c.data = make([]byte, buflen)\n		err = binary.Read(buf, le, &c.data)\n		return\n	}\n	c.data = nil\n	return\n",
 "	rest := data[1:]\n	c.uuid = append([]byte{}, rest[:l]...)\n	c.data = nil\n	if len(rest) > int(l) {\n		c.data = append([]byte{}, rest[l:]...)\n	}\n	return\n")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	defer a.Close()
	c, err := net.Dial("udp", hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	c.Write(rawDatagram(statusConnectDone, 0, []byte{36, 'a', 'b'}))
	time.Sleep(300 * time.Millisecond)
	b := endpoint(t)
	defer b.Close()
	if _, err := b.Connect(hostport(a.LocalAddr())); err != nil {
		t.Fatal(err)
	}
}
'''),
]
