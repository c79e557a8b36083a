import sys; sys.path.insert(0, '/verif/tools/seeds')
from pre import PRE
S = [
dict(id='a02-listener-close', property='A02',
 needs='an Accept that waits while the listener is closed',
 breaks='Close of a listener closes the socket only, so Accept waits for ever',
 edits=[('tru_net.go', "	t.Tru.Close()\n	return\n}", "	err = t.Tru.conn.Close()\n	return\n}")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	l, err := Listen("tru", ":0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		time.Sleep(100 * time.Millisecond)
		l.Close()
	}()
	within(t, 3*time.Second, "accept", func() {
		if _, err := l.Accept(); err == nil {
			t.Error("no error")
		}
	})
}
'''),
dict(id='l04-server-open', property='L04',
 needs='an endpoint that has accepted a connection and is closed',
 breaks='Close of an endpoint leaves the connections open that it has accepted: peers and readers are not told',
 edits=[('tru.go', "	tru.ForEachChannel(func(ch *Channel) { ch.Close() })\n", "	tru.ForEachChannel(func(ch *Channel) {\n		if !ch.serverMode {\n			ch.Close()\n		}\n	})\n")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	b := endpoint(t)
	defer b.Close()
	ch, err := b.Connect(hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(200 * time.Millisecond)
	a.Close()
	if !until(3*time.Second, ch.Destroyed) {
		t.Fatal("the peer of a closed endpoint is not told")
	}
}
'''),
dict(id='l03-disconnect-queued', property='L03',
 needs='a connection closed by the application',
 breaks='the disconnect packet goes through the sender queue, whose entries for closed connections are dropped, so the peer is not told',
 edits=[('channel.go', "		data, _ := pac.MarshalBinary()\n		_, err = ch.tru.WriteTo(data, ch.addr)\n		return", "		err = ch.writeToSender(pac)\n		return")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	defer a.Close()
	b := endpoint(t)
	defer b.Close()
	for i := 0; i < 3; i++ {
		ch, err := b.Connect(hostport(a.LocalAddr()))
		if err != nil {
			t.Fatal(err)
		}
		var srv *Channel
		if !until(2*time.Second, func() bool { a.ForEachChannel(func(c *Channel) { srv = c }); return srv != nil }) {
			t.Fatal("no connection")
		}
		time.Sleep(100 * time.Millisecond)
		ch.Close()
		if !until(2*time.Second, srv.Destroyed) {
			t.Fatal("the peer is not told that the connection was closed")
		}
	}
}
'''),
dict(id='a04-in-place', property='A04',
 needs='a message of up to 64 bytes whose buffer the caller uses again',
 breaks='short payloads are encrypted in the memory of the caller',
 edits=[('crypt.go', "		out = make([]byte, len(data))\n		copy(out, data)\n		c.xorEncryptDecrypt(out, key)\n", "		out = data[:l:l]\n		c.xorEncryptDecrypt(out, key)\n")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	var got msgs
	a := endpoint(t, got.reader)
	defer a.Close()
	b := endpoint(t)
	defer b.Close()
	ch, err := b.Connect(hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	d := []byte("the same message")
	for i := 0; i < 3; i++ {
		ch.WriteTo(d)
	}
	if string(d) != "the same message" {
		t.Fatalf("the bytes of the caller are %q", d)
	}
}
'''),
]
