import sys; sys.path.insert(0, '/verif/tools/seeds')
from pre import PRE
S = [
dict(id='k01-attempts', property='K01', flags='-race',
 needs='a writer reads the attempt count of the oldest unacknowledged packet while the retransmit timer advances it',
 breaks='the attempt count of a queued packet is read without the packet lock',
 edits=[('packet.go', '	p.RLock()\n	defer p.RUnlock()\n\n	return p.retransmitAttempts\n', '	return p.retransmitAttempts\n')],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	defer a.Close()
	// a peer that never answers
	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	ch, err := a.newChannel(c.LocalAddr())
	if err != nil {
		t.Fatal(err)
	}
	ch.setSesionKey([]byte("key"))
	for e := time.Now().Add(1500 * time.Millisecond); time.Now().Before(e); time.Sleep(3 * time.Millisecond) {
		if _, err := ch.WriteTo([]byte("x")); err != nil {
			t.Fatal(err)
		}
	}
}
'''),
dict(id='k01-hold-len', property='K01', flags='-race',
 needs='a statistics snapshot is taken while packets are held ahead of sequence',
 breaks='the number of held packets is read without the lock of the receive queue',
 edits=[('receive_queue.go', 'func (r *receiveQueue) len() int {\n	r.RLock()\n	defer r.RUnlock()\n\n', 'func (r *receiveQueue) len() int {\n')],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	defer a.Close()
	c, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	ch, err := a.newChannel(c.LocalAddr())
	if err != nil {
		t.Fatal(err)
	}
	ch.setSesionKey([]byte("key"))
	go func() {
		for i := 1; i < 200; i++ {
			d, _ := ch.encryptPacketData(i, []byte("x"))
			c.WriteTo(rawDatagram(statusData, i, d), local(a.LocalAddr()))
			time.Sleep(time.Millisecond)
		}
	}()
	for i := 0; i < 300; i++ {
		a.Statistic()
		time.Sleep(time.Millisecond)
	}
}
'''),
dict(id='k02-stat-order', property='K02',
 needs='a statistics snapshot, a retransmit and a new write meet: the snapshot holds the statistic lock, the retransmit timer the queue lock, and a writer waits for the queue',
 breaks='the snapshot reads the send queue under the statistic lock, while the retransmit timer takes the two locks the other way round',
 edits=[('statistic.go', "			RQ: uint(ch.recvQueue.len()),\n			// RTA: get after unlock\n", "			RQ:    uint(ch.recvQueue.len()),\n			RTA:   ch.sendQueue.getRetransmitAttempts(),\n"),
  ('statistic.go', "		stat[i].RTA = ch.sendQueue.getRetransmitAttempts()\n", "")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	b := endpoint(t)
	ch, err := b.Connect(hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	// the retransmit timer walks over the queue
	ch.sendQueue.RLock()
	// a writer adds a packet
	go ch.sendQueue.add(b.newPacket().SetID(77))
	time.Sleep(100 * time.Millisecond)
	// somebody looks at the figures
	go b.Statistic()
	time.Sleep(100 * time.Millisecond)
	// the retransmit timer counts the packet it sent again
	within(t, 2*time.Second, "retransmit", func() { ch.stat.setRetransmit() })
	ch.sendQueue.RUnlock()
}
'''),
dict(id='k02-first-early', property='K02',
 needs='the send queue is empty when its first packet is asked for',
 breaks='the read lock of the send queue is kept when the queue is empty, the next write never returns',
 edits=[('send_queue.go', """	s.RLock()
	defer s.RUnlock()

	e := s.queue.Front()
	if e == nil {
		return
	}

	pac = e.Value.(*Packet)
	return
""", """	s.RLock()
	e := s.queue.Front()
	if e != nil {
		pac = e.Value.(*Packet)
		if pac.getRetransmitAttempts() > maxRetransmitAttempts {
			return nil
		}
	}
	s.RUnlock()
	return
""")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	b := endpoint(t)
	ch, err := b.Connect(hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	pac := b.newPacket().SetID(3)
	pac.setRetransmitTime(time.Hour)
	pac.setRetransmitAttempts(maxRetransmitAttempts + 1)
	ch.sendQueue.add(pac)
	within(t, 5*time.Second, "write", func() { ch.WriteTo([]byte("x")) })
}
'''),
dict(id='k03-delivery-locked', property='K03',
 needs='a delivery callback that itself writes to the connection',
 breaks='the delivery callback runs inside the removal from the send queue, with its lock held',
 edits=[('send_queue.go', """		log.Debugvvv.Println("delete from send queue", pac.ID())
	}
""", """		log.Debugvvv.Println("delete from send queue", pac.ID())
		if pac.Delivery() != nil && pac.deliveryTimer.Stop() {
			pac.Delivery()(pac, nil)
		}
	}
"""),
 ('tru.go', "		pac, ok := ch.sendQueue.delete(pac.ID())\n		if !ok {\n			break\n		}\n		// Execute packet delivery callback if delivery timeout has not fired yet\n		if delivery := pac.Delivery(); delivery != nil && pac.deliveryTimer.Stop() {\n			go delivery(pac, nil)\n		}\n", "		ch.sendQueue.delete(pac.ID())\n")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	var got msgs
	a := endpoint(t, got.reader)
	b := endpoint(t)
	ch, err := b.Connect(hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	ch.WriteTo([]byte("one"), func(pac *Packet, err error) { ch.WriteTo([]byte("two")) })
	if !until(3*time.Second, func() bool { return len(got.get()) == 2 }) {
		t.Fatalf("got %v", got.get())
	}
}
'''),
dict(id='k03-each-locked', property='K03',
 needs='a ForEachChannel callback that closes one connection of several',
 breaks='the user function runs with the lock of the endpoint held whenever there is more than one connection',
 edits=[('channel.go', """func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
	tru.mu.RLock()
""", """func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
	if tru.mu.RLock(); len(tru.channels) > 3 {
		// many channels: keep the list stable
		defer tru.mu.RUnlock()
		for _, ch := range tru.channels {
			f(ch)
		}
		return
	}
""")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	a := endpoint(t)
	for i := 0; i < 5; i++ {
		b := endpoint(t)
		if _, err := b.Connect(hostport(a.LocalAddr())); err != nil {
			t.Fatal(err)
		}
	}
	within(t, 4*time.Second, "ForEachChannel", func() {
		a.ForEachChannel(func(ch *Channel) { ch.Close() })
	})
}
'''),
dict(id='k04-conn-write', property='K04',
 needs='two goroutines write messages larger than the packet limit to one stream connection at once',
 breaks='stream writes split their message without the lock that keeps its pieces together',
 edits=[('tru_net.go', "	_, err = c.ch.WriteTo(b)\n	if err == nil {\n		n = len(b)\n	}\n	return\n", "	_, err = c.ch.splitPacket(b, func(p []byte, split int) (id int, err error) {\n		if id, err = c.ch.writeTo(p, statusData|split, nil); err == nil {\n			n += len(p)\n		}\n		return\n	})\n	return\n")],
 test=PRE + r'''
func TestDemo(t *testing.T) {
	var got msgs
	a := endpoint(t, got.reader)
	defer a.Close()
	c, err := Dial("tru", hostport(a.LocalAddr()))
	if err != nil {
		t.Fatal(err)
	}
	c.(*Conn).ch.maxDataLen = 20
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				c.Write(bytes.Repeat([]byte{byte('a' + g)}, 130))
			}
		}(g)
	}
	wg.Wait()
	until(5*time.Second, func() bool { return len(got.get()) >= 100 })
	for _, m := range got.get() {
		if m != strings.Repeat(m[:1], 130) {
			t.Fatalf("mixed message %q", m)
		}
	}
}
'''),
]
