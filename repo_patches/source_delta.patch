From fdc6bec16f0816e457e3ab1886c7a40d91264253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 01/21] fix: call the delivery callback exactly once

The delivery timer was stored as a copy of the time.Timer, so stopping it on
ack had no effect and the callback was called again with a timeout error. It
was also attached after the packet had been put in the send queue.
---
 channel.go | 3 ++-
 packet.go  | 4 ++--
 tru.go     | 8 +++++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/channel.go b/channel.go
index 0679bd0..4b81bce 100644
--- a/channel.go
+++ b/channel.go
@@ -261,12 +261,13 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	// Add data packet to send queue and Set packet retransmit time
 	if status == statusData {
 		ch.setRetransmitTime(pac)
-		ch.sendQueue.add(pac)
 		if stat == statusData {
+			// Delivery should be set before the packet may be sent and answered
 			pac.SetDeliveryTimeout(deliveryTimeout)
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
 
diff --git a/packet.go b/packet.go
index 96e7c3a..b779905 100644
--- a/packet.go
+++ b/packet.go
@@ -48,7 +48,7 @@ type Packet struct {
 	retransmitAttempts int                // Packet retransmit attempts
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
-	deliveryTimer      time.Timer         // Packet delivery timeout timer
+	deliveryTimer      *time.Timer        // Packet delivery timeout timer
 	sync.RWMutex
 }
 
@@ -182,7 +182,7 @@ func (p *Packet) SetDelivery(delivery PacketDeliveryFunc) *Packet {
 	}
 	log.Debugvvv.Println("set delivery func, id", p.ID())
 	p.delivery = delivery
-	p.deliveryTimer = *time.AfterFunc(p.deliveryTimeout, func() {
+	p.deliveryTimer = time.AfterFunc(p.deliveryTimeout, func() {
 		// log.Error.Println("delivery timeout, id", p.ID())
 		err := errors.New("delivery timeout")
 		p.delivery(p, err)
diff --git a/tru.go b/tru.go
index dc58bd4..ef97c60 100644
--- a/tru.go
+++ b/tru.go
@@ -375,9 +375,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		ch.stat.setAckReceived()
 		log.Debugvv.Printf("got ack to packet id %d, trip time: %.3f ms", pac.ID(), float64(tt.Microseconds())/1000.0)
 		pac, ok := ch.sendQueue.delete(pac.ID())
-		// Execute packet delivery callback
-		if delivery := pac.Delivery(); ok && delivery != nil {
-			pac.deliveryTimer.Stop()
+		if !ok {
+			break
+		}
+		// Execute packet delivery callback if delivery timeout has not fired yet
+		if delivery := pac.Delivery(); delivery != nil && pac.deliveryTimer.Stop() {
 			go delivery(pac, nil)
 		}
 
-- 
2.43.0


From afc0baa1a2359f2b4ba2dc2c2f971908d84c9163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 02/21] fix: connect done packets can not block or crash the
 listener

A repeated ConnectDone blocked the listener goroutine forever (or panicked on
the closed wait channel), and one received before the server answer made
Connect return a nil channel without an error. A half-open channel was left
behind when Connect timed out.
---
 connect.go | 77 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/connect.go b/connect.go
index 22dbd57..b1cbd73 100644
--- a/connect.go
+++ b/connect.go
@@ -108,8 +108,12 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 
 	// Create wait connection channel and save connection data to map
 	wch := tru.connect.add(uuid)
-	defer tru.connect.delete(uuid)
-	defer close(wch)
+	defer func() {
+		// Destroy the half-open channel when connection was not established
+		if ch := tru.connect.delete(uuid); err != nil {
+			ch.destroy("channel connection error, destroy " + addr)
+		}
+	}()
 
 	// Send connect message
 	_, err = tru.WriteTo(pac, addr)
@@ -146,23 +150,43 @@ func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
 func (c *connect) add(uuid string) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	wch = make(chan *connectData)
+	wch = make(chan *connectData, 1)
 	c.connects[uuid] = &connectData{uuid, wch, nil}
 	return
 }
 
-// delete delete connection data from connections map
-func (c *connect) delete(uuid string) {
+// delete delete connection data from connections map and return its channel or
+// nil if the channel was not created
+func (c *connect) delete(uuid string) (ch *Channel) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	delete(c.connects, uuid)
+	if cd, ok := c.connects[uuid]; ok {
+		ch = cd.ch
+		delete(c.connects, uuid)
+	}
+	return
 }
 
-// get get connection data from connections map
-func (c *connect) get(uuid string) (cd *connectData, ok bool) {
+// get get copy of connection data from connections map
+func (c *connect) get(uuid string) (cd connectData, ok bool) {
 	c.m.RLock()
 	defer c.m.RUnlock()
-	cd, ok = c.connects[uuid]
+	p, ok := c.connects[uuid]
+	if ok {
+		cd = *p
+	}
+	return
+}
+
+// setChannel set channel of pending connection, return false if the connection
+// does not pending any more
+func (c *connect) setChannel(uuid string, ch *Channel) (ok bool) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	cd, ok := c.connects[uuid]
+	if ok {
+		cd.ch = ch
+	}
 	return
 }
 
@@ -229,26 +253,27 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			err = errors.New("wrong connect server answer packet")
 			return
 		}
-		cd.ch, err = tru.newChannel(addr)
+		var ch *Channel
+		ch, err = tru.newChannel(addr)
 		if err != nil {
 			return
 		}
 
 		// Got servers public key from packet
 		var data []byte
-		data, err = cd.ch.decrypt(cp.data)
+		data, err = ch.decrypt(cp.data)
 		if err != nil {
 			return
 		}
 		var pub *rsa.PublicKey
-		pub, err = cd.ch.crypt.bytesToPublicKey(data)
+		pub, err = ch.crypt.bytesToPublicKey(data)
 		if err != nil {
 			return
 		}
 
 		// Make session key
-		key := cd.ch.makeSesionKey()
-		cp.data, err = cd.ch.encrypt(pub, key)
+		key := ch.makeSesionKey()
+		cp.data, err = ch.encrypt(pub, key)
 		if err != nil {
 			return
 		}
@@ -259,10 +284,16 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
+		// Set session key and channel of this connection
+		ch.setSesionKey(key)
+		if !c.setChannel(cd.uuid, ch) {
+			ch.destroy("channel connection canceled, destroy " + addr.String())
+			return
+		}
+
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
-		cd.ch.writeToSender(pac)
-		cd.ch.setSesionKey(key)
+		ch.writeToSender(pac)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
@@ -319,8 +350,18 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Send connectData to client connect wait channel
-		cd.wch <- cd
+		// Skip done packet received before the server answer
+		if cd.ch == nil {
+			err = errors.New("connect done packet before server answer")
+			return
+		}
+
+		// Send connectData to client connect wait channel. The wait channel is
+		// buffered, so repeated done packet does not block here
+		select {
+		case cd.wch <- &cd:
+		default:
+		}
 
 	default:
 		err = errors.New("wrong packet status")
-- 
2.43.0


From 39ff8450bcf78b328287dda8af34cbbb871d4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 03/21] fix: stray and repeated handshake packets leave the
 connection intact

A ServerAnswer, ClientAnswer or ConnectDone with unknown identifier destroyed
the channel of its sender's address, a repeated one re-keyed or replaced it,
and a repeated or malformed connect packet restarted it.
---
 channel.go | 10 +++++++++
 connect.go | 66 +++++++++++++++++++++++++++++++++++++++++-------------
 tru.go     | 12 ++++------
 3 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/channel.go b/channel.go
index 4b81bce..8ccecd3 100644
--- a/channel.go
+++ b/channel.go
@@ -27,6 +27,7 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
+	uuid       string        // UUID of connection which created this channel
 	*crypt                   // Crypt module
 }
 
@@ -82,6 +83,15 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	return
 }
 
+// renewChannel create new tru channel by address, the existing channel with
+// this address is destroyed first because peer reconnected
+func (tru *Tru) renewChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err error) {
+	if ch, ok := tru.getChannel(addr.String()); ok {
+		ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+	}
+	return tru.newChannel(addr, serverMode...)
+}
+
 // getChannel get tru channel by address
 func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 	tru.mu.RLock()
diff --git a/connect.go b/connect.go
index b1cbd73..a3f6e6a 100644
--- a/connect.go
+++ b/connect.go
@@ -205,32 +205,46 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create new tru channel
-		var ch *Channel
-		ch, err = tru.newChannel(addr, true)
-		if err != nil {
+		// Skip repeated connect packet of existing connection
+		if ch, ok := tru.getChannel(addr.String()); ok && ch.uuid == string(cp.uuid) {
 			return
 		}
 
 		// Get public key
+		var crypt *crypt
+		crypt, err = tru.newCrypt()
+		if err != nil {
+			return
+		}
 		var pub []byte
-		pub, err = ch.publicKeyToBytes(&ch.privateKey.PublicKey)
+		pub, err = crypt.publicKeyToBytes(&crypt.privateKey.PublicKey)
 		if err != nil {
 			return
 		}
 
 		// Encrypt public key with received clients public key
 		var pubcli *rsa.PublicKey
-		pubcli, err = ch.bytesToPublicKey(cp.data)
+		pubcli, err = crypt.bytesToPublicKey(cp.data)
 		if err != nil {
 			return
 		}
-		cp.data, err = ch.encrypt(pubcli, pub)
+		cp.data, err = crypt.encrypt(pubcli, pub)
 		if err != nil {
 			return
 		}
 		var data []byte
 		data, err = cp.MarshalBinary()
+		if err != nil {
+			return
+		}
+
+		// Create new tru channel
+		var ch *Channel
+		ch, err = tru.renewChannel(addr, true)
+		if err != nil {
+			return
+		}
+		ch.uuid = string(cp.uuid)
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectServerAnswer).SetData(data)
@@ -253,27 +267,32 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			err = errors.New("wrong connect server answer packet")
 			return
 		}
-		var ch *Channel
-		ch, err = tru.newChannel(addr)
-		if err != nil {
+
+		// Skip repeated server answer
+		if cd.ch != nil {
 			return
 		}
 
 		// Got servers public key from packet
+		var crypt *crypt
+		crypt, err = tru.newCrypt()
+		if err != nil {
+			return
+		}
 		var data []byte
-		data, err = ch.decrypt(cp.data)
+		data, err = crypt.decrypt(cp.data)
 		if err != nil {
 			return
 		}
 		var pub *rsa.PublicKey
-		pub, err = ch.crypt.bytesToPublicKey(data)
+		pub, err = crypt.bytesToPublicKey(data)
 		if err != nil {
 			return
 		}
 
 		// Make session key
-		key := ch.makeSesionKey()
-		cp.data, err = ch.encrypt(pub, key)
+		key := crypt.makeSesionKey()
+		cp.data, err = crypt.encrypt(pub, key)
 		if err != nil {
 			return
 		}
@@ -284,7 +303,13 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Set session key and channel of this connection
+		// Create new tru channel, set its session key and connection
+		var ch *Channel
+		ch, err = tru.renewChannel(addr)
+		if err != nil {
+			return
+		}
+		ch.uuid = cd.uuid
 		ch.setSesionKey(key)
 		if !c.setChannel(cd.uuid, ch) {
 			ch.destroy("channel connection canceled, destroy " + addr.String())
@@ -308,17 +333,26 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 
 		// Get channel
 		ch, ok := tru.getChannel(addr.String())
-		if !ok {
+		if !ok || ch.uuid != string(cp.uuid) {
 			err = errors.New("connected channel does not exists")
 			return
 		}
 
+		// Skip repeated client answer
+		if ch.ison() {
+			return
+		}
+
 		// Decrypt and set session key
 		var key []byte
 		key, err = ch.decrypt(cp.data)
 		if err != nil {
 			return
 		}
+		if len(key) == 0 {
+			err = errors.New("wrong connect client answer packet")
+			return
+		}
 		ch.setSesionKey(key)
 
 		// Create output connect packet data
diff --git a/tru.go b/tru.go
index ef97c60..451c9f9 100644
--- a/tru.go
+++ b/tru.go
@@ -329,15 +329,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 
 	// Connect packets
 	case statusConnect, statusConnectServerAnswer, statusConnectClientAnswer, statusConnectDone:
-		// When got connect packet from existing channel we destroy this channel
-		// first becaus client reconnected
-		if channelExists && pac.Status() == statusConnect {
-			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
-		}
-		// Process connection packets
+		// Process connection packets. Wrong connection packets are skipped and
+		// does not touch existing channel
 		err := tru.connect.serve(tru, addr, pac)
-		if channelExists && err != nil {
-			ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+		if err != nil {
+			log.Debug.Printf("connection packet from %s skipped: %s\n", addr.String(), err)
 		}
 		return
 
-- 
2.43.0


From 93c93b7366c281e5b995e185151aac698dca3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 04/21] fix: call the connect callback unlocked and after the
 key exchange

It was called with the channels map locked, so that calling nearly any tru
function from it deadlocked, and before the session key was set, so that data
written to the new channel left in clear.
---
 channel.go | 5 -----
 connect.go | 5 +++++
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/channel.go b/channel.go
index 8ccecd3..fe47ed4 100644
--- a/channel.go
+++ b/channel.go
@@ -75,11 +75,6 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	}
 	tru.channels[addr.String()] = ch
 
-	// Channel connect to server callback
-	if ch.serverMode && ch.tru.connectcb != nil {
-		ch.tru.connectcb(ch, nil)
-	}
-
 	return
 }
 
diff --git a/connect.go b/connect.go
index a3f6e6a..16e5172 100644
--- a/connect.go
+++ b/connect.go
@@ -367,6 +367,11 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
 		ch.writeToSender(pac)
 
+		// Channel connect to server callback
+		if tru.connectcb != nil {
+			tru.connectcb(ch, nil)
+		}
+
 	// Got by client. Server answer to client with statusConnectDone packet
 	case statusConnectDone:
 
-- 
2.43.0


From d38f4821c36135a546d68f8036fc79774d8510e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 05/21] fix: tear a channel down exactly once and remove only
 itself

Coinciding causes notified the readers repeatedly, concurrent closes sent
several disconnects, and a late destroy removed the registration of a newer
channel with the same address.
---
 channel.go   | 23 ++++++++++++++++-------
 statistic.go | 11 +++++++++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/channel.go b/channel.go
index fe47ed4..fd9a84a 100644
--- a/channel.go
+++ b/channel.go
@@ -136,11 +136,17 @@ func (ch *Channel) setReader(reader ReaderFunc) {
 	ch.reader = reader
 }
 
-// destroy destroy channel
+// destroy destroy channel. Only the first call destroys the channel, all the
+// next does nothing
 func (ch *Channel) destroy(msg string) {
-	if ch == nil {
+	if ch == nil || !ch.stat.setDestroyed() {
 		return
 	}
+	ch.teardown(msg)
+}
+
+// teardown release resources of the channel which was marked as destroyed
+func (ch *Channel) teardown(msg string) {
 
 	// Send error event to readers
 	if ch.reader != nil {
@@ -158,19 +164,22 @@ func (ch *Channel) destroy(msg string) {
 	log.Connect.Println(msg)
 	ch.tru.statMsgs.add(msg)
 
-	// Delete channel from channels
+	// Delete channel from channels, the newer channel with the same address
+	// should not be deleted
 	ch.tru.mu.Lock()
 	defer ch.tru.mu.Unlock()
-	delete(ch.tru.channels, ch.addr.String())
+	if addr := ch.addr.String(); ch.tru.channels[addr] == ch {
+		delete(ch.tru.channels, addr)
+	}
 }
 
 // Close tru channel
 func (ch *Channel) Close() {
-	if ch.stat.isDestroyed() {
+	if !ch.stat.setDestroyed() {
 		return
 	}
 	ch.writeToDisconnect()
-	ch.destroy(fmt.Sprint("channel close, destroy ", ch.addr.String()))
+	ch.teardown(fmt.Sprint("channel close, destroy ", ch.addr.String()))
 }
 
 // Destroyed return true if channel is already destroyed
@@ -221,7 +230,7 @@ func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err er
 
 // writeTo writes a packet with status and data to channel
 func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ...int) (id int, err error) {
-	if ch.stat.isDestroyed() {
+	if ch.stat.isDestroyed() && stat != statusDisconnect {
 		err = ErrChannelDestroyed
 		return
 	}
diff --git a/statistic.go b/statistic.go
index f8dd38b..9fad5c1 100644
--- a/statistic.go
+++ b/statistic.go
@@ -65,7 +65,18 @@ func (s *statistic) destroy() {
 	s.checkActivityTimer.Stop()
 	s.sendSpeed.destroy()
 	s.recvSpeed.destroy()
+}
+
+// setDestroyed mark channel as destroyed, return false if it already destroyed
+func (s *statistic) setDestroyed() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	if s.destroyed {
+		return false
+	}
 	s.destroyed = true
+	return true
 }
 
 // isDestroyed return true if channel is already destroyed
-- 
2.43.0


From 643ee094f986b9698388f5e822e88f198d1a70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 06/21] fix: do not arm timers of a destroyed channel again

A timer callback already running when its channel was destroyed started the
timer again, and it never stopped.
---
 send_queue.go | 7 +++++++
 speed.go      | 7 +++++++
 statistic.go  | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/send_queue.go b/send_queue.go
index 181eeca..c3d7b09 100644
--- a/send_queue.go
+++ b/send_queue.go
@@ -18,6 +18,7 @@ type sendQueue struct {
 	index           map[uint32]*list.Element // Send queue index
 	sync.RWMutex                             // Send queue mutex
 	retransmitTimer *time.Timer              // Send queue retransmit Timer
+	destroyed       bool                     // Send queue is destroyed
 }
 
 const (
@@ -38,6 +39,7 @@ func (s *sendQueue) destroy() {
 	s.Lock()
 	defer s.Unlock()
 	s.retransmitTimer.Stop()
+	s.destroyed = true
 }
 
 // add packet to send queue
@@ -116,6 +118,11 @@ func (s *sendQueue) retransmit(ch *Channel) {
 	s.Lock()
 	defer s.Unlock()
 
+	// Does not start timer of destroyed queue
+	if s.destroyed {
+		return
+	}
+
 	s.retransmitTimer = time.AfterFunc( /* minRTT */ 100*time.Millisecond, func() {
 
 		s.RLock()
diff --git a/speed.go b/speed.go
index a85d407..a038708 100644
--- a/speed.go
+++ b/speed.go
@@ -19,6 +19,7 @@ type speed struct {
 	currentSum int
 	sumArray   [sumArrayLen]int
 	timer      *time.Timer
+	destroyed  bool
 	sync.RWMutex
 }
 
@@ -35,6 +36,7 @@ func (s *speed) destroy() {
 	if s.timer != nil {
 		s.timer.Stop()
 	}
+	s.destroyed = true
 }
 
 // get current speed
@@ -76,6 +78,11 @@ func (s *speed) process() {
 	s.Lock()
 	defer s.Unlock()
 
+	// Does not start timer of destroyed speed calculator
+	if s.destroyed {
+		return
+	}
+
 	s.timer = time.AfterFunc(100*time.Millisecond, func() {
 		s.add(false)
 		s.process()
diff --git a/statistic.go b/statistic.go
index 9fad5c1..c5925dc 100644
--- a/statistic.go
+++ b/statistic.go
@@ -191,6 +191,11 @@ func (s *statistic) checkActivity(inactive, keepalive func()) {
 	s.Lock()
 	defer s.Unlock()
 
+	// Does not start timer of destroyed channel
+	if s.destroyed {
+		return
+	}
+
 	s.checkActivityTimer = time.AfterFunc(checkInactiveAfter, func() {
 
 		lastActivity := s.getLastActivity()
-- 
2.43.0


From 692c73f479b468f37db33b4c68217e1fe70c20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 07/21] fix: Tru.Close may be called twice and releases its
 goroutines

The second Close panicked, the reader and sender goroutines and everything
blocked on their channels stayed forever, a running statistic callback started
its timer again, and channels created during Close were left open.
---
 channel.go   | 20 ++++++++++++++++----
 connect.go   | 18 ++++++++++++------
 statistic.go | 14 ++++++++++++--
 tru.go       | 42 +++++++++++++++++++++++++++++++++++++-----
 4 files changed, 77 insertions(+), 17 deletions(-)

diff --git a/channel.go b/channel.go
index fd9a84a..b79e7b9 100644
--- a/channel.go
+++ b/channel.go
@@ -41,6 +41,12 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
 
+	// Does not create new channels when tru closed
+	if tru.closed {
+		err = ErrTruClosed
+		return
+	}
+
 	msg := fmt.Sprint("new channel ", addr.String())
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
@@ -299,7 +305,7 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	}
 
 	// Send to write channel
-	ch.writeToSender(pac)
+	err = ch.writeToSender(pac)
 
 	return
 }
@@ -372,9 +378,15 @@ func (ch *Channel) writeToDisconnect() (err error) {
 	return
 }
 
-// writeToSender write packet to sender process channel
-func (ch *Channel) writeToSender(pac *Packet) {
-	ch.tru.senderCh <- senderChData{ch, pac}
+// writeToSender write packet to sender process channel, return error if tru
+// closed
+func (ch *Channel) writeToSender(pac *Packet) (err error) {
+	select {
+	case ch.tru.senderCh <- senderChData{ch, pac}:
+	case <-ch.tru.listenStop:
+		err = ErrTruClosed
+	}
+	return
 }
 
 // newID create new channels packet id
diff --git a/connect.go b/connect.go
index 16e5172..04125f8 100644
--- a/connect.go
+++ b/connect.go
@@ -122,7 +122,7 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	}
 
 	// Wait answer to connect message or timeout
-	ch, err = tru.connect.wait(wch)
+	ch, err = tru.connect.wait(wch, tru.listenStop)
 	if err != nil {
 		return
 	}
@@ -134,12 +134,15 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	return
 }
 
-// wait channel connected or timeout
-func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
+// wait channel connected, tru closed or timeout
+func (c *connect) wait(wch chan *connectData, stop chan interface{}) (ch *Channel, err error) {
 	select {
 	case cd := <-wch:
 		ch = cd.ch
 		return
+	case <-stop:
+		err = ErrTruClosed
+		return
 	case <-time.After(waitConnectionTimeout):
 		err = errors.New("can't connect to peer during timeout")
 		return
@@ -248,7 +251,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectServerAnswer).SetData(data)
-		ch.writeToSender(pac)
+		err = ch.writeToSender(pac)
 
 	// Got by client. Server answer to client with statusConnectServerAnswer
 	// packet with server public key
@@ -318,7 +321,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
-		ch.writeToSender(pac)
+		err = ch.writeToSender(pac)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
@@ -365,7 +368,10 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
-		ch.writeToSender(pac)
+		err = ch.writeToSender(pac)
+		if err != nil {
+			return
+		}
 
 		// Channel connect to server callback
 		if tru.connectcb != nil {
diff --git a/statistic.go b/statistic.go
index c5925dc..63d069b 100644
--- a/statistic.go
+++ b/statistic.go
@@ -401,13 +401,23 @@ func (tru *Tru) printStatistic(prnt bool) {
 	// Print statistic every 500 ms
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
-	tru.statTimer = time.AfterFunc(500*time.Millisecond, func() {
+	if tru.closed || tru.statTimer != nil {
+		return
+	}
+	var timer *time.Timer
+	timer = time.AfterFunc(500*time.Millisecond, func() {
 		str := getStat()
 		if prnt {
 			fmt.Print(str)
 		}
-		tru.printStatistic(prnt) // print next frame
+		// Print next frame if statistic was not stopped
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
+		if tru.statTimer == timer {
+			timer.Reset(500 * time.Millisecond)
+		}
 	})
+	tru.statTimer = timer
 }
 
 // StatisticPrintStop stop print statistic
diff --git a/tru.go b/tru.go
index 451c9f9..adfca94 100644
--- a/tru.go
+++ b/tru.go
@@ -40,6 +40,7 @@ type Tru struct {
 	maxDataLen int                 // Max data len in created packets, 0 - maximum UDP len
 	listenStop chan interface{}    // Tru listen wait stop channel
 	hotkey     *hotkey.Hotkey      // Hotkey menu
+	closed     bool                // Tru closed
 	mu         sync.RWMutex        // Channels map mutex
 }
 
@@ -184,8 +185,12 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	return
 }
 
-// Close tru listner and all connected channels
+// Close tru listner and all connected channels. The second and next calls does
+// nothing
 func (tru *Tru) Close() {
+	if !tru.setClosed() {
+		return
+	}
 
 	// Send error message to channel reader
 	if tru.reader != nil {
@@ -202,6 +207,18 @@ func (tru *Tru) Close() {
 	log.Connect.Println("tru closed")
 }
 
+// setClosed mark tru as closed, return false if it already closed
+func (tru *Tru) setClosed() bool {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
+
+	if tru.closed {
+		return false
+	}
+	tru.closed = true
+	return true
+}
+
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
 	tru.punchcb = punchcb
@@ -412,8 +429,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 				if pac == nil {
 					return
 				}
-				tru.readerCh <- readerChData{ch, pac, nil}
-				ch.stat.setRecv()
+				select {
+				case tru.readerCh <- readerChData{ch, pac, nil}:
+					ch.stat.setRecv()
+				case <-tru.listenStop:
+				}
 			}
 			sendToReader(ch, pac)
 			// ch.newExpectedID()
@@ -442,7 +462,13 @@ type readerChData struct {
 
 // readerProccess process received tru packets
 func (tru *Tru) readerProccess() {
-	for r := range tru.readerCh {
+	for {
+		var r readerChData
+		select {
+		case r = <-tru.readerCh:
+		case <-tru.listenStop:
+			return
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
@@ -470,7 +496,13 @@ type senderChData struct {
 
 // senderProccess process sended tru packets
 func (tru *Tru) senderProccess() {
-	for r := range tru.senderCh {
+	for {
+		var r senderChData
+		select {
+		case r = <-tru.senderCh:
+		case <-tru.listenStop:
+			return
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
-- 
2.43.0


From 6c9be05043c8ee0bebf3154060e6c90dc6e652dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 08/21] fix: New starts nothing before the endpoint is complete

The statistic timer and hotkey menu were started while parsing parameters: they
used the socket before it was opened and stayed running when New failed. The
socket stayed open when the private key could not be generated.
---
 tru.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tru.go b/tru.go
index adfca94..3307776 100644
--- a/tru.go
+++ b/tru.go
@@ -84,6 +84,8 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// Parse parameters
 	var logFilter teolog.Filter
 	var logLevel string
+	var startHotkey Hotkey
+	var startStat Stat
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -119,15 +121,11 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Start hokey menu
 		case Hotkey:
-			if v {
-				tru.hotkey = tru.newHotkey()
-			}
+			startHotkey = startHotkey || v
 
 		// Show statistic
 		case Stat:
-			if v {
-				tru.StatisticPrint()
-			}
+			startStat = startStat || v
 
 		// Private key
 		case *rsa.PrivateKey:
@@ -166,6 +164,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// }
 	tru.privateKey, err = GeneratePrivateKey()
 	if err != nil {
+		tru.conn.Close()
 		return
 	}
 
@@ -180,6 +179,14 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// start listen to incoming udp packets
 	go tru.listen()
 
+	// Start show statistic and hotkey menu
+	if startStat {
+		tru.StatisticPrint()
+	}
+	if startHotkey {
+		tru.hotkey = tru.newHotkey()
+	}
+
 	log.Connect.Println("tru created")
 
 	return
-- 
2.43.0


From 339e4df21cdf422d79f4d3219c69a259b684a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 09/21] fix: keep every datagram within the UDP limit

The default limit ignored the IP header, so the largest packets could not be
sent over IPv4, the MaxDataLenType parameter was not checked at all, and a
negative limit made WriteTo panic.
---
 packet.go | 4 ++--
 tru.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packet.go b/packet.go
index b779905..086b8b7 100644
--- a/packet.go
+++ b/packet.go
@@ -31,8 +31,8 @@ const (
 )
 
 const (
-	maxUdpDataLength = 65535 - 8 // Max packet 65535 - 8 byte header
-	cryptAesLength   = 28        // AES crypt delete from max len packet data
+	maxUdpDataLength = 65535 - 20 - 8 // Max packet 65535 - 20 byte IP header - 8 byte UDP header
+	cryptAesLength   = 28             // AES crypt delete from max len packet data
 )
 
 const packetIDLimit = 0x100000          // Number of packets id (max number + 1)
diff --git a/tru.go b/tru.go
index 3307776..7a861e3 100644
--- a/tru.go
+++ b/tru.go
@@ -133,7 +133,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Set max data length
 		case MaxDataLenType:
-			tru.maxDataLen = int(v)
+			tru.SetMaxDataLen(int(v))
 
 		// Wrong parameter
 		default:
@@ -240,7 +240,7 @@ func (tru *Tru) SetSendDelay(delay int) {
 func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
-	if maxDataLen < l {
+	if maxDataLen >= 0 && maxDataLen < l {
 		tru.maxDataLen = maxDataLen
 	}
 }
-- 
2.43.0


From 3de5ca4d194f10a69c6cb6fcb15b951c4e4c568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 10/21] fix: do not mix pieces of messages written concurrently

Concurrent WriteTo calls on one channel interleaved the pieces of their large
messages, and the receiver combined them into wrong messages.
---
 channel.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/channel.go b/channel.go
index b79e7b9..34feb21 100644
--- a/channel.go
+++ b/channel.go
@@ -12,6 +12,7 @@ import (
 	"math/rand"
 	"net"
 	"reflect"
+	"sync"
 	"time"
 )
 
@@ -28,6 +29,7 @@ type Channel struct {
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
 	uuid       string        // UUID of connection which created this channel
+	writeMu    sync.Mutex    // Keeps pieces of one message together
 	*crypt                   // Crypt module
 }
 
@@ -229,6 +231,8 @@ func (ch *Channel) ServerMode() bool {
 // PacketDeliveryFunc callback parameter is pac - pointer to send packet, and
 // err - timeout error or success if nil.
 func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err error) {
+	ch.writeMu.Lock()
+	defer ch.writeMu.Unlock()
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
-- 
2.43.0


From efcdd13e85cee656653c9376c478a51041ec5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 11/21] fix: make the session key from the cryptographic random
 generator

It was made by math/rand, which is predictable and may be seeded by the
application.
---
 connect.go |  6 +++++-
 crypt.go   | 26 +++-----------------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/connect.go b/connect.go
index 04125f8..64a1606 100644
--- a/connect.go
+++ b/connect.go
@@ -294,7 +294,11 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		}
 
 		// Make session key
-		key := crypt.makeSesionKey()
+		var key []byte
+		key, err = crypt.makeSesionKey()
+		if err != nil {
+			return
+		}
 		cp.data, err = crypt.encrypt(pub, key)
 		if err != nil {
 			return
diff --git a/crypt.go b/crypt.go
index fe7b8d2..08a3557 100644
--- a/crypt.go
+++ b/crypt.go
@@ -230,8 +230,9 @@ type sessionKey struct {
 }
 
 // makeSesionKey create new session key
-func (k sessionKey) makeSesionKey() (key []byte) {
-	key = k.newSHA256Hash()
+func (k sessionKey) makeSesionKey() (key []byte, err error) {
+	key = make([]byte, sha256.Size)
+	_, err = io.ReadFull(rand.Reader, key)
 	return
 }
 
@@ -277,31 +278,10 @@ func (k sessionKey) packetKey(id uint32, len int) []byte {
 	return hash.Sum(nil)
 }
 
-// newSHA256Hash generates a new SHA256 hash based on
-// a random number of characters.
-func (k sessionKey) newSHA256Hash(n ...int) []byte {
-	numRandomCharacters := 32
-	if len(n) > 0 {
-		numRandomCharacters = n[0]
-	}
-
-	randString := k.randomString(numRandomCharacters)
-
-	hash := sha256.New()
-	hash.Write([]byte(randString))
-
-	return hash.Sum(nil)
-}
-
 // func (k sessionKey) String() string {
 // 	return fmt.Sprintf("%x", k.bytes)
 // }
 
-// randomString generates n length random string of printable characters
-func (k sessionKey) randomString(n int) string {
-	return RandomString(n)
-}
-
 var characterRunes = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
 
 // randomString generates n length random string of printable characters
-- 
2.43.0


From 9873ae7561ac31e3c9467d2c64f4af6d69cb7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 12/21] fix: report failed socket writes and wrong address
 types from WriteTo

The error of the socket write was dropped, and an address of unsupported type
was ignored and a nil address used instead.
---
 tru.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tru.go b/tru.go
index 7a861e3..aa39d28 100644
--- a/tru.go
+++ b/tru.go
@@ -266,12 +266,15 @@ func (tru *Tru) WriteTo(data []byte, addri interface{}) (addr net.Addr, err erro
 		if err != nil {
 			return
 		}
-	case *net.UDPAddr:
+	case net.Addr:
 		addr = v
+	default:
+		err = fmt.Errorf("incorrect address type '%T'", addri)
+		return
 	}
 
 	// Write data to addr
-	tru.conn.WriteTo(data, addr)
+	_, err = tru.conn.WriteTo(data, addr)
 
 	return
 }
-- 
2.43.0


From f0576b283f7a8bef6b24f24b85298c7f52050a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 13/21] fix: report send queue figures of every channel in
 statistic

The goroutines which filled them wrote to the slice as it was before later
appends, so the figures of most channels were lost.
---
 statistic.go | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/statistic.go b/statistic.go
index 63d069b..e01c70e 100644
--- a/statistic.go
+++ b/statistic.go
@@ -236,27 +236,8 @@ type ChannelsStatistic []ChannelStatistic
 // Statistic get statistic
 func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 
-	var wg sync.WaitGroup
-	var mu sync.Mutex
-
-	// The Statistic function needs values from send queue and send queue needs
-	// values from statistic so they race. We use WaitGroup and goroutines which
-	// wait while send queue unlock and add values to ChannelsStatistic slice.
-	getRetransmitAttempts := func(stat ChannelsStatistic, ch *Channel, i int) {
-		wg.Add(1)
-		go func() {
-			mu.Lock()
-			defer mu.Unlock()
-			defer wg.Done()
-			// Add RTA and SQ to channel statistic slice
-			stat[i].RTA = ch.sendQueue.getRetransmitAttempts()
-			stat[i].SQ = uint(ch.sendQueue.len())
-		}()
-	}
-
 	// Append channels statistic to slice
-	var i int
-	mu.Lock()
+	var channels []*Channel
 	tru.mu.RLock()
 	for _, ch := range tru.channels {
 		ch.stat.RLock()
@@ -270,19 +251,24 @@ func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 			Recv: ch.stat.recv,
 			Rsec: int64(ch.stat.recvSpeed.get()),
 			Drop: ch.stat.drop,
-			// SQ:  get in getRetransmitAttempts()
+			// SQ:  get after unlock
 			RQ: uint(ch.recvQueue.len()),
-			// RTA: get in getRetransmitAttempts()
+			// RTA: get after unlock
 			Delay: ch.stat.sendDelay,
 			TT:    float64(ch.stat.tripTimeMidle.Microseconds()) / 1000.0,
 		})
 		ch.stat.RUnlock()
-		getRetransmitAttempts(stat, ch, i)
-		i++
+		channels = append(channels, ch)
 	}
 	tru.mu.RUnlock()
-	mu.Unlock()
-	wg.Wait()
+
+	// The Statistic function needs values from send queue and send queue needs
+	// values from statistic so they race. We get values from send queue when
+	// statistic unlocked.
+	for i, ch := range channels {
+		stat[i].RTA = ch.sendQueue.getRetransmitAttempts()
+		stat[i].SQ = uint(ch.sendQueue.len())
+	}
 
 	// Sort slice with channels statistic by address
 	sort.Slice(stat, func(i, j int) bool {
-- 
2.43.0


From bf5873c945ca290953a40aa573e68f688683ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 14/21] fix: log writer consumes suppressed lines

It returned a short write without an error for each line the filter rejects.
---
 teolog/teolog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teolog/teolog.go b/teolog/teolog.go
index bddfe5a..8be3580 100644
--- a/teolog/teolog.go
+++ b/teolog/teolog.go
@@ -256,7 +256,7 @@ func (w writer) Write(p []byte) (n int, err error) {
 		}
 	}
 	if len(w.l.filter) > 0 && !valid {
-		return
+		return len(p), nil
 	}
 	return os.Stdout.Write(p)
 }
-- 
2.43.0


From 3add1bd9e167a63c835eb7caaacd403a21aa4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 15/21] fix: neither send nor accept data without a session key

Before the key exchange was completed data packets were sent and accepted in
clear.
---
 channel.go | 4 ++++
 crypt.go   | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/channel.go b/channel.go
index 34feb21..0f0895c 100644
--- a/channel.go
+++ b/channel.go
@@ -272,6 +272,10 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 		id = ids[0]
 	}
 	if status == statusData {
+		if !ch.ison() {
+			err = errNoSessionKey
+			return
+		}
 		id = ch.newID()
 		data, err = ch.encryptPacketData(id, data)
 		if err != nil {
diff --git a/crypt.go b/crypt.go
index 08a3557..67fc3bc 100644
--- a/crypt.go
+++ b/crypt.go
@@ -33,6 +33,8 @@ type crypt struct {
 
 const bitSize = 1024 // 896
 
+var errNoSessionKey = errors.New("session key does not set")
+
 // newCrypt create and initialize trudp crypt module
 func (tru *Tru) newCrypt() (c *crypt, err error) {
 	c = new(crypt)
@@ -122,7 +124,8 @@ func (c crypt) decryptAES(key []byte, data []byte) (out []byte, err error) {
 // encryptPacketData encryp packet data with packet key
 func (c crypt) encryptPacketData(id int, data []byte) (out []byte, err error) {
 	if !c.ison() {
-		return data, nil
+		err = errNoSessionKey
+		return
 	}
 	l := len(data)
 	key := c.packetKey(uint32(id), l)
@@ -140,7 +143,8 @@ func (c crypt) encryptPacketData(id int, data []byte) (out []byte, err error) {
 // decryptPacketData decrypt packet data with packet key
 func (c crypt) decryptPacketData(id int, data []byte) (out []byte, err error) {
 	if !c.ison() {
-		return data, nil
+		err = errNoSessionKey
+		return
 	}
 	l := len(data)
 	key := c.packetKey(uint32(id), l)
-- 
2.43.0


From 4f39b66ac93476c1a14c59b746e551600622c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 16/21] fix: install readers before the channel is live, make
 Conn close safe

A message received between the connection and the installation of its reader by
Connect, Dial or Accept was acknowledged and lost. Coinciding closes of a Conn
panicked, Accept stayed blocked after the listener was closed, it blocked the
whole listener while no Accept was waiting, and Addr returned nil.
---
 connect.go |  28 +++++------
 tru_net.go | 143 ++++++++++++++++++++++++++++++++++-------------------
 2 files changed, 105 insertions(+), 66 deletions(-)

diff --git a/connect.go b/connect.go
index 64a1606..fdbe489 100644
--- a/connect.go
+++ b/connect.go
@@ -30,9 +30,10 @@ type connect struct {
 }
 
 type connectData struct {
-	uuid string
-	wch  chan *connectData
-	ch   *Channel
+	uuid   string
+	wch    chan *connectData
+	ch     *Channel
+	reader ReaderFunc
 }
 
 type connectPacketData struct {
@@ -107,7 +108,7 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	}
 
 	// Create wait connection channel and save connection data to map
-	wch := tru.connect.add(uuid)
+	wch := tru.connect.add(uuid, reader...)
 	defer func() {
 		// Destroy the half-open channel when connection was not established
 		if ch := tru.connect.delete(uuid); err != nil {
@@ -123,14 +124,6 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 
 	// Wait answer to connect message or timeout
 	ch, err = tru.connect.wait(wch, tru.listenStop)
-	if err != nil {
-		return
-	}
-
-	// Add reader to channel
-	if len(reader) > 0 {
-		ch.reader = reader[0]
-	}
 	return
 }
 
@@ -150,11 +143,15 @@ func (c *connect) wait(wch chan *connectData, stop chan interface{}) (ch *Channe
 }
 
 // add add connection data to connections map
-func (c *connect) add(uuid string) (wch chan *connectData) {
+func (c *connect) add(uuid string, reader ...ReaderFunc) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
 	wch = make(chan *connectData, 1)
-	c.connects[uuid] = &connectData{uuid, wch, nil}
+	cd := &connectData{uuid: uuid, wch: wch}
+	if len(reader) > 0 {
+		cd.reader = reader[0]
+	}
+	c.connects[uuid] = cd
 	return
 }
 
@@ -310,13 +307,14 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create new tru channel, set its session key and connection
+		// Create new tru channel, set its reader, session key and connection
 		var ch *Channel
 		ch, err = tru.renewChannel(addr)
 		if err != nil {
 			return
 		}
 		ch.uuid = cd.uuid
+		ch.setReader(cd.reader)
 		ch.setSesionKey(key)
 		if !c.setChannel(cd.uuid, ch) {
 			ch.destroy("channel connection canceled, destroy " + addr.String())
diff --git a/tru_net.go b/tru_net.go
index 9040972..aad91c4 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -21,7 +21,7 @@ type Trunet struct {
 	*Tru
 	accept acceptChannel
 }
-type acceptChannel chan *Channel
+type acceptChannel chan *Conn
 
 // Common tru object
 var truCommon struct {
@@ -43,12 +43,13 @@ func Dial(network, address string) (conn net.Conn, err error) {
 		return
 	}
 
-	ch, err := trunet.Connect(address)
+	// The reader should be set before the channel receives its first packet
+	c := newConn()
+	ch, err := trunet.Connect(address, c.reader)
 	if err != nil {
 		return
 	}
-	c := trunet.newConn(ch)
-	ch.setReader(c.reader)
+	c.setChannel(ch)
 	conn = c
 	return
 }
@@ -93,19 +94,12 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 
 // reader reads packets from connected peers
 func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
-	if conn.ch == nil {
-		return
-	}
 
 	// Check channel destroyed and close Conn (connection)
 	if err != nil {
 		if err == ErrChannelDestroyed {
-			err = conn.Close()
-			if err != nil {
-				// if connection already closed
-				return
-			}
-			// tru channel destroyed, connection closed
+			// tru channel destroyed, close connection
+			conn.shutdown()
 			return
 		}
 		// Some other errors (I think it never happens)
@@ -113,15 +107,12 @@ func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
 		return
 	}
 
-	defer func() {
-		if err := recover(); err != nil {
-			// This error happens if users application don't read data messages
-			// sent to it, when connection closed.
-			log.Debugvv.Println("send on closed channel panic occurred:", err)
-		}
-	}()
-
-	conn.read.ch <- pac.Data()
+	// Send data to users application. The application may close connection and
+	// don't read data messages sent to it
+	select {
+	case conn.read.ch <- pac.Data():
+	case <-conn.closed:
+	}
 
 	return
 }
@@ -131,20 +122,65 @@ func (t Trunet) connected(ch *Channel, err error) {
 	if err != nil {
 		return
 	}
-	t.accept <- ch
+
+	// The reader should be set before the channel receives its first packet
+	c := newConn()
+	c.setChannel(ch)
+	ch.setReader(c.reader)
+
+	// Wait Accept, it should not stop this tru listener
+	go func() {
+		select {
+		case t.accept <- c:
+		case <-ch.tru.listenStop:
+		}
+	}()
 }
 
 // Create new Conn object
-func (t Trunet) newConn(ch *Channel) *Conn {
-	return &Conn{ch, t.LocalAddr(), ch.Addr(), connRead{ch: make(connReadChan)}}
+func newConn() *Conn {
+	return &Conn{
+		closed: make(chan struct{}),
+		read:   connRead{ch: make(connReadChan)},
+	}
+}
+
+// setChannel set tru channel of this connection
+func (c *Conn) setChannel(ch *Channel) {
+	c.ch = ch
+	c.localAddr = ch.tru.LocalAddr()
+	c.remoteAddr = ch.Addr()
+}
+
+// shutdown mark connection as closed, return false if it already closed
+func (c *Conn) shutdown() bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	select {
+	case <-c.closed:
+		return false
+	default:
+		close(c.closed)
+		return true
+	}
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (t Trunet) Accept() (conn net.Conn, err error) {
-	ch := <-t.accept
-	c := t.newConn(ch)
-	ch.setReader(c.reader)
-	conn = c
+	// Check listener closed first
+	select {
+	case <-t.Tru.listenStop:
+		err = net.ErrClosed
+		return
+	default:
+	}
+
+	select {
+	case conn = <-t.accept:
+	case <-t.Tru.listenStop:
+		err = net.ErrClosed
+	}
 	return
 }
 
@@ -156,7 +192,7 @@ func (t Trunet) Close() (err error) {
 }
 
 // Addr returns the listener's network address.
-func (t Trunet) Addr() (addr net.Addr) { return }
+func (t Trunet) Addr() (addr net.Addr) { return t.LocalAddr() }
 
 // Conn is a generic stream-oriented network connection.
 //
@@ -166,11 +202,14 @@ type Conn struct {
 	localAddr  net.Addr
 	remoteAddr net.Addr
 	read       connRead
+	closed     chan struct{} // Closed when connection closed
+	mu         sync.Mutex    // Protects close of the closed channel
 }
 type connRead struct {
 	ch   connReadChan // Read channel receive data form tru channel reader
 	buf  []byte       // Read data which was not send in previuse call
 	cont bool         // Need send os.EOF
+	mu   sync.Mutex   // Allows one Read at a time
 }
 type connReadChan chan connReadChanData
 type connReadChanData []byte
@@ -179,6 +218,8 @@ type connReadChanData []byte
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (c *Conn) Read(b []byte) (n int, err error) {
+	c.read.mu.Lock()
+	defer c.read.mu.Unlock()
 
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
@@ -189,14 +230,22 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 
 	// Get data from reader
 	if len(c.read.buf) == 0 {
-		chanData, ok := <-c.read.ch
-		if !ok {
-			// Read channel closed
+		// Check connection closed first
+		select {
+		case <-c.closed:
+			err = ErrChannelDestroyed
+			return
+		default:
+		}
+
+		select {
+		case c.read.buf = <-c.read.ch:
+			c.read.cont = true
+		case <-c.closed:
+			// Connection closed
 			err = ErrChannelDestroyed
 			return
 		}
-		c.read.buf = chanData
-		c.read.cont = true
 	}
 
 	// Copy data to input slice
@@ -209,11 +258,7 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write writes data to the connection.
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
-func (c Conn) Write(b []byte) (n int, err error) {
-	if c.ch == nil {
-		err = ErrChannelDestroyed
-		return
-	}
+func (c *Conn) Write(b []byte) (n int, err error) {
 	_, err = c.ch.WriteTo(b)
 	if err == nil {
 		n = len(b)
@@ -225,24 +270,20 @@ func (c Conn) Write(b []byte) (n int, err error) {
 // Any blocked Read or Write operations will be unblocked and return errors.
 func (c *Conn) Close() (err error) {
 
-	if c.ch == nil {
+	if !c.shutdown() {
 		err = ErrChannelAlreadyDestroyed
 		return
 	}
-
-	ch := c.ch
-	c.ch = nil
-	ch.Close()
-	close(c.read.ch)
+	c.ch.Close()
 
 	return
 }
 
 // LocalAddr returns the local network address, if known.
-func (c Conn) LocalAddr() net.Addr { return c.localAddr }
+func (c *Conn) LocalAddr() net.Addr { return c.localAddr }
 
 // RemoteAddr returns the remote network address, if known.
-func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
+func (c *Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 
 // SetDeadline sets the read and write deadlines associated
 // with the connection. It is equivalent to calling both
@@ -265,16 +306,16 @@ func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 // the deadline after successful Read or Write calls.
 //
 // A zero value for t means I/O operations will not time out.
-func (c Conn) SetDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetDeadline(t time.Time) (err error) { return }
 
 // SetReadDeadline sets the deadline for future Read calls
 // and any currently-blocked Read call.
 // A zero value for t means Read will not time out.
-func (c Conn) SetReadDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetReadDeadline(t time.Time) (err error) { return }
 
 // SetWriteDeadline sets the deadline for future Write calls
 // and any currently-blocked Write call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means Write will not time out.
-func (c Conn) SetWriteDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetWriteDeadline(t time.Time) (err error) { return }
-- 
2.43.0


From 18a8f29c81d087368adc35db02235c695d17f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 17/21] fix: every listener gets its own endpoint and port

Listen reused the shared endpoint of earlier Listen or Dial calls: it ignored
the requested port and its Accept never returned. A Dial before any Listen
registered an accept queue nobody reads, and after the shared endpoint had been
closed every Listen and Dial failed.
---
 tru.go     |  8 ++++++++
 tru_net.go | 17 ++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/tru.go b/tru.go
index aa39d28..de2431c 100644
--- a/tru.go
+++ b/tru.go
@@ -226,6 +226,14 @@ func (tru *Tru) setClosed() bool {
 	return true
 }
 
+// isClosed return true if tru closed
+func (tru *Tru) isClosed() bool {
+	tru.mu.RLock()
+	defer tru.mu.RUnlock()
+
+	return tru.closed
+}
+
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
 	tru.punchcb = punchcb
diff --git a/tru_net.go b/tru_net.go
index aad91c4..bb67100 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -38,7 +38,7 @@ func Listen(network, address string) (listener net.Listener, err error) {
 // Dial connects to the address on the tru network
 func Dial(network, address string) (conn net.Conn, err error) {
 
-	trunet, err := newTrunet(":0", true)
+	trunet, err := newTrunet(":0", false)
 	if err != nil {
 		return
 	}
@@ -55,7 +55,10 @@ func Dial(network, address string) (conn net.Conn, err error) {
 }
 
 // newTrunet creates new Trunet object
-func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
+//
+// A listener always has its own tru object with its own port and connected
+// callback. All dialers use common tru object which is created again if closed.
+func newTrunet(address string, listener bool) (trunet *Trunet, err error) {
 	trunet = new(Trunet)
 
 	// Parse the address and get port value
@@ -77,13 +80,17 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 	truCommon.Lock()
 	defer truCommon.Unlock()
 	var truObj = truCommon.Tru
-	if !useTruCommon || truObj == nil {
-		truObj, err = New(port, trunet.connected, logLevel, Stat(showStats))
+	if listener || truObj == nil || truObj.isClosed() {
+		params := []interface{}{logLevel, Stat(showStats)}
+		if listener {
+			params = append(params, trunet.connected)
+		}
+		truObj, err = New(port, params...)
 		if err != nil {
 			err = fmt.Errorf("can't create new tru object, error: %s", err)
 			return
 		}
-		if useTruCommon {
+		if !listener {
 			truCommon.Tru = truObj
 		}
 	}
-- 
2.43.0


From d8c67b7b44df1ca5e0e9612b5aa6aafb63f59a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 18/21] fix: access shared state under its lock

---
 channel.go       | 36 ++++++++++++++++++++++++------------
 packet.go        |  8 ++++++++
 send_queue.go    |  2 +-
 statistic.go     | 16 ++++++++++++++++
 statistic_log.go |  5 ++++-
 tru.go           | 21 +++++++++++++++++----
 6 files changed, 70 insertions(+), 18 deletions(-)

diff --git a/channel.go b/channel.go
index 0f0895c..e749a87 100644
--- a/channel.go
+++ b/channel.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"math/rand"
 	"net"
-	"reflect"
 	"sync"
 	"time"
 )
@@ -22,6 +21,7 @@ type Channel struct {
 	id         uint32        // Next send ID
 	expectedID uint32        // Next expected ID
 	reader     ReaderFunc    // Channels reader
+	readerMu   sync.RWMutex  // Channels reader mutex
 	stat       statistic     // Statictic struct and receiver
 	sendQueue  sendQueue     // Send queue
 	recvQueue  receiveQueue  // Receive queue
@@ -79,7 +79,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	)
 	// Set default send delay in client mode
 	if !ch.serverMode {
-		ch.stat.sendDelay = tru.sendDelay
+		ch.stat.setSendDelay(tru.sendDelay)
 	}
 	tru.channels[addr.String()] = ch
 
@@ -123,10 +123,13 @@ func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 // ForEachChannel get each channel and call function f
 func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
 	tru.mu.RLock()
-	keys := reflect.ValueOf(tru.channels).MapKeys()
+	channels := make([]*Channel, 0, len(tru.channels))
+	for _, ch := range tru.channels {
+		channels = append(channels, ch)
+	}
 	tru.mu.RUnlock()
-	for i := range keys {
-		f(tru.channels[keys[i].String()])
+	for _, ch := range channels {
+		f(ch)
 	}
 }
 
@@ -141,9 +144,18 @@ func (tru *Tru) WriteToPunch(data []byte, addri interface{}) (addr net.Addr, err
 
 // setReader sets channels reafer
 func (ch *Channel) setReader(reader ReaderFunc) {
+	ch.readerMu.Lock()
+	defer ch.readerMu.Unlock()
 	ch.reader = reader
 }
 
+// getReader gets channels reader
+func (ch *Channel) getReader() ReaderFunc {
+	ch.readerMu.RLock()
+	defer ch.readerMu.RUnlock()
+	return ch.reader
+}
+
 // destroy destroy channel. Only the first call destroys the channel, all the
 // next does nothing
 func (ch *Channel) destroy(msg string) {
@@ -157,8 +169,8 @@ func (ch *Channel) destroy(msg string) {
 func (ch *Channel) teardown(msg string) {
 
 	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
+	if reader := ch.getReader(); reader != nil {
+		reader(ch, nil, ErrChannelDestroyed)
 	}
 	if ch.tru.reader != nil {
 		ch.tru.reader(ch, nil, ErrChannelDestroyed)
@@ -337,14 +349,14 @@ func (ch *Channel) writeToDelay(status int) {
 	// Get current delay
 	var chSendDelay = ch.stat.getSendDelay()
 	delay := time.Duration(chSendDelay) * time.Microsecond
-	if time.Since(ch.stat.lastDelayCheck) > 30*time.Millisecond {
+	if time.Since(ch.stat.getLastDelayCheck()) > 30*time.Millisecond {
 
 		// Claculate new delay
 		if retransmitDelayCount == 0 {
 			switch {
-			case ch.stat.sendDelay > 100:
+			case chSendDelay > 100:
 				chSendDelay -= 10
-			case ch.stat.sendDelay > minSendDelay:
+			case chSendDelay > minSendDelay:
 				chSendDelay -= 1
 			}
 		} else {
@@ -352,7 +364,7 @@ func (ch *Channel) writeToDelay(status int) {
 		}
 
 		// Set new delay
-		ch.stat.lastDelayCheck = time.Now()
+		ch.stat.setLastDelayCheck(time.Now())
 		ch.stat.setSendDelay(chSendDelay)
 	}
 
@@ -438,7 +450,7 @@ func (ch *Channel) setTripTime(id int) (tt time.Duration, err error) {
 	ch.stat.Lock()
 	defer ch.stat.Unlock()
 
-	tt = time.Since(pac.time)
+	tt = time.Since(pac.getTime())
 	ch.stat.tripTime = tt
 	if ch.stat.tripTimeMidle != 0 {
 		ch.stat.tripTimeMidle = (ch.stat.tripTimeMidle*9 + tt) / 10
diff --git a/packet.go b/packet.go
index 086b8b7..251a7cc 100644
--- a/packet.go
+++ b/packet.go
@@ -244,6 +244,14 @@ func (p *Packet) getRetransmitTime() (rtt time.Time) {
 	return p.retransmitTime
 }
 
+// getTime get time when packet was created or sent last time
+func (p *Packet) getTime() time.Time {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.time
+}
+
 // setRetransmitTime set retransmit time to packet
 func (p *Packet) setRetransmitTime(rtt time.Duration) {
 	p.Lock()
diff --git a/send_queue.go b/send_queue.go
index c3d7b09..ca98ea9 100644
--- a/send_queue.go
+++ b/send_queue.go
@@ -139,7 +139,7 @@ func (s *sendQueue) retransmit(ch *Channel) {
 			}
 
 			// Resend packet and set new retransmitTime
-			rta := pac.retransmitAttempts + 1
+			rta := pac.getRetransmitAttempts() + 1
 			pac.setRetransmitAttempts(rta)
 			if rta > maxRetransmitAttempts {
 				s.RUnlock()
diff --git a/statistic.go b/statistic.go
index e01c70e..098e388 100644
--- a/statistic.go
+++ b/statistic.go
@@ -168,6 +168,22 @@ func (s *statistic) getSendDelay() int {
 	return s.sendDelay
 }
 
+// setLastDelayCheck set channels last delay check time
+func (s *statistic) setLastDelayCheck(t time.Time) {
+	s.Lock()
+	defer s.Unlock()
+
+	s.lastDelayCheck = t
+}
+
+// getLastDelayCheck get channels last delay check time
+func (s *statistic) getLastDelayCheck() time.Time {
+	s.RLock()
+	defer s.RUnlock()
+
+	return s.lastDelayCheck
+}
+
 // setLastSend set channels last send time
 func (s *statistic) setLastSend(t time.Time) {
 	s.Lock()
diff --git a/statistic_log.go b/statistic_log.go
index b801668..a6edce5 100644
--- a/statistic_log.go
+++ b/statistic_log.go
@@ -44,7 +44,10 @@ func (s *statisticLog) len() int {
 
 // get and returt statistic log slice message by index
 func (s *statisticLog) get(i int) (msg string) {
-	if i < 0 || i >= s.len() {
+	s.RLock()
+	defer s.RUnlock()
+
+	if i < 0 || i >= len(s.msgs) {
 		return
 	}
 	return s.msgs[i]
diff --git a/tru.go b/tru.go
index de2431c..eda6977 100644
--- a/tru.go
+++ b/tru.go
@@ -236,11 +236,22 @@ func (tru *Tru) isClosed() bool {
 
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	tru.punchcb = punchcb
 }
 
+// getPunchCb get punch callback
+func (tru *Tru) getPunchCb() PunchFunc {
+	tru.mu.RLock()
+	defer tru.mu.RUnlock()
+	return tru.punchcb
+}
+
 // SetSendDelay set default (start) clients send delay
 func (tru *Tru) SetSendDelay(delay int) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	tru.sendDelay = delay
 }
 
@@ -249,6 +260,8 @@ func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
 	if maxDataLen >= 0 && maxDataLen < l {
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
 		tru.maxDataLen = maxDataLen
 	}
 }
@@ -375,8 +388,8 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 	// Punch packets: hi level software (f.e. teonet package) use punch packets
 	// to make p2p connection between tru clients
 	case statusPunch:
-		if tru.punchcb != nil {
-			tru.punchcb(addr, pac.Data())
+		if punchcb := tru.getPunchCb(); punchcb != nil {
+			punchcb(addr, pac.Data())
 		}
 		return
 
@@ -494,8 +507,8 @@ func (tru *Tru) readerProccess() {
 		}
 
 		// Execute channel reader
-		if r.ch.reader != nil {
-			if r.ch.reader(r.ch, r.pac, nil) {
+		if reader := r.ch.getReader(); reader != nil {
+			if reader(r.ch, r.pac, nil) {
 				continue
 			}
 		}
-- 
2.43.0


From 21961858da647e65ab03dca1932589f90d19a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 19/21] fix: guard the session key and do not share its memory

---
 crypt.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/crypt.go b/crypt.go
index 67fc3bc..c02d318 100644
--- a/crypt.go
+++ b/crypt.go
@@ -24,6 +24,7 @@ import (
 	"hash"
 	"io"
 	rnd "math/rand"
+	"sync"
 )
 
 type crypt struct {
@@ -56,7 +57,7 @@ func GeneratePrivateKey() (privateKey *rsa.PrivateKey, err error) {
 }
 
 // xorEncryptDecrypt encrypt or decrypt input data by input key
-func (c crypt) xorEncryptDecrypt(input, key []byte) {
+func (c *crypt) xorEncryptDecrypt(input, key []byte) {
 	kl := len(key)
 	for i := range input {
 		input[i] = input[i] ^ key[i%kl]
@@ -64,7 +65,7 @@ func (c crypt) xorEncryptDecrypt(input, key []byte) {
 }
 
 // encryptAES encrypt data using AES
-func (c crypt) encryptAES(key []byte, data []byte) (out []byte, err error) {
+func (c *crypt) encryptAES(key []byte, data []byte) (out []byte, err error) {
 
 	//Create a new Cipher Block from the key
 	block, err := aes.NewCipher(key)
@@ -95,7 +96,7 @@ func (c crypt) encryptAES(key []byte, data []byte) (out []byte, err error) {
 }
 
 // decryptAES decrypt data using AES
-func (c crypt) decryptAES(key []byte, data []byte) (out []byte, err error) {
+func (c *crypt) decryptAES(key []byte, data []byte) (out []byte, err error) {
 
 	//Create a new Cipher Block from the key
 	block, err := aes.NewCipher(key)
@@ -122,7 +123,7 @@ func (c crypt) decryptAES(key []byte, data []byte) (out []byte, err error) {
 }
 
 // encryptPacketData encryp packet data with packet key
-func (c crypt) encryptPacketData(id int, data []byte) (out []byte, err error) {
+func (c *crypt) encryptPacketData(id int, data []byte) (out []byte, err error) {
 	if !c.ison() {
 		err = errNoSessionKey
 		return
@@ -141,7 +142,7 @@ func (c crypt) encryptPacketData(id int, data []byte) (out []byte, err error) {
 }
 
 // decryptPacketData decrypt packet data with packet key
-func (c crypt) decryptPacketData(id int, data []byte) (out []byte, err error) {
+func (c *crypt) decryptPacketData(id int, data []byte) (out []byte, err error) {
 	if !c.ison() {
 		err = errNoSessionKey
 		return
@@ -157,7 +158,7 @@ func (c crypt) decryptPacketData(id int, data []byte) (out []byte, err error) {
 }
 
 // encrypt input data by RSA public key
-func (c crypt) encrypt(publicKey *rsa.PublicKey, in []byte) (data []byte, err error) {
+func (c *crypt) encrypt(publicKey *rsa.PublicKey, in []byte) (data []byte, err error) {
 	const splitby = 62 // 32
 	l := len(in)
 	e := func(i int) (e int) {
@@ -179,7 +180,7 @@ func (c crypt) encrypt(publicKey *rsa.PublicKey, in []byte) (data []byte, err er
 }
 
 // decrypt input data by RSA private key
-func (c crypt) decrypt(in []byte) (data []byte, err error) {
+func (c *crypt) decrypt(in []byte) (data []byte, err error) {
 	const splitby = 128 // 112
 	l := len(in)
 	e := func(i int) (e int) {
@@ -201,7 +202,7 @@ func (c crypt) decrypt(in []byte) (data []byte, err error) {
 }
 
 // publicKeyToBytes convert public key to bytes
-func (c crypt) publicKeyToBytes(key *rsa.PublicKey) (pub []byte, err error) {
+func (c *crypt) publicKeyToBytes(key *rsa.PublicKey) (pub []byte, err error) {
 	pubASN1, err := x509.MarshalPKIXPublicKey(key)
 	if err != nil {
 		return
@@ -211,7 +212,7 @@ func (c crypt) publicKeyToBytes(key *rsa.PublicKey) (pub []byte, err error) {
 }
 
 // bytesToPublicKey convert bytes to public key
-func (c crypt) bytesToPublicKey(pub []byte) (key *rsa.PublicKey, err error) {
+func (c *crypt) bytesToPublicKey(pub []byte) (key *rsa.PublicKey, err error) {
 	block, rest := pem.Decode(pub)
 	if block == nil {
 		err = fmt.Errorf("can't decode public key %v", rest)
@@ -231,10 +232,11 @@ func (c crypt) bytesToPublicKey(pub []byte) (key *rsa.PublicKey, err error) {
 
 type sessionKey struct {
 	bytes []byte
+	keyMu sync.RWMutex // Session key mutex
 }
 
 // makeSesionKey create new session key
-func (k sessionKey) makeSesionKey() (key []byte, err error) {
+func (k *sessionKey) makeSesionKey() (key []byte, err error) {
 	key = make([]byte, sha256.Size)
 	_, err = io.ReadFull(rand.Reader, key)
 	return
@@ -242,23 +244,33 @@ func (k sessionKey) makeSesionKey() (key []byte, err error) {
 
 // setSesionKey load session key from binary slice
 func (k *sessionKey) setSesionKey(key []byte) {
+	k.keyMu.Lock()
+	defer k.keyMu.Unlock()
 	k.bytes = key
 }
 
+// getSesionKey return current session key
+func (k *sessionKey) getSesionKey() []byte {
+	k.keyMu.RLock()
+	defer k.keyMu.RUnlock()
+	return k.bytes
+}
+
 // ison return true if connection established (and crypt enabled)
 // func (c *Channel) ison() bool {
 // 	return c.crypt != nil && c.crypt.ison()
 // }
 
 // ison return true if crypt enable
-func (c crypt) ison() bool {
-	return len(c.sessionKey.bytes) > 0
+func (c *crypt) ison() bool {
+	return len(c.getSesionKey()) > 0
 }
 
-func (k sessionKey) packetKey(id uint32, len int) []byte {
+func (k *sessionKey) packetKey(id uint32, len int) []byte {
 	b := make([]byte, 4)
 	binary.LittleEndian.PutUint32(b, id)
-	key := append(k.bytes, b...)
+	key := append([]byte{}, k.getSesionKey()...)
+	key = append(key, b...)
 	// Hash key depend of data len
 	//   md5:    16 byte
 	//   sha1:   20 byte
-- 
2.43.0


From 7335468a60fdd8509eee5debc6361149cd80d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 20/21] fix: guard the hotkey menu and read no key action after
 stop

---
 hotkey/hotkey.go | 58 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index a125522..f054331 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/teonet-go/tru/term"
 )
@@ -29,6 +30,7 @@ type Hotkey struct {
 	state         interface{}
 	stop          bool
 	stopactions   []func()
+	mu            sync.RWMutex
 }
 
 type hotkeyData struct {
@@ -63,17 +65,23 @@ func New() *Hotkey {
 // use in its hotkey menu. State is place where user can save its own menu
 // parameters
 func (h *Hotkey) SetState(state interface{}) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.state = state
 	return h
 }
 
 // State return saved user menu state
 func (h *Hotkey) State() interface{} {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
 	return h.state
 }
 
 // NextKeyAction set action which execute when key pressed nex time
 func (h *Hotkey) NextKeyAction(f func(ch []byte)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.nextKeyAction = f
 }
 
@@ -100,6 +108,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 	}
 
 	hd := &hotkeyData{keysAr, description, action}
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	for _, l := range keysAr {
 		h.hotkeys[string(l.Code)] = hd
 	}
@@ -108,6 +118,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 
 // AddUnknown add action function which executes when unknown key pressed
 func (h *Hotkey) AddUnknown(action func(h *Hotkey, ch []byte)) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.unknownKey = action
 	return h
 }
@@ -144,9 +156,11 @@ func (h *Hotkey) String() (str string) {
 	}
 
 	// Add hotkeyData to slice and sort it
+	h.mu.RLock()
 	for i := range h.hotkeys {
 		add(h.hotkeys[i])
 	}
+	h.mu.RUnlock()
 	sort()
 
 	// Add hotkeys and description to returns string
@@ -175,29 +189,40 @@ func (h *Hotkey) Run() *Hotkey {
 
 // Stop execute hotkey menu
 func (h *Hotkey) Stop() {
-	for _, f := range h.stopactions {
+	h.mu.Lock()
+	h.stop = true
+	stopactions := append([]func(){}, h.stopactions...)
+	h.mu.Unlock()
+	for _, f := range stopactions {
 		f()
 	}
-	h.stop = true
 }
 
 // SetStopAction set callback function which will run when hotkey menu Stop
 func (h *Hotkey) SetStopAction(f func()) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stopactions = append(h.stopactions, f)
 }
 
 // run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) run() {
-	for !h.stop {
+	for !h.stopped() {
 		ch := term.Getch()
-		if h.nextKeyAction != nil {
-			h.nextKeyAction(ch)
-			h.nextKeyAction = nil
+		// The menu may be stopped when it waits a key
+		if h.stopped() {
+			break
 		}
+		if nextKeyAction := h.takeNextKeyAction(); nextKeyAction != nil {
+			nextKeyAction(ch)
+		}
+		h.mu.RLock()
 		hd, ok := h.hotkeys[string(ch)]
+		unknownKey := h.unknownKey
+		h.mu.RUnlock()
 		if !ok {
-			if h.unknownKey != nil {
-				h.unknownKey(h, ch)
+			if unknownKey != nil {
+				unknownKey(h, ch)
 			}
 			continue
 		}
@@ -206,5 +231,22 @@ func (h *Hotkey) run() {
 		}
 		hd.action(h)
 	}
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stop = false
 }
+
+// stopped return true if hotkey menu was stopped
+func (h *Hotkey) stopped() bool {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+	return h.stop
+}
+
+// takeNextKeyAction return and clear action of this key
+func (h *Hotkey) takeNextKeyAction() (f func(ch []byte)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	f, h.nextKeyAction = h.nextKeyAction, nil
+	return
+}
-- 
2.43.0


From 9ac444f12e61261dfa27660942589eac56219518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 21/21] fix: guard log level and filter

---
 teolog/teolog.go | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/teolog/teolog.go b/teolog/teolog.go
index 8be3580..ef4c6d7 100644
--- a/teolog/teolog.go
+++ b/teolog/teolog.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"os"
 	"strings"
+	"sync"
 )
 
 // Log levels constant
@@ -42,6 +43,8 @@ type Teolog struct {
 	level    LogLevel
 	filter   Filter
 	writer   writer
+	levelMu  sync.RWMutex // Level mutex
+	filterMu sync.RWMutex // Filter mutex, it locks inside of loggers
 }
 
 type LogLevel int
@@ -95,6 +98,13 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 	case string:
 		level = l.levelFromStr(v)
 	}
+	l.levelMu.Lock()
+	defer l.levelMu.Unlock()
+	l.setLevel(level)
+}
+
+// setLevel set log level. The levelMu should be locked
+func (l *Teolog) setLevel(level LogLevel) {
 	l.level = level
 	for i, tl := range l.levels {
 		if LogLevel(i) < level {
@@ -107,26 +117,32 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 
 // Level return current log level
 func (l *Teolog) Level() LogLevel {
+	l.levelMu.RLock()
+	defer l.levelMu.RUnlock()
 	return l.level
 }
 
 // String return current log level in string
 func (l *Teolog) String() string {
-	return l.levelToStr(l.level)
+	return l.levelToStr(l.Level())
 }
 
 // SwitchLevel switch level to nexet and return level number
 func (l *Teolog) SwitchLevel() LogLevel {
-	l.level++
-	if l.level >= numLevels {
-		l.level = 0
+	l.levelMu.Lock()
+	defer l.levelMu.Unlock()
+	level := l.level + 1
+	if level >= numLevels {
+		level = 0
 	}
-	l.SetLevel(l.level)
-	return l.level
+	l.setLevel(level)
+	return level
 }
 
 // SetFilter set log filter
 func (l *Teolog) SetFilter(f interface{}) {
+	l.filterMu.Lock()
+	defer l.filterMu.Unlock()
 
 	switch v := f.(type) {
 	case Filter:
@@ -141,20 +157,30 @@ func (l *Teolog) SetFilter(f interface{}) {
 
 // ClearFilter clear log filter
 func (l *Teolog) ClearFilter() {
+	l.filterMu.Lock()
+	defer l.filterMu.Unlock()
 	l.filter = []string{}
 }
 
 // Filter return log filter
 func (l *Teolog) Filter() (str string) {
-	for i := range l.filter {
+	filter := l.getFilter()
+	for i := range filter {
 		if i > 0 {
 			str += " || "
 		}
-		str += l.filter[i]
+		str += filter[i]
 	}
 	return
 }
 
+// getFilter get log filter
+func (l *Teolog) getFilter() Filter {
+	l.filterMu.RLock()
+	defer l.filterMu.RUnlock()
+	return l.filter
+}
+
 // levelFromStr get level from string
 func (l *Teolog) levelFromStr(level string) LogLevel {
 	switch strings.ToLower(strings.TrimSpace(level)) {
@@ -249,13 +275,14 @@ type writer struct {
 // Write returns a non-nil error when n != len(b).
 func (w writer) Write(p []byte) (n int, err error) {
 	var valid bool
-	for _, f := range w.l.filter {
+	filter := w.l.getFilter()
+	for _, f := range filter {
 		if strings.Contains(string(p), f) {
 			valid = true
 			break
 		}
 	}
-	if len(w.l.filter) > 0 && !valid {
+	if len(filter) > 0 && !valid {
 		return len(p), nil
 	}
 	return os.Stdout.Write(p)
-- 
2.43.0

