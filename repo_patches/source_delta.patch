From acb0e86657dd9ed31bf23e2f17b9b1659fe79c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 01/36] verif hook: packet connection can be replaced in builds
 with tag verif

---
 tru.go           |  2 +-
 tru_not_verif.go | 10 ++++++++++
 tru_verif.go     | 17 +++++++++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)
 create mode 100644 tru_not_verif.go
 create mode 100644 tru_verif.go

diff --git a/tru.go b/tru.go
index dc58bd4..aff5bbb 100644
--- a/tru.go
+++ b/tru.go
@@ -154,7 +154,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	tru.listenStop = make(chan interface{})
 	tru.channels = make(map[string]*Channel)
 	tru.connect.connects = make(map[string]*connectData)
-	tru.conn, err = net.ListenPacket("udp", ":"+strconv.Itoa(port))
+	tru.conn, err = listenPacket("udp", ":"+strconv.Itoa(port))
 	if err != nil {
 		return
 	}
diff --git a/tru_not_verif.go b/tru_not_verif.go
new file mode 100644
index 0000000..235fbd0
--- /dev/null
+++ b/tru_not_verif.go
@@ -0,0 +1,10 @@
+//go:build !verif
+
+package tru
+
+import "net"
+
+// listenPacket opens the endpoint's packet connection
+func listenPacket(network, address string) (net.PacketConn, error) {
+	return net.ListenPacket(network, address)
+}
diff --git a/tru_verif.go b/tru_verif.go
new file mode 100644
index 0000000..880bce6
--- /dev/null
+++ b/tru_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+
+package tru
+
+import "net"
+
+// VerifListenPacket replaces net.ListenPacket in New when it is set. It exists
+// in verification builds only (build tag verif).
+var VerifListenPacket func(network, address string) (net.PacketConn, error)
+
+// listenPacket opens the endpoint's packet connection
+func listenPacket(network, address string) (net.PacketConn, error) {
+	if VerifListenPacket != nil {
+		return VerifListenPacket(network, address)
+	}
+	return net.ListenPacket(network, address)
+}
-- 
2.43.0


From 63e1614f656f2d3dd553d1c78389f9f6f05f01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 02/36] fix: delivery callback was called again with a timeout
 error after success

The delivery timer was a copy of the running one, so stopping it had no
effect: a message delivered in time got a second callback call at its timeout.
---
 channel.go | 2 +-
 packet.go  | 4 ++--
 tru.go     | 8 ++++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/channel.go b/channel.go
index 0679bd0..38ca2c9 100644
--- a/channel.go
+++ b/channel.go
@@ -261,12 +261,12 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	// Add data packet to send queue and Set packet retransmit time
 	if status == statusData {
 		ch.setRetransmitTime(pac)
-		ch.sendQueue.add(pac)
 		if stat == statusData {
 			pac.SetDeliveryTimeout(deliveryTimeout)
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
 
diff --git a/packet.go b/packet.go
index 96e7c3a..b779905 100644
--- a/packet.go
+++ b/packet.go
@@ -48,7 +48,7 @@ type Packet struct {
 	retransmitAttempts int                // Packet retransmit attempts
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
-	deliveryTimer      time.Timer         // Packet delivery timeout timer
+	deliveryTimer      *time.Timer        // Packet delivery timeout timer
 	sync.RWMutex
 }
 
@@ -182,7 +182,7 @@ func (p *Packet) SetDelivery(delivery PacketDeliveryFunc) *Packet {
 	}
 	log.Debugvvv.Println("set delivery func, id", p.ID())
 	p.delivery = delivery
-	p.deliveryTimer = *time.AfterFunc(p.deliveryTimeout, func() {
+	p.deliveryTimer = time.AfterFunc(p.deliveryTimeout, func() {
 		// log.Error.Println("delivery timeout, id", p.ID())
 		err := errors.New("delivery timeout")
 		p.delivery(p, err)
diff --git a/tru.go b/tru.go
index aff5bbb..281277b 100644
--- a/tru.go
+++ b/tru.go
@@ -376,8 +376,12 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		log.Debugvv.Printf("got ack to packet id %d, trip time: %.3f ms", pac.ID(), float64(tt.Microseconds())/1000.0)
 		pac, ok := ch.sendQueue.delete(pac.ID())
 		// Execute packet delivery callback
-		if delivery := pac.Delivery(); ok && delivery != nil {
-			pac.deliveryTimer.Stop()
+		if !ok {
+			break
+		}
+		// The callback has already been executed with timeout error if the
+		// delivery timer can't be stopped
+		if delivery := pac.Delivery(); delivery != nil && pac.deliveryTimer.Stop() {
 			go delivery(pac, nil)
 		}
 
-- 
2.43.0


From a021f0561d47b9f39862fae88a726274e876253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 03/36] fix: concurrent writes of split messages mixed their
 parts

Another writer's packet between the parts of a split message was joined into
that message by the receiver. Messages of a channel are written one at a time.
---
 channel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/channel.go b/channel.go
index 38ca2c9..d7501fe 100644
--- a/channel.go
+++ b/channel.go
@@ -12,6 +12,7 @@ import (
 	"math/rand"
 	"net"
 	"reflect"
+	"sync"
 	"time"
 )
 
@@ -27,6 +28,7 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
+	writeMu    sync.Mutex    // Messages are written one at a time
 	*crypt                   // Crypt module
 }
 
@@ -209,6 +211,10 @@ func (ch *Channel) ServerMode() bool {
 // PacketDeliveryFunc callback parameter is pac - pointer to send packet, and
 // err - timeout error or success if nil.
 func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err error) {
+	// Parts of a split message should go one after another
+	ch.writeMu.Lock()
+	defer ch.writeMu.Unlock()
+
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
-- 
2.43.0


From 991877300b95c2a8d7cafa771453f62364b76e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 04/36] fix: WriteTo returned the id of a middle part of a
 split message

The reader gets a split message under the id of its first part; WriteTo returned
the id of the last but one.
---
 split.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/split.go b/split.go
index 12cba66..a5b2e45 100644
--- a/split.go
+++ b/split.go
@@ -24,7 +24,10 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 			}
 			break
 		}
-		rid, err = writeTo(data[:maxDataLen], statusSplit)
+		id, err = writeTo(data[:maxDataLen], statusSplit)
+		if i == 0 {
+			rid = id
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From e3eca4d1ef81c658bd47d13910fc213735cbc8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 05/36] fix: delivery of a split message was reported when only
 its last part was acknowledged

---
 channel.go |  8 ++++++++
 packet.go  |  1 +
 split.go   | 33 +++++++++++++++++++++++++++++++++
 tru.go     |  6 ++++++
 4 files changed, 48 insertions(+)

diff --git a/channel.go b/channel.go
index d7501fe..313781d 100644
--- a/channel.go
+++ b/channel.go
@@ -215,6 +215,7 @@ func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err er
 	ch.writeMu.Lock()
 	defer ch.writeMu.Unlock()
 
+	delivery = append([]interface{}{new(messageParts)}, delivery...)
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
@@ -230,6 +231,7 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	// Parse delivery parameter
 	var deliveryFunc PacketDeliveryFunc
 	var deliveryTimeout time.Duration = DeliveryTimeout
+	var parts *messageParts
 	for _, i := range delivery {
 		switch v := i.(type) {
 		case PacketDeliveryFunc:
@@ -238,6 +240,8 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 			deliveryFunc = v
 		case time.Duration:
 			deliveryTimeout = v
+		case *messageParts:
+			parts = v
 		default:
 			err = errors.New("writeTo got wrong type of delivery parameter")
 			return
@@ -272,6 +276,10 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		if parts != nil {
+			pac.parts = parts
+			parts.add(pac, stat == statusData)
+		}
 		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
diff --git a/packet.go b/packet.go
index b779905..c578407 100644
--- a/packet.go
+++ b/packet.go
@@ -49,6 +49,7 @@ type Packet struct {
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
 	deliveryTimer      *time.Timer        // Packet delivery timeout timer
+	parts              *messageParts      // Parts of message this packet belongs to
 	sync.RWMutex
 }
 
diff --git a/split.go b/split.go
index a5b2e45..8ebf669 100644
--- a/split.go
+++ b/split.go
@@ -6,6 +6,8 @@
 
 package tru
 
+import "sync"
+
 // splitPacket split lage packet
 func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int) (int, error)) (rid int, err error) {
 	var id int
@@ -36,6 +38,37 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 	return
 }
 
+// messageParts counts not delivered parts of one message
+type messageParts struct {
+	waiting int     // Number of added and not delivered parts
+	last    *Packet // Last part of message
+	sync.Mutex
+}
+
+// add part of message
+func (m *messageParts) add(pac *Packet, last bool) {
+	m.Lock()
+	defer m.Unlock()
+
+	m.waiting++
+	if last {
+		m.last = pac
+	}
+}
+
+// delivered counts one delivered part and returns the last part of message when
+// all its parts delivered, or nil
+func (m *messageParts) delivered() (last *Packet) {
+	m.Lock()
+	defer m.Unlock()
+
+	m.waiting--
+	if m.waiting == 0 {
+		last = m.last
+	}
+	return
+}
+
 // combinePacket combine packet receiver and data structure
 type combinePacket struct {
 	combine bool
diff --git a/tru.go b/tru.go
index 281277b..74e89e9 100644
--- a/tru.go
+++ b/tru.go
@@ -379,6 +379,12 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		if !ok {
 			break
 		}
+		// Message is delivered when all its parts delivered
+		if pac.parts != nil {
+			if pac = pac.parts.delivered(); pac == nil {
+				break
+			}
+		}
 		// The callback has already been executed with timeout error if the
 		// delivery timer can't be stopped
 		if delivery := pac.Delivery(); delivery != nil && pac.deliveryTimer.Stop() {
-- 
2.43.0


From 12c035793c2c040905a7b5ec3e13acde5a49e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 06/36] fix: default packets of large messages were too long
 for UDP

Their datagrams could be 65527 bytes long, but UDP over IPv4 carries 65507, so
large messages were never sent.
---
 packet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet.go b/packet.go
index c578407..4e006a0 100644
--- a/packet.go
+++ b/packet.go
@@ -31,8 +31,8 @@ const (
 )
 
 const (
-	maxUdpDataLength = 65535 - 8 // Max packet 65535 - 8 byte header
-	cryptAesLength   = 28        // AES crypt delete from max len packet data
+	maxUdpDataLength = 65535 - 20 - 8 // Max packet 65535 - 20 byte IP header - 8 byte UDP header
+	cryptAesLength   = 28             // AES crypt delete from max len packet data
 )
 
 const packetIDLimit = 0x100000          // Number of packets id (max number + 1)
-- 
2.43.0


From 963861f6d03b9cef13ccff32938d56481de456f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 07/36] fix: max data length out of range made writes panic or
 unsendable packets

A negative length was accepted, and the parameter of New was not checked at all.
---
 tru.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tru.go b/tru.go
index 74e89e9..48a68f5 100644
--- a/tru.go
+++ b/tru.go
@@ -134,7 +134,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Set max data length
 		case MaxDataLenType:
-			tru.maxDataLen = int(v)
+			tru.SetMaxDataLen(int(v))
 
 		// Wrong parameter
 		default:
@@ -216,7 +216,7 @@ func (tru *Tru) SetSendDelay(delay int) {
 func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
-	if maxDataLen < l {
+	if maxDataLen >= 0 && maxDataLen < l {
 		tru.maxDataLen = maxDataLen
 	}
 }
-- 
2.43.0


From efdc9428d3a9787a5b0d56466bd4ad7bad1c555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 08/36] fix: ForEachChannel read the channels map without its
 mutex

A channel opened or closed meanwhile made it crash or call f with nil.
---
 channel.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 313781d..cb5a2bc 100644
--- a/channel.go
+++ b/channel.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"math/rand"
 	"net"
-	"reflect"
 	"sync"
 	"time"
 )
@@ -112,10 +111,13 @@ func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 // ForEachChannel get each channel and call function f
 func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
 	tru.mu.RLock()
-	keys := reflect.ValueOf(tru.channels).MapKeys()
+	channels := make([]*Channel, 0, len(tru.channels))
+	for _, ch := range tru.channels {
+		channels = append(channels, ch)
+	}
 	tru.mu.RUnlock()
-	for i := range keys {
-		f(tru.channels[keys[i].String()])
+	for _, ch := range channels {
+		f(ch)
 	}
 }
 
-- 
2.43.0


From 71c4a18b49e225ab610d387871297c0d4d112d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 09/36] fix: Statistic lost send queue lengths of all but the
 last channels

The slice grew while goroutines which fill these values kept its old arrays.
---
 statistic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statistic.go b/statistic.go
index f8dd38b..90a979c 100644
--- a/statistic.go
+++ b/statistic.go
@@ -242,6 +242,8 @@ func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 	var i int
 	mu.Lock()
 	tru.mu.RLock()
+	// Allocate all rows at once, the goroutines keep the slice
+	stat = make(ChannelsStatistic, 0, len(tru.channels))
 	for _, ch := range tru.channels {
 		ch.stat.RLock()
 		stat = append(stat, ChannelStatistic{
-- 
2.43.0


From 7e95952ea546746c819446488081e4f356941ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 10/36] fix: channel was destroyed several times, or with the
 channel which replaced it

Every cause which ended a channel notified the readers again (endlessly, if the
reader closed the channel), and removed whatever channel had the same address.
---
 channel.go   | 21 +++++++++++++++++----
 statistic.go | 13 +++++++++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index cb5a2bc..aa97029 100644
--- a/channel.go
+++ b/channel.go
@@ -141,6 +141,16 @@ func (ch *Channel) destroy(msg string) {
 		return
 	}
 
+	// Channel may be destroyed only once
+	if !ch.stat.setDestroyed() {
+		return
+	}
+	ch.finish(msg)
+}
+
+// finish stop and remove channel which was set destroyed just now
+func (ch *Channel) finish(msg string) {
+
 	// Send error event to readers
 	if ch.reader != nil {
 		ch.reader(ch, nil, ErrChannelDestroyed)
@@ -157,19 +167,22 @@ func (ch *Channel) destroy(msg string) {
 	log.Connect.Println(msg)
 	ch.tru.statMsgs.add(msg)
 
-	// Delete channel from channels
+	// Delete channel from channels, if it was not replaced by new one
 	ch.tru.mu.Lock()
 	defer ch.tru.mu.Unlock()
+	if ch.tru.channels[ch.addr.String()] != ch {
+		return
+	}
 	delete(ch.tru.channels, ch.addr.String())
 }
 
 // Close tru channel
 func (ch *Channel) Close() {
-	if ch.stat.isDestroyed() {
+	if !ch.stat.setDestroyed() {
 		return
 	}
 	ch.writeToDisconnect()
-	ch.destroy(fmt.Sprint("channel close, destroy ", ch.addr.String()))
+	ch.finish(fmt.Sprint("channel close, destroy ", ch.addr.String()))
 }
 
 // Destroyed return true if channel is already destroyed
@@ -225,7 +238,7 @@ func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err er
 
 // writeTo writes a packet with status and data to channel
 func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ...int) (id int, err error) {
-	if ch.stat.isDestroyed() {
+	if ch.stat.isDestroyed() && stat != statusDisconnect {
 		err = ErrChannelDestroyed
 		return
 	}
diff --git a/statistic.go b/statistic.go
index 90a979c..6f536ce 100644
--- a/statistic.go
+++ b/statistic.go
@@ -68,6 +68,19 @@ func (s *statistic) destroy() {
 	s.destroyed = true
 }
 
+// setDestroyed set channel destroyed and return true if it was not destroyed
+// before
+func (s *statistic) setDestroyed() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	if s.destroyed {
+		return false
+	}
+	s.destroyed = true
+	return true
+}
+
 // isDestroyed return true if channel is already destroyed
 func (s *statistic) isDestroyed() bool {
 	s.RLock()
-- 
2.43.0


From f081c900988f6d3626f348b32a67b06a5c6757ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 11/36] fix: timers of a destroyed channel could run forever

A timer function which ran while its channel was destroyed started its timer again.
---
 send_queue.go | 5 +++++
 speed.go      | 5 +++++
 statistic.go  | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/send_queue.go b/send_queue.go
index 181eeca..1eb278a 100644
--- a/send_queue.go
+++ b/send_queue.go
@@ -18,6 +18,7 @@ type sendQueue struct {
 	index           map[uint32]*list.Element // Send queue index
 	sync.RWMutex                             // Send queue mutex
 	retransmitTimer *time.Timer              // Send queue retransmit Timer
+	destroyed       bool                     // Send queue is destroyed
 }
 
 const (
@@ -37,6 +38,7 @@ func (s *sendQueue) init(ch *Channel) {
 func (s *sendQueue) destroy() {
 	s.Lock()
 	defer s.Unlock()
+	s.destroyed = true
 	s.retransmitTimer.Stop()
 }
 
@@ -116,6 +118,9 @@ func (s *sendQueue) retransmit(ch *Channel) {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.retransmitTimer = time.AfterFunc( /* minRTT */ 100*time.Millisecond, func() {
 
 		s.RLock()
diff --git a/speed.go b/speed.go
index a85d407..2a86cef 100644
--- a/speed.go
+++ b/speed.go
@@ -19,6 +19,7 @@ type speed struct {
 	currentSum int
 	sumArray   [sumArrayLen]int
 	timer      *time.Timer
+	destroyed  bool
 	sync.RWMutex
 }
 
@@ -32,6 +33,7 @@ func (s *speed) destroy() {
 	s.Lock()
 	defer s.Unlock()
 
+	s.destroyed = true
 	if s.timer != nil {
 		s.timer.Stop()
 	}
@@ -76,6 +78,9 @@ func (s *speed) process() {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.timer = time.AfterFunc(100*time.Millisecond, func() {
 		s.add(false)
 		s.process()
diff --git a/statistic.go b/statistic.go
index 6f536ce..c92ea39 100644
--- a/statistic.go
+++ b/statistic.go
@@ -193,6 +193,9 @@ func (s *statistic) checkActivity(inactive, keepalive func()) {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.checkActivityTimer = time.AfterFunc(checkInactiveAfter, func() {
 
 		lastActivity := s.getLastActivity()
-- 
2.43.0


From 15bbc3d097e2646f94e14b66d87d107e65b455cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 12/36] fix: Close left goroutines behind and panicked when
 called again

The reader and sender goroutines never ended, senders could block on them
forever, and a handshake in flight could open a channel of the closed tru.
---
 channel.go | 10 +++++++++-
 connect.go |  7 +++++--
 tru.go     | 31 ++++++++++++++++++++++++++++---
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/channel.go b/channel.go
index aa97029..64f4fbf 100644
--- a/channel.go
+++ b/channel.go
@@ -41,6 +41,11 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
 
+	if tru.closed {
+		err = ErrTruClosed
+		return
+	}
+
 	msg := fmt.Sprint("new channel ", addr.String())
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
@@ -388,7 +393,10 @@ func (ch *Channel) writeToDisconnect() (err error) {
 
 // writeToSender write packet to sender process channel
 func (ch *Channel) writeToSender(pac *Packet) {
-	ch.tru.senderCh <- senderChData{ch, pac}
+	select {
+	case ch.tru.senderCh <- senderChData{ch, pac}:
+	case <-ch.tru.listenStop:
+	}
 }
 
 // newID create new channels packet id
diff --git a/connect.go b/connect.go
index 22dbd57..c99494c 100644
--- a/connect.go
+++ b/connect.go
@@ -118,7 +118,7 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	}
 
 	// Wait answer to connect message or timeout
-	ch, err = tru.connect.wait(wch)
+	ch, err = tru.connect.wait(wch, tru.listenStop)
 	if err != nil {
 		return
 	}
@@ -131,7 +131,7 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 }
 
 // wait channel connected or timeout
-func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
+func (c *connect) wait(wch chan *connectData, stop chan interface{}) (ch *Channel, err error) {
 	select {
 	case cd := <-wch:
 		ch = cd.ch
@@ -139,6 +139,9 @@ func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
 	case <-time.After(waitConnectionTimeout):
 		err = errors.New("can't connect to peer during timeout")
 		return
+	case <-stop:
+		err = ErrTruClosed
+		return
 	}
 }
 
diff --git a/tru.go b/tru.go
index 48a68f5..4d95c67 100644
--- a/tru.go
+++ b/tru.go
@@ -39,6 +39,7 @@ type Tru struct {
 	privateKey *rsa.PrivateKey     // Common private key
 	maxDataLen int                 // Max data len in created packets, 0 - maximum UDP len
 	listenStop chan interface{}    // Tru listen wait stop channel
+	closed     bool                // Tru is closed
 	hotkey     *hotkey.Hotkey      // Hotkey menu
 	mu         sync.RWMutex        // Channels map mutex
 }
@@ -187,6 +188,15 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 // Close tru listner and all connected channels
 func (tru *Tru) Close() {
 
+	// Tru may be closed only once
+	tru.mu.Lock()
+	closed := tru.closed
+	tru.closed = true
+	tru.mu.Unlock()
+	if closed {
+		return
+	}
+
 	// Send error message to channel reader
 	if tru.reader != nil {
 		tru.reader(nil, nil, ErrTruClosed)
@@ -424,7 +434,10 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 				if pac == nil {
 					return
 				}
-				tru.readerCh <- readerChData{ch, pac, nil}
+				select {
+				case tru.readerCh <- readerChData{ch, pac, nil}:
+				case <-tru.listenStop:
+				}
 				ch.stat.setRecv()
 			}
 			sendToReader(ch, pac)
@@ -454,7 +467,13 @@ type readerChData struct {
 
 // readerProccess process received tru packets
 func (tru *Tru) readerProccess() {
-	for r := range tru.readerCh {
+	for {
+		var r readerChData
+		select {
+		case r = <-tru.readerCh:
+		case <-tru.listenStop:
+			return
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
@@ -482,7 +501,13 @@ type senderChData struct {
 
 // senderProccess process sended tru packets
 func (tru *Tru) senderProccess() {
-	for r := range tru.senderCh {
+	for {
+		var r senderChData
+		select {
+		case r = <-tru.senderCh:
+		case <-tru.listenStop:
+			return
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
-- 
2.43.0


From 0a9eeadc5d72108771b465d8437c1b955e9d7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 13/36] fix: statistic printing could not be stopped reliably,
 and started before tru was ready

Its function restarted the timer after a stop, a second start left two of them,
and it panicked when New failed or was slow to open the port.
---
 statistic.go | 22 ++++++++++++++++++++--
 tru.go       | 10 +++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/statistic.go b/statistic.go
index c92ea39..d40304b 100644
--- a/statistic.go
+++ b/statistic.go
@@ -403,13 +403,31 @@ func (tru *Tru) printStatistic(prnt bool) {
 	// Print statistic every 500 ms
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
-	tru.statTimer = time.AfterFunc(500*time.Millisecond, func() {
+	if tru.statTimer != nil {
+		tru.statTimer.Stop()
+	}
+	var timer *time.Timer
+	var running = func() bool {
+		tru.mu.RLock()
+		defer tru.mu.RUnlock()
+		return tru.statTimer == timer
+	}
+	timer = time.AfterFunc(500*time.Millisecond, func() {
+		if !running() {
+			return
+		}
 		str := getStat()
 		if prnt {
 			fmt.Print(str)
 		}
-		tru.printStatistic(prnt) // print next frame
+		// Print next frame if statistic was not stopped
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
+		if tru.statTimer == timer {
+			timer.Reset(500 * time.Millisecond)
+		}
 	})
+	tru.statTimer = timer
 }
 
 // StatisticPrintStop stop print statistic
diff --git a/tru.go b/tru.go
index 4d95c67..475db2f 100644
--- a/tru.go
+++ b/tru.go
@@ -84,6 +84,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// Parse parameters
 	var logFilter teolog.Filter
 	var logLevel string
+	var showStat bool
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -125,9 +126,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Show statistic
 		case Stat:
-			if v {
-				tru.StatisticPrint()
-			}
+			showStat = bool(v)
 
 		// Private key
 		case *rsa.PrivateKey:
@@ -180,6 +179,11 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// start listen to incoming udp packets
 	go tru.listen()
 
+	// Show statistic
+	if showStat {
+		tru.StatisticPrint()
+	}
+
 	log.Connect.Println("tru created")
 
 	return
-- 
2.43.0


From 6097f210aa5191eea9c213b6b081c5e33f6d6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 14/36] fix: data races on packet time, statistic log messages
 and tru settings

---
 channel.go       |  2 +-
 packet.go        |  8 ++++++++
 statistic_log.go |  5 ++++-
 tru.go           | 13 +++++++++++--
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 64f4fbf..fbc5c0b 100644
--- a/channel.go
+++ b/channel.go
@@ -440,7 +440,7 @@ func (ch *Channel) setTripTime(id int) (tt time.Duration, err error) {
 	ch.stat.Lock()
 	defer ch.stat.Unlock()
 
-	tt = time.Since(pac.time)
+	tt = time.Since(pac.getTime())
 	ch.stat.tripTime = tt
 	if ch.stat.tripTimeMidle != 0 {
 		ch.stat.tripTimeMidle = (ch.stat.tripTimeMidle*9 + tt) / 10
diff --git a/packet.go b/packet.go
index 4e006a0..40a9668 100644
--- a/packet.go
+++ b/packet.go
@@ -245,6 +245,14 @@ func (p *Packet) getRetransmitTime() (rtt time.Time) {
 	return p.retransmitTime
 }
 
+// getTime get time when packet was sent last
+func (p *Packet) getTime() time.Time {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.time
+}
+
 // setRetransmitTime set retransmit time to packet
 func (p *Packet) setRetransmitTime(rtt time.Duration) {
 	p.Lock()
diff --git a/statistic_log.go b/statistic_log.go
index b801668..a6edce5 100644
--- a/statistic_log.go
+++ b/statistic_log.go
@@ -44,7 +44,10 @@ func (s *statisticLog) len() int {
 
 // get and returt statistic log slice message by index
 func (s *statisticLog) get(i int) (msg string) {
-	if i < 0 || i >= s.len() {
+	s.RLock()
+	defer s.RUnlock()
+
+	if i < 0 || i >= len(s.msgs) {
 		return
 	}
 	return s.msgs[i]
diff --git a/tru.go b/tru.go
index 475db2f..353bd9e 100644
--- a/tru.go
+++ b/tru.go
@@ -218,11 +218,15 @@ func (tru *Tru) Close() {
 
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	tru.punchcb = punchcb
 }
 
 // SetSendDelay set default (start) clients send delay
 func (tru *Tru) SetSendDelay(delay int) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	tru.sendDelay = delay
 }
 
@@ -230,6 +234,8 @@ func (tru *Tru) SetSendDelay(delay int) {
 func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	if maxDataLen >= 0 && maxDataLen < l {
 		tru.maxDataLen = maxDataLen
 	}
@@ -358,8 +364,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 	// Punch packets: hi level software (f.e. teonet package) use punch packets
 	// to make p2p connection between tru clients
 	case statusPunch:
-		if tru.punchcb != nil {
-			tru.punchcb(addr, pac.Data())
+		tru.mu.RLock()
+		punchcb := tru.punchcb
+		tru.mu.RUnlock()
+		if punchcb != nil {
+			punchcb(addr, pac.Data())
 		}
 		return
 
-- 
2.43.0


From 96e08582b3dc9997983ef01302a32181d3a4b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 15/36] fix: data races on the level and filter of a logger

---
 teolog/teolog.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/teolog/teolog.go b/teolog/teolog.go
index bddfe5a..83b11f4 100644
--- a/teolog/teolog.go
+++ b/teolog/teolog.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"os"
 	"strings"
+	"sync"
 )
 
 // Log levels constant
@@ -42,6 +43,8 @@ type Teolog struct {
 	level    LogLevel
 	filter   Filter
 	writer   writer
+	mu       sync.RWMutex // Level mutex
+	filterMu sync.RWMutex // Filter mutex, locked by loggers
 }
 
 type LogLevel int
@@ -95,6 +98,13 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 	case string:
 		level = l.levelFromStr(v)
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	l.setLevel(level)
+}
+
+// setLevel set log level, the mutex should be locked
+func (l *Teolog) setLevel(level LogLevel) {
 	l.level = level
 	for i, tl := range l.levels {
 		if LogLevel(i) < level {
@@ -107,26 +117,32 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 
 // Level return current log level
 func (l *Teolog) Level() LogLevel {
+	l.mu.RLock()
+	defer l.mu.RUnlock()
 	return l.level
 }
 
 // String return current log level in string
 func (l *Teolog) String() string {
-	return l.levelToStr(l.level)
+	return l.levelToStr(l.Level())
 }
 
 // SwitchLevel switch level to nexet and return level number
 func (l *Teolog) SwitchLevel() LogLevel {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.level++
 	if l.level >= numLevels {
 		l.level = 0
 	}
-	l.SetLevel(l.level)
+	l.setLevel(l.level)
 	return l.level
 }
 
 // SetFilter set log filter
 func (l *Teolog) SetFilter(f interface{}) {
+	l.filterMu.Lock()
+	defer l.filterMu.Unlock()
 
 	switch v := f.(type) {
 	case Filter:
@@ -141,11 +157,15 @@ func (l *Teolog) SetFilter(f interface{}) {
 
 // ClearFilter clear log filter
 func (l *Teolog) ClearFilter() {
+	l.filterMu.Lock()
+	defer l.filterMu.Unlock()
 	l.filter = []string{}
 }
 
 // Filter return log filter
 func (l *Teolog) Filter() (str string) {
+	l.filterMu.RLock()
+	defer l.filterMu.RUnlock()
 	for i := range l.filter {
 		if i > 0 {
 			str += " || "
@@ -249,13 +269,16 @@ type writer struct {
 // Write returns a non-nil error when n != len(b).
 func (w writer) Write(p []byte) (n int, err error) {
 	var valid bool
-	for _, f := range w.l.filter {
+	w.l.filterMu.RLock()
+	filter := w.l.filter
+	w.l.filterMu.RUnlock()
+	for _, f := range filter {
 		if strings.Contains(string(p), f) {
 			valid = true
 			break
 		}
 	}
-	if len(w.l.filter) > 0 && !valid {
+	if len(filter) > 0 && !valid {
 		return
 	}
 	return os.Stdout.Write(p)
-- 
2.43.0


From b8fbe70b7abb7c1cdc4e8050ac0062b665ed266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 16/36] fix: reader passed to Connect missed the first messages
 of the channel

It was set when Connect was about to return, without synchronisation: messages
sent by the server at once went to the other reader or to nobody.
---
 channel.go | 14 ++++++++++++--
 connect.go | 25 ++++++++++++++-----------
 tru.go     |  4 ++--
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/channel.go b/channel.go
index fbc5c0b..58c1b51 100644
--- a/channel.go
+++ b/channel.go
@@ -21,6 +21,7 @@ type Channel struct {
 	id         uint32        // Next send ID
 	expectedID uint32        // Next expected ID
 	reader     ReaderFunc    // Channels reader
+	readerMu   sync.RWMutex  // Channels reader mutex
 	stat       statistic     // Statictic struct and receiver
 	sendQueue  sendQueue     // Send queue
 	recvQueue  receiveQueue  // Receive queue
@@ -137,9 +138,18 @@ func (tru *Tru) WriteToPunch(data []byte, addri interface{}) (addr net.Addr, err
 
 // setReader sets channels reafer
 func (ch *Channel) setReader(reader ReaderFunc) {
+	ch.readerMu.Lock()
+	defer ch.readerMu.Unlock()
 	ch.reader = reader
 }
 
+// getReader gets channels reader
+func (ch *Channel) getReader() ReaderFunc {
+	ch.readerMu.RLock()
+	defer ch.readerMu.RUnlock()
+	return ch.reader
+}
+
 // destroy destroy channel
 func (ch *Channel) destroy(msg string) {
 	if ch == nil {
@@ -157,8 +167,8 @@ func (ch *Channel) destroy(msg string) {
 func (ch *Channel) finish(msg string) {
 
 	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
+	if reader := ch.getReader(); reader != nil {
+		reader(ch, nil, ErrChannelDestroyed)
 	}
 	if ch.tru.reader != nil {
 		ch.tru.reader(ch, nil, ErrChannelDestroyed)
diff --git a/connect.go b/connect.go
index c99494c..ce4e466 100644
--- a/connect.go
+++ b/connect.go
@@ -30,9 +30,10 @@ type connect struct {
 }
 
 type connectData struct {
-	uuid string
-	wch  chan *connectData
-	ch   *Channel
+	uuid   string
+	wch    chan *connectData
+	ch     *Channel
+	reader ReaderFunc
 }
 
 type connectPacketData struct {
@@ -107,7 +108,7 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	}
 
 	// Create wait connection channel and save connection data to map
-	wch := tru.connect.add(uuid)
+	wch := tru.connect.add(uuid, reader...)
 	defer tru.connect.delete(uuid)
 	defer close(wch)
 
@@ -122,11 +123,6 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	if err != nil {
 		return
 	}
-
-	// Add reader to channel
-	if len(reader) > 0 {
-		ch.reader = reader[0]
-	}
 	return
 }
 
@@ -146,11 +142,15 @@ func (c *connect) wait(wch chan *connectData, stop chan interface{}) (ch *Channe
 }
 
 // add add connection data to connections map
-func (c *connect) add(uuid string) (wch chan *connectData) {
+func (c *connect) add(uuid string, reader ...ReaderFunc) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
 	wch = make(chan *connectData)
-	c.connects[uuid] = &connectData{uuid, wch, nil}
+	cd := &connectData{uuid: uuid, wch: wch}
+	if len(reader) > 0 {
+		cd.reader = reader[0]
+	}
+	c.connects[uuid] = cd
 	return
 }
 
@@ -237,6 +237,9 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
+		// Add reader to channel before it can get messages
+		cd.ch.setReader(cd.reader)
+
 		// Got servers public key from packet
 		var data []byte
 		data, err = cd.ch.decrypt(cp.data)
diff --git a/tru.go b/tru.go
index 353bd9e..f4979fa 100644
--- a/tru.go
+++ b/tru.go
@@ -494,8 +494,8 @@ func (tru *Tru) readerProccess() {
 		}
 
 		// Execute channel reader
-		if r.ch.reader != nil {
-			if r.ch.reader(r.ch, r.pac, nil) {
+		if reader := r.ch.getReader(); reader != nil {
+			if reader(r.ch, r.pac, nil) {
 				continue
 			}
 		}
-- 
2.43.0


From 82d44a1a8bf15c8528af86fa46ba7c0a46647ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 17/36] fix: repeated or late handshake packets crashed or
 blocked an endpoint and destroyed channels

A repeated ConnectDone was sent to a closed or unread channel, one without server
answer returned a nil channel, a repeated server answer made a second channel
with another key, and any late one destroyed the established channel. A Connect
which failed or repeated left its old channel behind.
---
 channel.go | 13 ++++++++++++
 connect.go | 59 +++++++++++++++++++++++++++++++++++++++++++++---------
 tru.go     |  2 +-
 3 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/channel.go b/channel.go
index 58c1b51..da5f9c2 100644
--- a/channel.go
+++ b/channel.go
@@ -12,6 +12,7 @@ import (
 	"math/rand"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -29,6 +30,7 @@ type Channel struct {
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
 	writeMu    sync.Mutex    // Messages are written one at a time
+	connected  atomic.Bool   // Session key is set
 	*crypt                   // Crypt module
 }
 
@@ -150,6 +152,17 @@ func (ch *Channel) getReader() ReaderFunc {
 	return ch.reader
 }
 
+// setConnected set session key of channel, it can send and receive data now
+func (ch *Channel) setConnected(key []byte) {
+	ch.setSesionKey(key)
+	ch.connected.Store(true)
+}
+
+// isConnected return true if channel has session key
+func (ch *Channel) isConnected() bool {
+	return ch.connected.Load()
+}
+
 // destroy destroy channel
 func (ch *Channel) destroy(msg string) {
 	if ch == nil {
diff --git a/connect.go b/connect.go
index ce4e466..763004c 100644
--- a/connect.go
+++ b/connect.go
@@ -11,6 +11,7 @@ import (
 	"crypto/rsa"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"net"
 	"sync"
 	"time"
@@ -110,7 +111,6 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	// Create wait connection channel and save connection data to map
 	wch := tru.connect.add(uuid, reader...)
 	defer tru.connect.delete(uuid)
-	defer close(wch)
 
 	// Send connect message
 	_, err = tru.WriteTo(pac, addr)
@@ -121,6 +121,10 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	// Wait answer to connect message or timeout
 	ch, err = tru.connect.wait(wch, tru.listenStop)
 	if err != nil {
+		// Close channel of unsuccessful connection
+		if cd, ok := tru.connect.delete(uuid); ok && cd.ch != nil {
+			cd.ch.Close()
+		}
 		return
 	}
 	return
@@ -145,7 +149,7 @@ func (c *connect) wait(wch chan *connectData, stop chan interface{}) (ch *Channe
 func (c *connect) add(uuid string, reader ...ReaderFunc) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	wch = make(chan *connectData)
+	wch = make(chan *connectData, 1)
 	cd := &connectData{uuid: uuid, wch: wch}
 	if len(reader) > 0 {
 		cd.reader = reader[0]
@@ -155,10 +159,12 @@ func (c *connect) add(uuid string, reader ...ReaderFunc) (wch chan *connectData)
 }
 
 // delete delete connection data from connections map
-func (c *connect) delete(uuid string) {
+func (c *connect) delete(uuid string) (cd *connectData, ok bool) {
 	c.m.Lock()
 	defer c.m.Unlock()
+	cd, ok = c.connects[uuid]
 	delete(c.connects, uuid)
+	return
 }
 
 // get get connection data from connections map
@@ -169,6 +175,16 @@ func (c *connect) get(uuid string) (cd *connectData, ok bool) {
 	return
 }
 
+// setChannel set channel of connection data if it is still in connections map
+func (c *connect) setChannel(cd *connectData, ch *Channel) (ok bool) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	if _, ok = c.connects[cd.uuid]; ok {
+		cd.ch = ch
+	}
+	return
+}
+
 // serve process connect packets
 func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 	switch pac.Status() {
@@ -227,15 +243,27 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		}
 
 		// Get connection data from connection map and create new tru channel
-		cd, ok := c.get(string(cp.uuid))
-		if !ok {
+		pending, ok := c.get(string(cp.uuid))
+		if !ok || pending.ch != nil {
 			err = errors.New("wrong connect server answer packet")
 			return
 		}
+		cd := &connectData{reader: pending.reader}
+
+		// Destroy previous channel to this peer becaus we reconnect
+		if ch, ok := tru.getChannel(addr.String()); ok {
+			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+		}
+
 		cd.ch, err = tru.newChannel(addr)
 		if err != nil {
 			return
 		}
+		defer func() {
+			if err != nil {
+				cd.ch.destroy(fmt.Sprint("channel connection error, destroy ", cd.ch.addr.String()))
+			}
+		}()
 
 		// Add reader to channel before it can get messages
 		cd.ch.setReader(cd.reader)
@@ -268,7 +296,12 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
 		cd.ch.writeToSender(pac)
-		cd.ch.setSesionKey(key)
+		cd.ch.setConnected(key)
+
+		// Close channel if nobody waits it already
+		if !c.setChannel(pending, cd.ch) {
+			cd.ch.Close()
+		}
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
@@ -294,7 +327,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
-		ch.setSesionKey(key)
+		ch.setConnected(key)
 
 		// Create output connect packet data
 		var data []byte
@@ -324,9 +357,17 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			err = errors.New("wrong connect done packet")
 			return
 		}
+		if cd.ch == nil {
+			err = errors.New("connect done packet without server answer")
+			return
+		}
 
-		// Send connectData to client connect wait channel
-		cd.wch <- cd
+		// Send connectData to client connect wait channel, it is already there
+		// if this packet is repeated
+		select {
+		case cd.wch <- cd:
+		default:
+		}
 
 	default:
 		err = errors.New("wrong packet status")
diff --git a/tru.go b/tru.go
index f4979fa..6e51f2a 100644
--- a/tru.go
+++ b/tru.go
@@ -356,7 +356,7 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		}
 		// Process connection packets
 		err := tru.connect.serve(tru, addr, pac)
-		if channelExists && err != nil {
+		if channelExists && err != nil && !ch.isConnected() {
 			ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
 		}
 		return
-- 
2.43.0


From 7891b904fcab945070e1500972c1a8e9cf385df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 18/36] fix: server channel was announced and used before it
 had the session key

Messages written at once (or to any half-open channel) went unencrypted, a peer
could send unencrypted data without finishing the handshake, choose an empty key
or change the key later. The connect callback ran under the channels mutex, so
nearly any call it made never returned.
---
 channel.go | 16 ++++++++++------
 connect.go | 28 +++++++++++++++++++++++-----
 tru.go     |  2 +-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/channel.go b/channel.go
index da5f9c2..bd04536 100644
--- a/channel.go
+++ b/channel.go
@@ -31,12 +31,16 @@ type Channel struct {
 	maxDataLen int           // Max data len in created packets
 	writeMu    sync.Mutex    // Messages are written one at a time
 	connected  atomic.Bool   // Session key is set
-	*crypt                   // Crypt module
+
+	connectUUID string // UUID of connection which created server mode channel
+
+	*crypt // Crypt module
 }
 
 // const MaxUint16 = ^uint16(0)
 
 var ErrChannelDestroyed = errors.New("channel destroyed")
+var ErrChannelNotConnected = errors.New("channel not connected")
 var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
 
 // NewChannel create new tru channel by address
@@ -83,11 +87,6 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	}
 	tru.channels[addr.String()] = ch
 
-	// Channel connect to server callback
-	if ch.serverMode && ch.tru.connectcb != nil {
-		ch.tru.connectcb(ch, nil)
-	}
-
 	return
 }
 
@@ -271,6 +270,11 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 		return
 	}
 
+	if stat&^statusSplit == statusData && !ch.isConnected() {
+		err = ErrChannelNotConnected
+		return
+	}
+
 	// Parse delivery parameter
 	var deliveryFunc PacketDeliveryFunc
 	var deliveryTimeout time.Duration = DeliveryTimeout
diff --git a/connect.go b/connect.go
index 763004c..07667da 100644
--- a/connect.go
+++ b/connect.go
@@ -206,6 +206,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
+		ch.connectUUID = string(cp.uuid)
 
 		// Get public key
 		var pub []byte
@@ -321,13 +322,25 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Decrypt and set session key
-		var key []byte
-		key, err = ch.decrypt(cp.data)
-		if err != nil {
+		if !ch.serverMode || ch.connectUUID != string(cp.uuid) {
+			err = errors.New("client answer to other connection")
 			return
 		}
-		ch.setConnected(key)
+
+		// Decrypt and set session key, if it is not repeated answer
+		connected := ch.isConnected()
+		if !connected {
+			var key []byte
+			key, err = ch.decrypt(cp.data)
+			if err != nil {
+				return
+			}
+			if len(key) == 0 {
+				err = errors.New("empty session key")
+				return
+			}
+			ch.setConnected(key)
+		}
 
 		// Create output connect packet data
 		var data []byte
@@ -341,6 +354,11 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
 		ch.writeToSender(pac)
 
+		// Channel connect to server callback
+		if !connected && ch.tru.connectcb != nil {
+			ch.tru.connectcb(ch, nil)
+		}
+
 	// Got by client. Server answer to client with statusConnectDone packet
 	case statusConnectDone:
 
diff --git a/tru.go b/tru.go
index 6e51f2a..470c580 100644
--- a/tru.go
+++ b/tru.go
@@ -374,7 +374,7 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 
 	// Wrong packets: some other packets received when channel does not exists
 	default:
-		if !channelExists {
+		if !channelExists || !ch.isConnected() {
 			return
 		}
 	}
-- 
2.43.0


From c8ad75deef1fd0cf5e9bf0a5d9a88e993b2435f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 19/36] fix: channel opened by a slow handshake was dropped as
 inactive

Inactivity was counted from the first handshake packet, also when the next one
came seconds later.
---
 channel.go | 1 +
 connect.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/channel.go b/channel.go
index bd04536..f38b410 100644
--- a/channel.go
+++ b/channel.go
@@ -155,6 +155,7 @@ func (ch *Channel) getReader() ReaderFunc {
 func (ch *Channel) setConnected(key []byte) {
 	ch.setSesionKey(key)
 	ch.connected.Store(true)
+	ch.stat.setLastActivity()
 }
 
 // isConnected return true if channel has session key
diff --git a/connect.go b/connect.go
index 07667da..af41a6b 100644
--- a/connect.go
+++ b/connect.go
@@ -379,6 +379,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			err = errors.New("connect done packet without server answer")
 			return
 		}
+		cd.ch.stat.setLastActivity()
 
 		// Send connectData to client connect wait channel, it is already there
 		// if this packet is repeated
-- 
2.43.0


From c3f4405c3bd3f0f34f573374db39eb42f7c1c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 20/36] fix: connect packet repeated by the network destroyed
 the channel it had opened

---
 connect.go | 27 +++++++++++++++++++++++++++
 tru.go     |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/connect.go b/connect.go
index af41a6b..eb9dbea 100644
--- a/connect.go
+++ b/connect.go
@@ -27,9 +27,13 @@ const (
 
 type connect struct {
 	connects map[string]*connectData // Connections map
+	served   map[string]time.Time    // Time when connect packets of connections were served
 	m        sync.RWMutex            // Connections maps mutex
 }
 
+// servedConnectLifetime is how long served connect packets are remembered
+const servedConnectLifetime = 60 * time.Second
+
 type connectData struct {
 	uuid   string
 	wch    chan *connectData
@@ -185,6 +189,29 @@ func (c *connect) setChannel(cd *connectData, ch *Channel) (ok bool) {
 	return
 }
 
+// repeated return true if connect packet is a repeat of one served before, or
+// is not a valid connect packet
+func (c *connect) repeated(addr net.Addr, pac *Packet) (ok bool) {
+	cp := connectPacketData{}
+	if err := cp.UnmarshalBinary(pac.Data()); err != nil {
+		return true
+	}
+
+	c.m.Lock()
+	defer c.m.Unlock()
+	now := time.Now()
+	for key, t := range c.served {
+		if now.Sub(t) > servedConnectLifetime {
+			delete(c.served, key)
+		}
+	}
+	key := addr.String() + " " + string(cp.uuid)
+	if _, ok = c.served[key]; !ok {
+		c.served[key] = now
+	}
+	return
+}
+
 // serve process connect packets
 func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 	switch pac.Status() {
diff --git a/tru.go b/tru.go
index 470c580..53ed432 100644
--- a/tru.go
+++ b/tru.go
@@ -154,6 +154,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	tru.listenStop = make(chan interface{})
 	tru.channels = make(map[string]*Channel)
 	tru.connect.connects = make(map[string]*connectData)
+	tru.connect.served = make(map[string]time.Time)
 	tru.conn, err = listenPacket("udp", ":"+strconv.Itoa(port))
 	if err != nil {
 		return
@@ -349,6 +350,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 
 	// Connect packets
 	case statusConnect, statusConnectServerAnswer, statusConnectClientAnswer, statusConnectDone:
+		// Skip connect packet repeated by network, its connection may be already
+		// established
+		if pac.Status() == statusConnect && tru.connect.repeated(addr, pac) {
+			return
+		}
 		// When got connect packet from existing channel we destroy this channel
 		// first becaus client reconnected
 		if channelExists && pac.Status() == statusConnect {
-- 
2.43.0


From e06ac8cabc54dbd01745951690f8286266b24597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 21/36] fix: net.Conn layer lost messages, deadlocked and could
 not be reopened

Messages which came before Accept or Dial returned were lost; an unaccepted or
unread connection stopped the whole endpoint; Accept was not unblocked by Close;
Close raced with Read, Write and received messages; a second Listen got the
endpoint (and port) of the first one even when that was closed, and Addr
returned nil.
---
 tru.go     |   7 +++
 tru_net.go | 142 ++++++++++++++++++++++++++++++++++-------------------
 2 files changed, 98 insertions(+), 51 deletions(-)

diff --git a/tru.go b/tru.go
index 53ed432..761fbec 100644
--- a/tru.go
+++ b/tru.go
@@ -217,6 +217,13 @@ func (tru *Tru) Close() {
 	log.Connect.Println("tru closed")
 }
 
+// isClosed return true if tru is closed
+func (tru *Tru) isClosed() bool {
+	tru.mu.RLock()
+	defer tru.mu.RUnlock()
+	return tru.closed
+}
+
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
 	tru.mu.Lock()
diff --git a/tru_net.go b/tru_net.go
index 9040972..34d4595 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -21,7 +21,7 @@ type Trunet struct {
 	*Tru
 	accept acceptChannel
 }
-type acceptChannel chan *Channel
+type acceptChannel chan *Conn
 
 // Common tru object
 var truCommon struct {
@@ -31,7 +31,11 @@ var truCommon struct {
 
 // Listener is a tru generic network listener for stream-oriented protocols.
 func Listen(network, address string) (listener net.Listener, err error) {
-	listener, err = newTrunet(address, true)
+	trunet, err := newTrunet(address, false)
+	if err != nil {
+		return
+	}
+	listener = trunet
 	return
 }
 
@@ -43,12 +47,13 @@ func Dial(network, address string) (conn net.Conn, err error) {
 		return
 	}
 
-	ch, err := trunet.Connect(address)
+	// The reader should be set before the first message comes
+	c := &Conn{read: newConnRead()}
+	ch, err := trunet.Connect(address, c.reader)
 	if err != nil {
 		return
 	}
-	c := trunet.newConn(ch)
-	ch.setReader(c.reader)
+	c.ch, c.localAddr, c.remoteAddr = ch, trunet.LocalAddr(), ch.Addr()
 	conn = c
 	return
 }
@@ -75,6 +80,9 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 	// Create new tru object or use existing
 	truCommon.Lock()
 	defer truCommon.Unlock()
+	if truCommon.Tru != nil && truCommon.Tru.isClosed() {
+		truCommon.Tru = nil
+	}
 	var truObj = truCommon.Tru
 	if !useTruCommon || truObj == nil {
 		truObj, err = New(port, trunet.connected, logLevel, Stat(showStats))
@@ -82,7 +90,7 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 			err = fmt.Errorf("can't create new tru object, error: %s", err)
 			return
 		}
-		if useTruCommon {
+		if truCommon.Tru == nil {
 			truCommon.Tru = truObj
 		}
 	}
@@ -93,19 +101,12 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 
 // reader reads packets from connected peers
 func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
-	if conn.ch == nil {
-		return
-	}
-
 	// Check channel destroyed and close Conn (connection)
 	if err != nil {
 		if err == ErrChannelDestroyed {
-			err = conn.Close()
-			if err != nil {
-				// if connection already closed
-				return
-			}
-			// tru channel destroyed, connection closed
+			// tru channel destroyed, connection closed. Messages which was
+			// already received may be read
+			conn.read.close(false)
 			return
 		}
 		// Some other errors (I think it never happens)
@@ -113,15 +114,7 @@ func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
 		return
 	}
 
-	defer func() {
-		if err := recover(); err != nil {
-			// This error happens if users application don't read data messages
-			// sent to it, when connection closed.
-			log.Debugvv.Println("send on closed channel panic occurred:", err)
-		}
-	}()
-
-	conn.read.ch <- pac.Data()
+	conn.read.add(pac.Data())
 
 	return
 }
@@ -131,20 +124,35 @@ func (t Trunet) connected(ch *Channel, err error) {
 	if err != nil {
 		return
 	}
-	t.accept <- ch
+	// The reader should be set before the first message comes, and the tru
+	// listner should not wait until connection accepted
+	c := newConn(ch)
+	ch.setReader(c.reader)
+	go func() {
+		select {
+		case t.accept <- c:
+		case <-ch.tru.listenStop:
+		}
+	}()
 }
 
 // Create new Conn object
-func (t Trunet) newConn(ch *Channel) *Conn {
-	return &Conn{ch, t.LocalAddr(), ch.Addr(), connRead{ch: make(connReadChan)}}
+func newConn(ch *Channel) *Conn {
+	return &Conn{ch, ch.tru.LocalAddr(), ch.Addr(), newConnRead()}
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (t Trunet) Accept() (conn net.Conn, err error) {
-	ch := <-t.accept
-	c := t.newConn(ch)
-	ch.setReader(c.reader)
-	conn = c
+	if t.isClosed() {
+		err = ErrTruClosed
+		return
+	}
+	select {
+	case c := <-t.accept:
+		conn = c
+	case <-t.listenStop:
+		err = ErrTruClosed
+	}
 	return
 }
 
@@ -156,7 +164,7 @@ func (t Trunet) Close() (err error) {
 }
 
 // Addr returns the listener's network address.
-func (t Trunet) Addr() (addr net.Addr) { return }
+func (t Trunet) Addr() (addr net.Addr) { return t.LocalAddr() }
 
 // Conn is a generic stream-oriented network connection.
 //
@@ -165,20 +173,56 @@ type Conn struct {
 	ch         *Channel
 	localAddr  net.Addr
 	remoteAddr net.Addr
-	read       connRead
+	read       *connRead
 }
 type connRead struct {
-	ch   connReadChan // Read channel receive data form tru channel reader
-	buf  []byte       // Read data which was not send in previuse call
-	cont bool         // Need send os.EOF
+	queue  []connReadChanData // Data received form tru channel reader
+	closed bool               // Connection closed
+	buf    []byte             // Read data which was not send in previuse call
+	cont   bool               // Need send os.EOF
+	m      sync.Mutex         // Mutex of this struct
+	cond   *sync.Cond         // Data received or connection closed condition
 }
-type connReadChan chan connReadChanData
 type connReadChanData []byte
 
+// newConnRead creates new connRead object
+func newConnRead() *connRead {
+	r := new(connRead)
+	r.cond = sync.NewCond(&r.m)
+	return r
+}
+
+// add adds received data to read queue
+func (r *connRead) add(data []byte) {
+	r.m.Lock()
+	defer r.m.Unlock()
+	if r.closed {
+		return
+	}
+	r.queue = append(r.queue, data)
+	r.cond.Signal()
+}
+
+// close closes read queue, and removes unread data if drop is true. It returns
+// false if the queue is already closed
+func (r *connRead) close(drop bool) (ok bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
+	ok = !r.closed
+	r.closed = true
+	if drop {
+		r.queue, r.buf, r.cont = nil, nil, false
+	}
+	r.cond.Broadcast()
+	return
+}
+
 // Read reads data from the connection.
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (c *Conn) Read(b []byte) (n int, err error) {
+	c.read.m.Lock()
+	defer c.read.m.Unlock()
 
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
@@ -189,13 +233,16 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 
 	// Get data from reader
 	if len(c.read.buf) == 0 {
-		chanData, ok := <-c.read.ch
-		if !ok {
-			// Read channel closed
+		for len(c.read.queue) == 0 && !c.read.closed {
+			c.read.cond.Wait()
+		}
+		if len(c.read.queue) == 0 {
+			// Read queue closed
 			err = ErrChannelDestroyed
 			return
 		}
-		c.read.buf = chanData
+		c.read.buf = c.read.queue[0]
+		c.read.queue = c.read.queue[1:]
 		c.read.cont = true
 	}
 
@@ -210,10 +257,6 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
 func (c Conn) Write(b []byte) (n int, err error) {
-	if c.ch == nil {
-		err = ErrChannelDestroyed
-		return
-	}
 	_, err = c.ch.WriteTo(b)
 	if err == nil {
 		n = len(b)
@@ -225,15 +268,12 @@ func (c Conn) Write(b []byte) (n int, err error) {
 // Any blocked Read or Write operations will be unblocked and return errors.
 func (c *Conn) Close() (err error) {
 
-	if c.ch == nil {
+	if !c.read.close(true) {
 		err = ErrChannelAlreadyDestroyed
 		return
 	}
 
-	ch := c.ch
-	c.ch = nil
-	ch.Close()
-	close(c.read.ch)
+	c.ch.Close()
 
 	return
 }
-- 
2.43.0


From 751a8008f4f96abafc2c4ff1a672dfecf3e6f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 22/36] fix: data race on the logger when endpoints are created
 with the same one

---
 tru.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tru.go b/tru.go
index 761fbec..bef84e9 100644
--- a/tru.go
+++ b/tru.go
@@ -108,7 +108,9 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Teonet logger
 		case *teolog.Teolog:
-			log = v
+			if log != v {
+				log = v
+			}
 
 		// Teonet loggers level
 		case string:
-- 
2.43.0


From b47e8d36a4c0ab2c13c07d3cd8749d6acb12aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 23/36] fix: next key action set by a next key action was lost

---
 hotkey/hotkey.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index a125522..65635bc 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -191,8 +191,10 @@ func (h *Hotkey) run() {
 	for !h.stop {
 		ch := term.Getch()
 		if h.nextKeyAction != nil {
-			h.nextKeyAction(ch)
+			// Clear it first, the action may set action for the next key
+			nextKeyAction := h.nextKeyAction
 			h.nextKeyAction = nil
+			nextKeyAction(ch)
 		}
 		hd, ok := h.hotkeys[string(ch)]
 		if !ok {
-- 
2.43.0


From 5da136b8c0131cdf56d06c0a667318a2f439643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 24/36] fix: Dial could not connect to a listener of the same
 process

---
 tru_net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tru_net.go b/tru_net.go
index 34d4595..3b2f236 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -90,7 +90,7 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 			err = fmt.Errorf("can't create new tru object, error: %s", err)
 			return
 		}
-		if truCommon.Tru == nil {
+		if useTruCommon {
 			truCommon.Tru = truObj
 		}
 	}
-- 
2.43.0


From 89964c655112c9343e1346344daeb75616a3508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 25/36] fix: writers of one channel wait on a semaphore, not on
 a mutex held during the send delay

---
 channel.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index f38b410..481ab3d 100644
--- a/channel.go
+++ b/channel.go
@@ -29,7 +29,7 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
-	writeMu    sync.Mutex    // Messages are written one at a time
+	writeSem   chan struct{} // Messages are written one at a time
 	connected  atomic.Bool   // Session key is set
 
 	connectUUID string // UUID of connection which created server mode channel
@@ -57,7 +57,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
 
-	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen}
+	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen, writeSem: make(chan struct{}, 1)}
 	if len(serverMode) > 0 {
 		ch.serverMode = serverMode[0]
 	}
@@ -255,8 +255,8 @@ func (ch *Channel) ServerMode() bool {
 // err - timeout error or success if nil.
 func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err error) {
 	// Parts of a split message should go one after another
-	ch.writeMu.Lock()
-	defer ch.writeMu.Unlock()
+	ch.writeSem <- struct{}{}
+	defer func() { <-ch.writeSem }()
 
 	delivery = append([]interface{}{new(messageParts)}, delivery...)
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
-- 
2.43.0


From c4932bc1ddeb8049f6241c1cd4416c729bcb1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 26/36] fix: data race on session keys whose buffer has spare
 capacity

---
 crypt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypt.go b/crypt.go
index fe7b8d2..7fc96ff 100644
--- a/crypt.go
+++ b/crypt.go
@@ -253,7 +253,8 @@ func (c crypt) ison() bool {
 func (k sessionKey) packetKey(id uint32, len int) []byte {
 	b := make([]byte, 4)
 	binary.LittleEndian.PutUint32(b, id)
-	key := append(k.bytes, b...)
+	// Copy the session key, it is used by several goroutines at the same time
+	key := append(append([]byte{}, k.bytes...), b...)
 	// Hash key depend of data len
 	//   md5:    16 byte
 	//   sha1:   20 byte
-- 
2.43.0


From 39bfc4181a08945fc4bf70727021505874bc70eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 27/36] fix: data race on the logger when first endpoints are
 created at once

---
 tru.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tru.go b/tru.go
index bef84e9..59cfe48 100644
--- a/tru.go
+++ b/tru.go
@@ -56,6 +56,7 @@ const (
 
 // Teolog
 var log *teolog.Teolog
+var logMu sync.Mutex // Set teolog mutex
 
 // Global flag "drop" drop send paskets for testing
 var drop = flag.Int("drop", 0, "drop send packets")
@@ -108,9 +109,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Teonet logger
 		case *teolog.Teolog:
-			if log != v {
-				log = v
-			}
+			setLog(v)
 
 		// Teonet loggers level
 		case string:
@@ -146,9 +145,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	}
 
 	// Log define and set filter
-	if log == nil {
-		log = teolog.New()
-	}
+	setLog(nil)
 	log.SetFilter(logFilter)
 	log.SetLevel(logLevel)
 
@@ -192,6 +189,18 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	return
 }
 
+// setLog set teolog, or create new one if it is nil and teolog is not set yet
+func setLog(l *teolog.Teolog) {
+	logMu.Lock()
+	defer logMu.Unlock()
+	if l == nil && log == nil {
+		l = teolog.New()
+	}
+	if l != nil && log != l {
+		log = l
+	}
+}
+
 // Close tru listner and all connected channels
 func (tru *Tru) Close() {
 
-- 
2.43.0


From 50a54d04e5de6db0331d3fd1ea318df5ff0bf809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 28/36] fix: disconnect packet of a replaced channel could
 close the new one

---
 channel.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/channel.go b/channel.go
index 481ab3d..454e8d0 100644
--- a/channel.go
+++ b/channel.go
@@ -332,10 +332,16 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 		ch.stat.setLastSend(time.Now())
 	}
 
-	// Send disconnect packet immediately
+	// Send disconnect packet immediately. The peer can't tell which channel it
+	// belongs to, so don't send it if channel was replaced by new one, and don't
+	// let new channel be created until it is sent
 	if status == statusDisconnect {
 		data, _ := pac.MarshalBinary()
-		_, err = ch.tru.WriteTo(data, ch.addr)
+		ch.tru.mu.RLock()
+		defer ch.tru.mu.RUnlock()
+		if ch.tru.channels[ch.addr.String()] == ch {
+			_, err = ch.tru.WriteTo(data, ch.addr)
+		}
 		return
 	}
 
-- 
2.43.0


From 0e7bb7812bd49f92e1e5793da6a788812726f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 29/36] fix: decoding a packet without payload clears the
 payload of a used Packet

---
 packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packet.go b/packet.go
index 40a9668..e1eccf9 100644
--- a/packet.go
+++ b/packet.go
@@ -99,6 +99,7 @@ func (p *Packet) UnmarshalBinary(data []byte) (err error) {
 	p.unpackStatID(statid)
 
 	// Read data from buffer
+	p.data = nil
 	if l := buf.Len(); l > 0 {
 		p.data = make([]byte, l)
 		err = binary.Read(buf, le, &p.data)
-- 
2.43.0


From b95ae54b3aacee3cbf29ec1ce7f34c1f736d3553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 30/36] fix: a hotkey menu raced with changes of it while it
 runs

---
 hotkey/hotkey.go | 59 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index 65635bc..07c5e72 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/teonet-go/tru/term"
 )
@@ -29,6 +30,7 @@ type Hotkey struct {
 	state         interface{}
 	stop          bool
 	stopactions   []func()
+	mu            sync.RWMutex // The menu may be changed while it runs
 }
 
 type hotkeyData struct {
@@ -63,17 +65,23 @@ func New() *Hotkey {
 // use in its hotkey menu. State is place where user can save its own menu
 // parameters
 func (h *Hotkey) SetState(state interface{}) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.state = state
 	return h
 }
 
 // State return saved user menu state
 func (h *Hotkey) State() interface{} {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
 	return h.state
 }
 
 // NextKeyAction set action which execute when key pressed nex time
 func (h *Hotkey) NextKeyAction(f func(ch []byte)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.nextKeyAction = f
 }
 
@@ -100,6 +108,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 	}
 
 	hd := &hotkeyData{keysAr, description, action}
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	for _, l := range keysAr {
 		h.hotkeys[string(l.Code)] = hd
 	}
@@ -108,6 +118,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 
 // AddUnknown add action function which executes when unknown key pressed
 func (h *Hotkey) AddUnknown(action func(h *Hotkey, ch []byte)) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.unknownKey = action
 	return h
 }
@@ -143,6 +155,9 @@ func (h *Hotkey) String() (str string) {
 		})
 	}
 
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+
 	// Add hotkeyData to slice and sort it
 	for i := range h.hotkeys {
 		add(h.hotkeys[i])
@@ -175,31 +190,55 @@ func (h *Hotkey) Run() *Hotkey {
 
 // Stop execute hotkey menu
 func (h *Hotkey) Stop() {
-	for _, f := range h.stopactions {
+	h.mu.RLock()
+	stopactions := h.stopactions
+	h.mu.RUnlock()
+	for _, f := range stopactions {
 		f()
 	}
-	h.stop = true
+	h.setStop(true)
+}
+
+// setStop set stop flag
+func (h *Hotkey) setStop(stop bool) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.stop = stop
+}
+
+// stopped return true if hotkey menu was stopped
+func (h *Hotkey) stopped() bool {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+	return h.stop
 }
 
 // SetStopAction set callback function which will run when hotkey menu Stop
 func (h *Hotkey) SetStopAction(f func()) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stopactions = append(h.stopactions, f)
 }
 
 // run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) run() {
-	for !h.stop {
+	for !h.stopped() {
 		ch := term.Getch()
-		if h.nextKeyAction != nil {
-			// Clear it first, the action may set action for the next key
-			nextKeyAction := h.nextKeyAction
-			h.nextKeyAction = nil
+		// Clear it first, the action may set action for the next key
+		h.mu.Lock()
+		nextKeyAction := h.nextKeyAction
+		h.nextKeyAction = nil
+		h.mu.Unlock()
+		if nextKeyAction != nil {
 			nextKeyAction(ch)
 		}
+		h.mu.RLock()
 		hd, ok := h.hotkeys[string(ch)]
+		unknownKey := h.unknownKey
+		h.mu.RUnlock()
 		if !ok {
-			if h.unknownKey != nil {
-				h.unknownKey(h, ch)
+			if unknownKey != nil {
+				unknownKey(h, ch)
 			}
 			continue
 		}
@@ -208,5 +247,5 @@ func (h *Hotkey) run() {
 		}
 		hd.action(h)
 	}
-	h.stop = false
+	h.setStop(false)
 }
-- 
2.43.0


From bda344db020a90ce24bbb08378628ee92c195bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 31/36] fix: a statistic frame without channels was one row too
 high, a full minilog scrolled its title away

---
 statistic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/statistic.go b/statistic.go
index d40304b..69dc4ed 100644
--- a/statistic.go
+++ b/statistic.go
@@ -370,9 +370,12 @@ func (tru *Tru) printStatistic(prnt bool) {
 		str += term.Func.SetCursorPosition(1, 1)
 		str += term.Func.WrapOff()
 
-		// Table and title
+		// Table and title, there is no table row when there are no channels
+		if numRows > 0 {
+			table = term.Func.ClearLine() + table + "\n"
+		}
 		str += fmt.Sprintf(term.Func.ClearLine()+"TRU %s, RCH: %d, SCH: %d, run time: %v\n"+
-			term.Func.ClearLine()+"%s\n"+
+			"%s"+
 			term.Func.ClearLine(),
 			tru.LocalAddr().String(),
 			len(tru.readerCh),
-- 
2.43.0


From fffb783dd47caa3f92904754a17ed1a125def1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 32/36] fix: the hotkey menu of an endpoint ran before its keys
 and the endpoint existed, and after New failed

---
 hotkey.go |  4 ++--
 tru.go    | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/hotkey.go b/hotkey.go
index 3270824..84fb93a 100644
--- a/hotkey.go
+++ b/hotkey.go
@@ -48,7 +48,7 @@ func (tru *Tru) newHotkey() *hotkey.Hotkey {
 		os.Exit(0)
 	}
 	state := new(hotkeyMenuState)
-	h := hotkey.New().SetState(state).Run().
+	h := hotkey.New().SetState(state).
 
 		// Add action function which executes when unknown key pressed
 		AddUnknown(func(h *hotkey.Hotkey, ch []byte) {
@@ -144,5 +144,5 @@ func (tru *Tru) newHotkey() *hotkey.Hotkey {
 		Add("q", "quit from application", quit)
 
 	fmt.Println("Hotkey menu startted, press 'h' to help...")
-	return h
+	return h.Run()
 }
diff --git a/tru.go b/tru.go
index 59cfe48..7f2288e 100644
--- a/tru.go
+++ b/tru.go
@@ -86,6 +86,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	var logFilter teolog.Filter
 	var logLevel string
 	var showStat bool
+	var startHotkey bool
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -121,9 +122,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Start hokey menu
 		case Hotkey:
-			if v {
-				tru.hotkey = tru.newHotkey()
-			}
+			startHotkey = bool(v)
 
 		// Show statistic
 		case Stat:
@@ -176,6 +175,11 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	tru.senderCh = make(chan senderChData, chanLen)
 	go tru.senderProccess()
 
+	// Start hotkey menu, when all it uses is created and before the first packet
+	if startHotkey {
+		tru.hotkey = tru.newHotkey()
+	}
+
 	// start listen to incoming udp packets
 	go tru.listen()
 
-- 
2.43.0


From 2ba00a84b14b1e6de53efa3fa9c15bd3a48aa45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 33/36] fix: the key after the filter's one set the logger
 level back again

---
 hotkey.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hotkey.go b/hotkey.go
index 84fb93a..b77855f 100644
--- a/hotkey.go
+++ b/hotkey.go
@@ -29,6 +29,7 @@ func (s *hotkeyMenuState) stopLog(h *hotkey.Hotkey) teolog.LogLevel {
 // restoreLog continue stopped by stopLog() logger with saved log level
 func (s *hotkeyMenuState) restoreLog(h *hotkey.Hotkey) teolog.LogLevel {
 	state := h.State().(*hotkeyMenuState)
+	h.NextKeyAction(nil)
 	log.SetLevel(state.logLevel)
 	return state.logLevel
 }
-- 
2.43.0


From 0ce1907c59806e9f6732a182cb9e82b65ca4eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 34/36] fix: one datagram with a very long public key kept an
 endpoint busy for tens of seconds

---
 crypt.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crypt.go b/crypt.go
index 7fc96ff..865133b 100644
--- a/crypt.go
+++ b/crypt.go
@@ -33,6 +33,10 @@ type crypt struct {
 
 const bitSize = 1024 // 896
 
+// maxPublicKeySize is maximum size in bits of peers public key. Encryption with
+// an extremely long key may take tens of seconds
+const maxPublicKeySize = 8192
+
 // newCrypt create and initialize trudp crypt module
 func (tru *Tru) newCrypt() (c *crypt, err error) {
 	c = new(crypt)
@@ -221,6 +225,10 @@ func (c crypt) bytesToPublicKey(pub []byte) (key *rsa.PublicKey, err error) {
 	key, ok := ifc.(*rsa.PublicKey)
 	if !ok {
 		err = errors.New("data is not public key")
+		return
+	}
+	if key.N.BitLen() > maxPublicKeySize {
+		err = errors.New("public key is too long")
 	}
 	return
 }
-- 
2.43.0


From 21d42faac627aaed047c564a8a23f136c6777089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 35/36] fix: remembering served connect packets took time
 proportional to their number for each new one

---
 connect.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/connect.go b/connect.go
index eb9dbea..bfdf8de 100644
--- a/connect.go
+++ b/connect.go
@@ -28,6 +28,7 @@ const (
 type connect struct {
 	connects map[string]*connectData // Connections map
 	served   map[string]time.Time    // Time when connect packets of connections were served
+	order    []string                // Keys of served map in order of time
 	m        sync.RWMutex            // Connections maps mutex
 }
 
@@ -200,14 +201,14 @@ func (c *connect) repeated(addr net.Addr, pac *Packet) (ok bool) {
 	c.m.Lock()
 	defer c.m.Unlock()
 	now := time.Now()
-	for key, t := range c.served {
-		if now.Sub(t) > servedConnectLifetime {
-			delete(c.served, key)
-		}
+	for len(c.order) > 0 && now.Sub(c.served[c.order[0]]) > servedConnectLifetime {
+		delete(c.served, c.order[0])
+		c.order = c.order[1:]
 	}
 	key := addr.String() + " " + string(cp.uuid)
 	if _, ok = c.served[key]; !ok {
 		c.served[key] = now
+		c.order = append(c.order, key)
 	}
 	return
 }
-- 
2.43.0


From 4e18b35d9b3de06da25bf848da137eab35774d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 36/36] fix: deadlines of a connection were accepted and had no
 effect

---
 tru_net.go | 79 +++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 76 insertions(+), 3 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 3b2f236..6a35bd7 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"os"
 	"strconv"
 	"strings"
 	"sync"
@@ -182,6 +183,10 @@ type connRead struct {
 	cont   bool               // Need send os.EOF
 	m      sync.Mutex         // Mutex of this struct
 	cond   *sync.Cond         // Data received or connection closed condition
+
+	deadline      time.Time   // Read fails after this time if it is not zero
+	timer         *time.Timer // Wakes blocked Read at the deadline
+	writeDeadline time.Time   // Write fails after this time if it is not zero
 }
 type connReadChanData []byte
 
@@ -210,6 +215,7 @@ func (r *connRead) close(drop bool) (ok bool) {
 	defer r.m.Unlock()
 	ok = !r.closed
 	r.closed = true
+	r.stopTimer()
 	if drop {
 		r.queue, r.buf, r.cont = nil, nil, false
 	}
@@ -217,6 +223,49 @@ func (r *connRead) close(drop bool) (ok bool) {
 	return
 }
 
+// expired return true if the deadline is set and has passed
+func expired(deadline time.Time) bool {
+	return !deadline.IsZero() && !time.Now().Before(deadline)
+}
+
+// setDeadline sets read deadline, blocked Reads take it into account too
+func (r *connRead) setDeadline(t time.Time) {
+	r.m.Lock()
+	defer r.m.Unlock()
+	r.deadline = t
+	r.stopTimer()
+	r.cond.Broadcast()
+	if !t.IsZero() && !r.closed {
+		r.timer = time.AfterFunc(time.Until(t), func() {
+			r.m.Lock()
+			defer r.m.Unlock()
+			r.cond.Broadcast()
+		})
+	}
+}
+
+// stopTimer stops the timer of read deadline
+func (r *connRead) stopTimer() {
+	if r.timer != nil {
+		r.timer.Stop()
+		r.timer = nil
+	}
+}
+
+// setWriteDeadline sets write deadline
+func (r *connRead) setWriteDeadline(t time.Time) {
+	r.m.Lock()
+	defer r.m.Unlock()
+	r.writeDeadline = t
+}
+
+// writeExpired return true if the write deadline has passed
+func (r *connRead) writeExpired() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
+	return expired(r.writeDeadline)
+}
+
 // Read reads data from the connection.
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
@@ -224,6 +273,12 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 	c.read.m.Lock()
 	defer c.read.m.Unlock()
 
+	// The deadline has already passed
+	if expired(c.read.deadline) {
+		err = os.ErrDeadlineExceeded
+		return
+	}
+
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
 		c.read.cont = false
@@ -235,6 +290,10 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 	if len(c.read.buf) == 0 {
 		for len(c.read.queue) == 0 && !c.read.closed {
 			c.read.cond.Wait()
+			if expired(c.read.deadline) {
+				err = os.ErrDeadlineExceeded
+				return
+			}
 		}
 		if len(c.read.queue) == 0 {
 			// Read queue closed
@@ -257,6 +316,10 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
 func (c Conn) Write(b []byte) (n int, err error) {
+	if c.read.writeExpired() {
+		err = os.ErrDeadlineExceeded
+		return
+	}
 	_, err = c.ch.WriteTo(b)
 	if err == nil {
 		n = len(b)
@@ -305,16 +368,26 @@ func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 // the deadline after successful Read or Write calls.
 //
 // A zero value for t means I/O operations will not time out.
-func (c Conn) SetDeadline(t time.Time) (err error) { return }
+func (c Conn) SetDeadline(t time.Time) (err error) {
+	c.read.setDeadline(t)
+	c.read.setWriteDeadline(t)
+	return
+}
 
 // SetReadDeadline sets the deadline for future Read calls
 // and any currently-blocked Read call.
 // A zero value for t means Read will not time out.
-func (c Conn) SetReadDeadline(t time.Time) (err error) { return }
+func (c Conn) SetReadDeadline(t time.Time) (err error) {
+	c.read.setDeadline(t)
+	return
+}
 
 // SetWriteDeadline sets the deadline for future Write calls
 // and any currently-blocked Write call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means Write will not time out.
-func (c Conn) SetWriteDeadline(t time.Time) (err error) { return }
+func (c Conn) SetWriteDeadline(t time.Time) (err error) {
+	c.read.setWriteDeadline(t)
+	return
+}
-- 
2.43.0

