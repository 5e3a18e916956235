From 3b2d0ce0137967b689bf920114608e92023f1553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 01/21] fix: ldpc: encoder panics when a random skip overflows
 an int

---
 ldpc/encoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 7f6d3be..6fe788b 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -96,6 +96,11 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	midx := deg
 	for midx < len(e.window) {
 		midx += (int)(math.Floor(math.Log(rand.Float64())/math.Log(1.0-W))) + 1
+		if midx < 0 {
+			// the skip is too long for an int (a random number was 0, or W
+			// has vanished), so it ends past the end of the window
+			break
+		}
 		if midx < len(e.window) {
 			(*selected)[rand.Intn(deg)] = e.window[midx]
 			W = W * math.Exp(math.Log(rand.Float64())/d)
-- 
2.43.0


From 6a10d89d8a1d3fd674f46c6ca0287eb4cfd633bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 02/21] fix: ldpc: transaction right after the initial sample
 could never be selected

---
 ldpc/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 6fe788b..a428438 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -93,7 +93,7 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	d := float64(deg)
 	var W float64
 	W = math.Exp(math.Log(rand.Float64()) / d)
-	midx := deg
+	midx := deg - 1
 	for midx < len(e.window) {
 		midx += (int)(math.Floor(math.Log(rand.Float64())/math.Log(1.0-W))) + 1
 		if midx < 0 {
-- 
2.43.0


From dda49f04c2c56414e686a05fafa6591df7f1645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 03/21] fix: lt: adding a codeword changed the caller's
 codeword

---
 lt/decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lt/decoder.go b/lt/decoder.go
index 0bfdff2..85368f7 100644
--- a/lt/decoder.go
+++ b/lt/decoder.go
@@ -143,6 +143,12 @@ func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
 func (p *Decoder[T]) AddCodeword(rawCodeword Codeword[T]) (*PendingCodeword[T], []Transaction[T]) {
 	cw := &PendingCodeword[T]{}
 	cw.symbol = rawCodeword.symbol
+	if len(rawCodeword.members) != 0 {
+		// peel from a copy: XOR may update its receiver in place, and
+		// rawCodeword belongs to the caller
+		var zero T
+		cw.symbol = zero.XOR(rawCodeword.symbol)
+	}
 	for _, member := range rawCodeword.members {
 		pending, pendingExists := p.pendingTransactions[member]
 		received, receivedExists := p.receivedTransactions[member]
-- 
2.43.0


From 32cadc14df890959d6053cc4bc67db0403227aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 04/21] fix: iblt: adding a codeword changed the caller's
 codeword

---
 iblt/decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iblt/decoder.go b/iblt/decoder.go
index 60f2998..a3b2715 100644
--- a/iblt/decoder.go
+++ b/iblt/decoder.go
@@ -131,6 +131,12 @@ func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
 func (p *Decoder[T]) AddCodeword(rawCodeword Codeword[T]) (*PendingCodeword[T], []Transaction[T]) {
 	cw := &PendingCodeword[T]{}
 	cw.symbol = rawCodeword.symbol
+	if len(rawCodeword.members) != 0 {
+		// peel from a copy: XOR may update its receiver in place, and
+		// rawCodeword belongs to the caller
+		var zero T
+		cw.symbol = zero.XOR(rawCodeword.symbol)
+	}
 	for _, member := range rawCodeword.members {
 		pending, pendingExists := p.pendingTransactions[member]
 		received, receivedExists := p.receivedTransactions[member]
-- 
2.43.0


From 6f04a9de9b8b7e2877ea9d1e236c4e66795959b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 05/21] fix: riblt: symbols whose generator state is extreme
 hang or crash coding

---
 riblt/random.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/riblt/random.go b/riblt/random.go
index c6f512d..d832144 100644
--- a/riblt/random.go
+++ b/riblt/random.go
@@ -36,6 +36,16 @@ func (s *randomMapping) nextIndex() uint64 {
 	// As an approximation, we can use
 	// x = (j+1.5)(1/sqrt(1-x/m) - 1)
 	xm := float64(r) / (1 << 64)
-	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
+	x := math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1))
+	if x < 1 {
+		// r is so small that xm has vanished in 1-xm
+		x = 1
+	}
+	if x < float64(math.MaxInt64 - s.lastIdx) {
+		s.lastIdx += uint64(x)
+	} else {
+		// r is so large that xm has been rounded to 1
+		s.lastIdx = math.MaxInt64
+	}
 	return s.lastIdx
 }
-- 
2.43.0


From 71dc457175892559053595d77bd1b0120d43b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 06/21] fix: riblt: decoding changed the coded symbols it was
 given

---
 riblt/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riblt/decoder.go b/riblt/decoder.go
index 39e954c..1b84d70 100644
--- a/riblt/decoder.go
+++ b/riblt/decoder.go
@@ -42,6 +42,13 @@ func (d *Decoder[T]) AddHashedSymbol(s HashedSymbol[T]) {
 }
 
 func (d *Decoder[T]) AddCodedSymbol(c CodedSymbol[T]) {
+	// work on a copy: XOR may update its receiver in place, and c belongs to
+	// the caller
+	var sum T
+	if c.count != 0 || c.checksum != 0 {
+		sum = sum.XOR(c.sum)
+	}
+	c.sum = sum
 	// scan through decoded symbols to peel off matching ones
 	c = d.window.applyWindow(c, remove)
 	c = d.remote.applyWindow(c, remove)
-- 
2.43.0


From 63d23ad51b0a9fdb3992a8621b9943375c10dd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 07/21] fix: riblt: subtracting a sketch with empty cells could
 panic

---
 riblt/sketch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riblt/sketch.go b/riblt/sketch.go
index a806420..c1339f6 100644
--- a/riblt/sketch.go
+++ b/riblt/sketch.go
@@ -24,6 +24,10 @@ func (s Sketch[T]) Subtract(s2 Sketch[T]) Sketch[T] {
 	}
 
 	for i := range s {
+		if s2[i].count == 0 && s2[i].checksum == 0 {
+			// empty cell, whose sum may be the default value of T
+			continue
+		}
 		s[i].sum = s[i].sum.XOR(s2[i].sum)
 		s[i].count = s[i].count - s2[i].count
 		s[i].checksum = s[i].checksum ^ s2[i].checksum
-- 
2.43.0


From 7810230b05666fe1a3cf2d9923f7105fd2ccf646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 08/21] fix: des: RunUntil delivered one event after the
 horizon

---
 des/simulator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/des/simulator.go b/des/simulator.go
index c48cbac..c1a9aa8 100644
--- a/des/simulator.go
+++ b/des/simulator.go
@@ -39,6 +39,9 @@ func (s *Simulator) Time() time.Duration {
 
 func (s *Simulator) RunUntil(t time.Duration) {
 	for !s.Drained() && s.time <= t {
+		if s.mq[0].arrival > t {
+			break
+		}
 		s.deliverNextMessage()
 	}
 }
-- 
2.43.0


From 948059a17ce8c29b19842f5d3d10b6f2205316b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 09/21] fix: newsim: with flooding, a link whose initiator only
 generates never starts

In flood mode a generated transaction is broadcast instead of being handed
to the node's links, and a sender only starts encoding when handed a
transaction. A node whose only way to learn transactions is a link it
initiates itself therefore never started reconciliation on it, and whatever
the other side had buffered for that link never reached the node.
---
 newsim/coding.go | 4 ++++
 newsim/module.go | 6 ++++++
 newsim/pull.go   | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/newsim/coding.go b/newsim/coding.go
index e614f08..13ad46c 100644
--- a/newsim/coding.go
+++ b/newsim/coding.go
@@ -55,6 +55,10 @@ func (c coding) forwardTransaction(tx riblt.HashedSymbol[transaction]) {
 	c.receiver.onTransaction(tx)
 }
 
+func (c coding) start() {
+	c.sender.tryFillSendWindow()
+}
+
 func (c coding) handleMessage(msg any) []riblt.HashedSymbol[transaction] {
 	switch m := msg.(type) {
 	case codeword:
diff --git a/newsim/module.go b/newsim/module.go
index ba66803..819a642 100644
--- a/newsim/module.go
+++ b/newsim/module.go
@@ -30,6 +30,8 @@ type serverConfig struct {
 type algorithm interface {
 	collectOutgoingMessages(peer des.Module, delay time.Duration, outbox []des.OutgoingMessage) []des.OutgoingMessage
 	forwardTransaction(tx riblt.HashedSymbol[transaction])
+	// start makes the node send what it can on the link.
+	start()
 	handleMessage(msg any) []riblt.HashedSymbol[transaction]
 }
 
@@ -94,6 +96,10 @@ func (s *server) HandleMessage(payload any, from des.Module, timestamp time.Dura
 				hashed := riblt.HashedSymbol[transaction]{tx, tx.Hash()}
 				for _, peer := range s.peers {
 					outbox = append(outbox, des.OutgoingMessage{initialBroadcast{hashed}, peer, s.handlers[peer].delay})
+					// The flooded transaction is not forwarded on any link. Start
+					// reconciliation nevertheless, because the other side may have
+					// content for us.
+					s.handlers[peer].start()
 				}
 			} else {
 				s.forwardTransaction(riblt.HashedSymbol[transaction]{tx, tx.Hash()}, nil)
diff --git a/newsim/pull.go b/newsim/pull.go
index 4744560..3e97bc2 100644
--- a/newsim/pull.go
+++ b/newsim/pull.go
@@ -35,6 +35,8 @@ func (c *pull) forwardTransaction(tx riblt.HashedSymbol[transaction]) {
 	c.outbox = append(c.outbox, announce{tx.Hash})
 }
 
+func (c *pull) start() {}
+
 func (c *pull) handleMessage(msg any) []riblt.HashedSymbol[transaction] {
 	switch m := msg.(type) {
 	case announce:
-- 
2.43.0


From 248bf9d67d1a23c6dd0f1bbf1680f93e1270ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:00 +0000
Subject: [PATCH 10/21] fix: simulator: a send window that rounds to zero
 stalls the link

---
 simulator/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/node.go b/simulator/node.go
index 68ba560..9643789 100644
--- a/simulator/node.go
+++ b/simulator/node.go
@@ -65,6 +65,9 @@ func (n *sender) tryProduceCodeword(mayStartNewBlock bool) (codeword, bool) {
 			// move to the next block
 			blockSize := len(n.buffer)
 			n.sendWindow = int(float64(blockSize) * n.controlOverhead)
+			if n.sendWindow < 1 {
+				n.sendWindow = 1
+			}
 			cw.newBlock = true
 			n.encodingCurrentBlock = true
 			dist := soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5)
-- 
2.43.0


From 4359845e90fe9029cfc89f1613b4bf0fa2212752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:00 +0000
Subject: [PATCH 11/21] fix: simulator: a control overhead above the threshold
 starts an empty block and panics

---
 simulator/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/node.go b/simulator/node.go
index 9643789..49d88c4 100644
--- a/simulator/node.go
+++ b/simulator/node.go
@@ -61,6 +61,9 @@ func (n *sender) tryProduceCodeword(mayStartNewBlock bool) (codeword, bool) {
 	if (!n.encodingCurrentBlock) && mayStartNewBlock {
 		//minBlockSize := int(2 / n.controlOverhead)
 		minBlockSize := int(float64(n.detectThreshold) / n.controlOverhead)
+		if minBlockSize < 1 {
+			minBlockSize = 1
+		}
 		if len(n.buffer) >= minBlockSize {
 			// move to the next block
 			blockSize := len(n.buffer)
-- 
2.43.0


From da05fb92f6e794639181761d8e6839f13bb04b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:00 +0000
Subject: [PATCH 12/21] fix: simulator: results depended on the iteration order
 of the handler map

---
 simulator/module.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/simulator/module.go b/simulator/module.go
index 20324fc..3d190ba 100644
--- a/simulator/module.go
+++ b/simulator/module.go
@@ -41,6 +41,7 @@ type peer struct {
 
 type server struct {
 	handlers map[des.Module]peer
+	peers []des.Module // in the order connected; map iteration order is random
 	decoder *lt.Decoder[transaction]
 
 	received map[transaction]struct{}
@@ -77,7 +78,9 @@ func (a *server) newHandler() *handler {
 
 func connectServers(a, b *server, delay time.Duration) {
 	a.handlers[b] = peer{a.newHandler(), delay}
+	a.peers = append(a.peers, b)
 	b.handlers[a] = peer{b.newHandler(), delay}
+	b.peers = append(b.peers, a)
 }
 
 func newServers(simulator *des.Simulator, n int, startingSeed int64, config serverConfig) []*server {
@@ -102,7 +105,8 @@ func newServers(simulator *des.Simulator, n int, startingSeed int64, config serv
 }
 
 func (s *server) collectOutgoingMessages(outbox []des.OutgoingMessage) []des.OutgoingMessage {
-	for peer, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		for _, msg := range handler.sender.outbox {
 			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
 		}
@@ -130,8 +134,8 @@ func (s *server) scheduleForwardingTransactions(out []des.OutgoingMessage, txs [
 
 func (s *server) forwardTransaction(tx lt.Transaction[transaction]) {
 	canStartNewBlock := (s.forceSynchronize == 0)
-	for _, handler := range s.handlers {
-		handler.sender.onTransaction(tx, canStartNewBlock)
+	for _, peer := range s.peers {
+		s.handlers[peer].sender.onTransaction(tx, canStartNewBlock)
 	}
 }
 
@@ -166,8 +170,8 @@ func (s *server) HandleMessage(payload any, from des.Module, timestamp time.Dura
 	} else if lp, isLp := payload.(loopback); isLp {
 		s.forwardTransaction(lp.tx)
 	} else if _, isNb := payload.(createNewBlock); isNb {
-		for _, handler := range s.handlers {
-			handler.sender.tryFillSendWindow(true)
+		for _, peer := range s.peers {
+			s.handlers[peer].sender.tryFillSendWindow(true)
 		}
 		outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})
 	} else {
-- 
2.43.0


From 723c627c588abe7113d6807c89bbcc6d533f2309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 13/21] fix: node receiver keeps accepting transactions while
 it delivers decoded ones

The controller hands every transaction to each receiver through a bounded
channel, and every receiver hands decoded ones to the controller through
another. When both were full the two waited for each other forever.
---
 node/receiver.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/node/receiver.go b/node/receiver.go
index 7a1a888..1dd8ebf 100644
--- a/node/receiver.go
+++ b/node/receiver.go
@@ -38,6 +38,20 @@ func (r *receiver) receive(cw chan<- Codeword) error {
 	}
 }
 
+// deliver hands decoded transactions to the controller. It keeps accepting new
+// transactions meanwhile: the controller may be blocked handing one to us, and
+// then it does not take what we decoded.
+func (r *receiver) deliver(decoded []ldpc.DecodedTransaction) {
+	for len(decoded) > 0 {
+		select {
+		case r.decodedTransaction <- decoded[0]:
+			decoded = decoded[1:]
+		case tx := <-r.newTransaction:
+			decoded = append(decoded, r.decoder.AddTransaction(tx)...)
+		}
+	}
+}
+
 func (r *receiver) decode(cwChan <-chan Codeword) error {
 	ticker := time.NewTicker(1 * time.Second)
 	cwcnt := 0
@@ -71,14 +85,10 @@ func (r *receiver) decode(cwChan <-chan Codeword) error {
 			// try to decode the new codeword
 			stub, buf := r.decoder.AddCodeword(cw.Codeword)
 			r.rxWindow = append(r.rxWindow, receivedCodeword{stub, now})
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.deliver(buf)
 		case tx := <-r.newTransaction:
 			buf := r.decoder.AddTransaction(tx)
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.deliver(buf)
 		case <-ticker.C:
 			qts, err := r.delaySketch.GetValuesAtQuantiles([]float64{0.50, 0.95})
 			if err != nil {
-- 
2.43.0


From aa55d35cbbf8cf6c39b2ac983bd3f166e9d7dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 14/21] fix: node reads the whole key of a peer

A short read left the rest of the key as zeros and its bytes in the stream,
and a connection closed within the key became a peer.
---
 node/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/controller.go b/node/controller.go
index 05b7b47..0240719 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -177,7 +177,7 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	if err != nil {
 		return err
 	}
-	_, err = conn.Read(decoderKey[:])
+	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From fd5645aca8a7669280daea0a99f8b79f2f6bf212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 15/21] fix: reboot reports the failure of the server that
 failed

---
 testbed/vultr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/vultr.go b/testbed/vultr.go
index 427debb..c94346c 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -295,7 +295,7 @@ func RestartServers(tag string) {
 				return
 			}
 			fmt.Println("Rebooting ", s.InstanceID)
-			err = c.Server.Reboot(context.Background(), s.InstanceID)
+			err := c.Server.Reboot(context.Background(), s.InstanceID)
 			if err != nil {
 				fmt.Println("error rebooting server: ", err)
 				os.Exit(1)
-- 
2.43.0


From ae932b3fb81a463dc094b9ef7d5fab55a2e028f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 16/21] fix: release the image list lock when the list cannot
 be fetched

---
 testbed/aws.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 3258c5b..5c6fb99 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -25,6 +25,7 @@ var AWSImageList string
 
 func AWSGetImageID(region string) (string, error) {
 	AWSImageListLock.Lock()
+	defer AWSImageListLock.Unlock()
 	if AWSImageList == "" {
 		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
 		if err != nil {
@@ -37,7 +38,6 @@ func AWSGetImageID(region string) (string, error) {
 		AWSImageList = string(body)
 		defer resp.Body.Close()
 	}
-	AWSImageListLock.Unlock()
 
 	escaped := strings.ReplaceAll(region, "-", `\-`)
 	tr := escaped + `","focal","20\.04 LTS","amd64",".+","\d+","<.+>(ami\-.+)</a>`
-- 
2.43.0


From 724eff1a09e9170890253056a9f1ac4d1742e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 17/21] fix: report a region whose session cannot be made

---
 testbed/aws.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/testbed/aws.go b/testbed/aws.go
index 5c6fb99..c9b4717 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -321,6 +321,9 @@ func AWSStartInstanceAtRegion(region string, count int, tag string) error {
 		Region: aws.String(region),
 		Credentials: credentials.NewSharedCredentials("", "pika"),
 	})
+	if err != nil {
+		return err
+	}
 
 	// get the AMI ID for ubuntu 20.04
 	ami, err := AWSGetImageID(region)
@@ -416,6 +419,9 @@ func AWSStopServersAtRegion(region string, tag string) error {
 		Region: aws.String(region),
 		Credentials: credentials.NewSharedCredentials("", "pika"),
 	})
+	if err != nil {
+		return err
+	}
 
 	sid := []*string{}
 	for _, s := range servers {
@@ -502,6 +508,9 @@ func AWSListServersAtRegion(region string, tag string) ([]AWSServer, error) {
 		Region: aws.String(region),
 		Credentials: credentials.NewSharedCredentials("", "pika"),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	svc := ec2.New(sess)
 
-- 
2.43.0


From 031c1c995e69d469a25b13550ec7e960cab9f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 18/21] fix: list instances without a public or private address

---
 testbed/aws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index c9b4717..b922590 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -528,8 +528,8 @@ func AWSListServersAtRegion(region string, tag string) ([]AWSServer, error) {
 					ID: *instance.InstanceId,
 					Region: region,
 					Tag: tag,
-					PrivateIP: *instance.PrivateIpAddress,
-					PublicIP: *instance.PublicIpAddress,
+					PrivateIP: aws.StringValue(instance.PrivateIpAddress),
+					PublicIP: aws.StringValue(instance.PublicIpAddress),
 				}
 				output = append(output, out)
 			}
-- 
2.43.0


From 96da8e9aa1b3ebccc3f70ab9780377c89c0518e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 19/21] fix: do not claim that a server list was written when
 it was not

---
 testbed/aws.go   | 5 ++++-
 testbed/vultr.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index b922590..9964ebe 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -605,7 +605,10 @@ func AWSDumpServerInfo(path string, servers []AWSServer) {
 
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "    ")
-	enc.Encode(dt)
+	if err := enc.Encode(dt); err != nil {
+		fmt.Println("error writing file: ", err)
+		os.Exit(1)
+	}
 }
 
 func AWSFilterRegionsByName(location string) ([]string, error) {
diff --git a/testbed/vultr.go b/testbed/vultr.go
index c94346c..e2f2258 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -46,7 +46,10 @@ func DumpServerInfo(path string, servers []govultr.Server) {
 
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "    ")
-	enc.Encode(dt)
+	if err := enc.Encode(dt); err != nil {
+		fmt.Println("error writing file: ", err)
+		os.Exit(1)
+	}
 }
 
 func CheckServerStatus(tag string) []govultr.Server {
-- 
2.43.0


From 2af450b36c717f6c15e7807142837e43422979d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 20/21] fix: report a private key that cannot be parsed

---
 testbed/sshutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/testbed/sshutil.go b/testbed/sshutil.go
index 5761257..1b7af15 100644
--- a/testbed/sshutil.go
+++ b/testbed/sshutil.go
@@ -13,7 +13,10 @@ func getPublicKey(path string) ([]byte, error) {
 	}
 
 	signer, err := ssh.ParsePrivateKey(key)
-	return ssh.MarshalAuthorizedKey(signer.PublicKey()), err
+	if err != nil {
+		return nil, err
+	}
+	return ssh.MarshalAuthorizedKey(signer.PublicKey()), nil
 }
 
 func loadSSHKey(path string) (ssh.AuthMethod, error) {
-- 
2.43.0


From 023560b8832d875707e7b505f99cb0faf41a5e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 21/21] fix: node: a client that does not send its key kept
 others from being accepted

---
 node/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/main.go b/node/main.go
index 76a5d12..65ffc04 100644
--- a/node/main.go
+++ b/node/main.go
@@ -114,7 +114,7 @@ func main() {
 			if err != nil {
 				log.Println("error accepting incoming connection:", err)
 			} else {
-				c.handleConn(cn.RemoteAddr().String(), cn)
+				go c.handleConn(cn.RemoteAddr().String(), cn)
 			}
 		}
 	}()
-- 
2.43.0

