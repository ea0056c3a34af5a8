From 3202da8a59995efc60eb6a7fcf032c892a2776e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:05 +0000
Subject: [PATCH 01/25] fix: UBufFrom buffers with spare capacity panicked when
 written past len(data)

---
 ubuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ubuf.go b/ubuf.go
index b9a7598..aeb2016 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -105,7 +105,7 @@ func UBufFromWithHeadReserved(data []byte, reserved int) *UBuf {
 		writerIndex: reserved,
 		data: &uBufData{
 			refCount: 1,
-			bytes:    data,
+			bytes:    data[:capacity],
 		},
 		copyOnWrite: false,
 	}
-- 
2.43.0


From f47864e98b39a43a6ac3afa321b5d52138e46c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 02/25] fix: writing into the head space of a shared
 copy-on-write buffer panicked

---
 ubuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ubuf.go b/ubuf.go
index aeb2016..7707cf9 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -568,6 +568,9 @@ func (ub *UBuf) writeHead(dataSize int, fn func() error) error {
 		return errors.New("UBuf Head room is not enouth")
 	}
 
+	// must be done before the writerIndex is moved
+	ub.resolveCopyOnWriteIfNeed()
+
 	// all the writes are from writerIndex
 	// backup the writerIndex first
 	oldWriterIndex := ub.writerIndex
-- 
2.43.0


From 4a11a3fee213b7c8d61e9cf44940a783fea0006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:09 +0000
Subject: [PATCH 03/25] fix: copy-on-write gave up its reference before it had
 copied the shared data

---
 ubuf.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 7707cf9..9495426 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -175,9 +175,6 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 
 	// buffer data is referenced by some snapshot(s)
 
-	// decrease the count
-	atomic.AddInt32(&ub.data.refCount, -1)
-
 	// make buffer data copy
 	data := &uBufData{
 		refCount: 1,
@@ -187,6 +184,10 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 	fmt.Println("make COW")
 	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])
 
+	// decrease the count, only after the copy is done: the last
+	// owner may modify the data in place from now on
+	atomic.AddInt32(&ub.data.refCount, -1)
+
 	// update
 	ub.data = data
 }
-- 
2.43.0


From 494ee97c87931aea0aec495d670e5854f23c5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 04/25] fix: ReadFrom and WriteTo lost track of the bytes moved
 together with an error

---
 ubuf.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 9495426..a8caab9 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -353,13 +353,9 @@ func (ub *UBuf) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])
-	if err != nil {
-		return int64(written), err
-	}
-
 	ub.readerIndex += written
 
-	return int64(written), nil
+	return int64(written), err
 }
 
 // WriteU16 writes uint16 data into data space
@@ -473,13 +469,9 @@ func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {
 	ub.resolveCopyOnWriteIfNeed()
 
 	length, err := r.Read(ub.data.bytes[ub.writerIndex:])
-	if err != nil {
-		return 0, err
-	}
-
 	ub.writerIndex += length
 
-	return int64(length), nil
+	return int64(length), err
 }
 
 // ReadU16 returns uint16 data or error
-- 
2.43.0


From 1d4770e1896c8b9afd276cb3b55083e9d081488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:13 +0000
Subject: [PATCH 05/25] fix: Filter and Forwarder called a nil rule for every
 message

---
 proc_filter.go    | 2 +-
 proc_forwarder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 3d6f4ad..efd2e4c 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -18,7 +18,7 @@ type Filter struct {
 func NewFilter(filterFn ...FilterFn) DataProcessor {
 	filter := &Filter{
 		ProcBase:  NewProcBaseInstance("Filter"),
-		filterFn:  make([]FilterFn, 1),
+		filterFn:  make([]FilterFn, 0, len(filterFn)),
 		txCounter: 0,
 		rxCounter: 0,
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index dfe1199..06d6643 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -18,7 +18,7 @@ type Forwarder struct {
 func NewForwarder(forwardFn ...ForwardFn) DataProcessor {
 	fwd := &Forwarder{
 		ProcBase:  NewProcBaseInstance("Forwarder"),
-		forwardFn: make([]ForwardFn, 1),
+		forwardFn: make([]ForwardFn, 0, len(forwardFn)),
 		txCounter: 0,
 		rxCounter: 0,
 	}
-- 
2.43.0


From d645292d2a73427d306168544ae09b71a42b95fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:14 +0000
Subject: [PATCH 06/25] fix: a disabled Loopback still looped data back and
 blocked received data

---
 proc_loopback.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proc_loopback.go b/proc_loopback.go
index 42ce4be..3dc605d 100644
--- a/proc_loopback.go
+++ b/proc_loopback.go
@@ -21,6 +21,18 @@ func NewLoopback() DataProcessor {
 
 // OnUpperData sends back the message
 func (lb *Loopback) OnUpperData(context Context) {
+	if !lb.enable {
+		lb.lower.OnUpperData(context)
+		return
+	}
+
 	fmt.Println("Loopback: send back the uplayer data")
 	lb.upper.OnLowerData(context)
 }
+
+// OnLowerData drops the lower data, it is passed on only if disabled
+func (lb *Loopback) OnLowerData(context Context) {
+	if !lb.enable {
+		lb.upper.OnLowerData(context)
+	}
+}
-- 
2.43.0


From dff16c8a5118ce31b9c06f8b88ce20a423f10732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:03 +0000
Subject: [PATCH 07/25] fix: FrameDecoder sent data of reference connections
 upwards instead of downwards

---
 proc_frame_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 0666121..10e5c0c 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -36,7 +36,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
 	if context.GetConnection().UseReference() {
-		frm.upper.OnUpperData(context)
+		frm.lower.OnUpperData(context)
 		return
 	}
 
-- 
2.43.0


From 786afeb1f33b271ed91fcf47a6603f46409c614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:05 +0000
Subject: [PATCH 08/25] fix: data without a connection crashed StatCounter,
 Heartbeat, LoadBalancer and FrameDecoder

---
 proc_base.go          | 6 ++++++
 proc_frame_decoder.go | 4 ++--
 proc_heartbeat.go     | 4 ++--
 proc_load_balancer.go | 4 ++--
 proc_stat_counter.go  | 4 ++--
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/proc_base.go b/proc_base.go
index 6c71649..c87caf9 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -123,3 +123,9 @@ func (base *ProcBase) OnEvent(event Event) {
 func (base *ProcBase) Run() DataProcessor {
 	return base.where
 }
+
+// useReference returns true if the data is exchanged by reference
+func useReference(context Context) bool {
+	connection := context.GetConnection()
+	return connection != nil && connection.UseReference()
+}
diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 10e5c0c..f5c00d8 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -35,7 +35,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.lower.OnUpperData(context)
 		return
 	}
@@ -168,7 +168,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 
 // OnLowerData ...
 func (frm *FrameDecoder) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3b9a55d..71c495a 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -93,7 +93,7 @@ func (hb *Heartbeat) GetOverhead() int {
 
 // OnUpperData ...
 func (hb *Heartbeat) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.lower.OnUpperData(context)
 		return
 	}
@@ -110,7 +110,7 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (hb *Heartbeat) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index cad6075..5d62588 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -37,7 +37,7 @@ func (lb *LoadBalancer) GetOverhead() int {
 
 // OnUpperData ...
 func (lb *LoadBalancer) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.lower.OnUpperData(context)
 		return
 	}
@@ -59,7 +59,7 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (lb *LoadBalancer) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 6cb5643..481192b 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -41,7 +41,7 @@ func (hb *StatCounter) GetOverhead() int {
 
 // OnUpperData ...
 func (sc *StatCounter) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.lower.OnUpperData(context)
 		return
 	}
@@ -107,7 +107,7 @@ func (sc *StatCounter) show(context Context) {
 
 // OnLowerData ...
 func (sc *StatCounter) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.upper.OnLowerData(context)
 		return
 	}
-- 
2.43.0


From 17479842ed9bafde7dde8e0488aa01760dcb88d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:07 +0000
Subject: [PATCH 09/25] fix: codecs and SessionResolver dropped the messages of
 reference connections

---
 proc_codec_bytes.go      |  9 +++++++++
 proc_codec_generic.go    | 10 ++++++++++
 proc_codec_gob.go        | 10 ++++++++++
 proc_codec_json.go       | 10 ++++++++++
 proc_codec_string.go     |  9 +++++++++
 proc_session_resolver.go | 10 ++++++++++
 6 files changed, 58 insertions(+)

diff --git a/proc_codec_bytes.go b/proc_codec_bytes.go
index 9588d11..26791eb 100644
--- a/proc_codec_bytes.go
+++ b/proc_codec_bytes.go
@@ -19,6 +19,10 @@ func NewBytesCodec() DataProcessor {
 
 // OnUpperData ...
 func (bc *BytesCodec) OnUpperData(context Context) {
+	if useReference(context) {
+		bc.lower.OnUpperData(context)
+		return
+	}
 
 	if bc.enable {
 		message := context.GetMessage()
@@ -48,6 +52,11 @@ func (bc *BytesCodec) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (bc *BytesCodec) OnLowerData(context Context) {
+	if useReference(context) {
+		bc.upper.OnLowerData(context)
+		return
+	}
+
 	if bc.enable {
 		ub := context.GetBuffer()
 		if ub == nil {
diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index a7e45e2..2204ddc 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -42,6 +42,11 @@ func NewGenericCodec(init InitFn, encoder EncoderFn, decoder DecoderFn) DataProc
 
 // OnUpperData ...
 func (gc *GenericCodec) OnUpperData(context Context) {
+	if useReference(context) {
+		gc.lower.OnUpperData(context)
+		return
+	}
+
 	if gc.enable {
 		if gc.encoder == nil {
 			fmt.Println("GenericCodec: not found the encoder")
@@ -72,6 +77,11 @@ func (gc *GenericCodec) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (gc *GenericCodec) OnLowerData(context Context) {
+	if useReference(context) {
+		gc.upper.OnLowerData(context)
+		return
+	}
+
 	if gc.enable {
 		if gc.decoder == nil {
 			fmt.Println("GenericCodec: not found the decoder")
diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index f344732..1237b44 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -27,6 +27,11 @@ func NewGOBCodec(t reflect.Type) DataProcessor {
 
 // OnUpperData ...
 func (g *GOBCodec) OnUpperData(context Context) {
+	if useReference(context) {
+		g.lower.OnUpperData(context)
+		return
+	}
+
 	if g.enable {
 		message := context.GetMessage()
 		if message == nil {
@@ -51,6 +56,11 @@ func (g *GOBCodec) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (g *GOBCodec) OnLowerData(context Context) {
+	if useReference(context) {
+		g.upper.OnLowerData(context)
+		return
+	}
+
 	if g.enable {
 		ub := context.GetBuffer()
 		if ub == nil {
diff --git a/proc_codec_json.go b/proc_codec_json.go
index c716b97..98531c3 100644
--- a/proc_codec_json.go
+++ b/proc_codec_json.go
@@ -27,6 +27,11 @@ func NewJSONCodec(t reflect.Type) DataProcessor {
 
 // OnUpperData ...
 func (jc *JSONCodec) OnUpperData(context Context) {
+	if useReference(context) {
+		jc.lower.OnUpperData(context)
+		return
+	}
+
 	if jc.enable {
 		message := context.GetMessage()
 		if message == nil {
@@ -56,6 +61,11 @@ func (jc *JSONCodec) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (jc *JSONCodec) OnLowerData(context Context) {
+	if useReference(context) {
+		jc.upper.OnLowerData(context)
+		return
+	}
+
 	if jc.enable {
 		ub := context.GetBuffer()
 		if ub == nil {
diff --git a/proc_codec_string.go b/proc_codec_string.go
index 55d1833..12c9e50 100644
--- a/proc_codec_string.go
+++ b/proc_codec_string.go
@@ -19,6 +19,10 @@ func NewStringCodec() DataProcessor {
 
 // OnUpperData ...
 func (bc *StringCodec) OnUpperData(context Context) {
+	if useReference(context) {
+		bc.lower.OnUpperData(context)
+		return
+	}
 
 	if bc.enable {
 		message := context.GetMessage()
@@ -48,6 +52,11 @@ func (bc *StringCodec) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (bc *StringCodec) OnLowerData(context Context) {
+	if useReference(context) {
+		bc.upper.OnLowerData(context)
+		return
+	}
+
 	if bc.enable {
 		ub := context.GetBuffer()
 		if ub == nil {
diff --git a/proc_session_resolver.go b/proc_session_resolver.go
index 334f9f7..3cd69cc 100644
--- a/proc_session_resolver.go
+++ b/proc_session_resolver.go
@@ -27,6 +27,11 @@ func (sr *SessionResolver) GetOverhead() int {
 
 // OnUpperData ...
 func (sr *SessionResolver) OnUpperData(context Context) {
+	if useReference(context) {
+		sr.lower.OnUpperData(context)
+		return
+	}
+
 	if sr.enable {
 		ub := context.GetBuffer()
 		if ub == nil {
@@ -46,6 +51,11 @@ func (sr *SessionResolver) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (sr *SessionResolver) OnLowerData(context Context) {
+	if useReference(context) {
+		sr.upper.OnLowerData(context)
+		return
+	}
+
 	if sr.enable {
 		ub := context.GetBuffer()
 		if ub == nil {
-- 
2.43.0


From ce784441083d92bb5b640ccd7a6b87081f0d4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:09 +0000
Subject: [PATCH 10/25] fix: messages were sent without header when it did not
 fit, LoadBalancer tagged them as its own

---
 proc_frame_decoder.go | 4 +++-
 proc_heartbeat.go     | 4 +++-
 proc_load_balancer.go | 7 ++++---
 proc_stat_counter.go  | 6 ++++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index f5c00d8..170e0f9 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -47,7 +47,9 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 		}
 
 		// add frame length in head space
-		ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		if err := ub.WriteHeadU32BE(uint32(ub.ReadableLength())); err != nil {
+			return
+		}
 	}
 
 	frm.lower.OnUpperData(context)
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 71c495a..ac3a086 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -103,7 +103,9 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 		return
 	}
 
-	ub.WriteHeadByte(HeartbeatUplayerMessageTag)
+	if err := ub.WriteHeadByte(HeartbeatUplayerMessageTag); err != nil {
+		return
+	}
 
 	hb.lower.OnUpperData(context)
 }
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index 5d62588..53d5b46 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -49,9 +49,10 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 
 	if lb.enable {
 		fmt.Println("LoadBalancer: OnUpperData: todo")
-		ub.WriteHeadByte(LoadBalancerSelfMessageReqWorkTag)
-	} else {
-		ub.WriteHeadByte(StatCounterUplayerMessageTag)
+	}
+
+	if err := ub.WriteHeadByte(LoadBalancerUplayerMessageTag); err != nil {
+		return
 	}
 
 	lb.lower.OnUpperData(context)
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 481192b..ab4a53b 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -51,13 +51,15 @@ func (sc *StatCounter) OnUpperData(context Context) {
 		return
 	}
 
+	if err := ub.WriteHeadByte(StatCounterUplayerMessageTag); err != nil {
+		return
+	}
+
 	if sc.enable {
 		sc.txCounter++
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
-	ub.WriteHeadByte(StatCounterUplayerMessageTag)
-
 	sc.lower.OnUpperData(context)
 }
 
-- 
2.43.0


From abcfa733225ded4c22baf4a4d8b618f669c7dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 11/25] fix: StatCounter lost counts when several connections
 and endpoints are active

---
 proc_stat_counter.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index ab4a53b..767d5fa 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -6,6 +6,7 @@ package ustack
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 )
 
@@ -17,10 +18,11 @@ const (
 
 // StatCounter ...
 type StatCounter struct {
+	// updated atomically, keep them first for 64-bit alignment
+	txCounter uint64
+	rxCounter uint64
 	ProcBase
 	intervalInSecond int
-	txCounter        uint64
-	rxCounter        uint64
 }
 
 // NewStatCounter ...
@@ -56,7 +58,7 @@ func (sc *StatCounter) OnUpperData(context Context) {
 	}
 
 	if sc.enable {
-		sc.txCounter++
+		atomic.AddUint64(&sc.txCounter, 1)
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
@@ -85,8 +87,8 @@ func (sc *StatCounter) response(context Context) {
 
 	ub.WriteHeadByte(StatCounterSelfMessageResTag)
 
-	ub.WriteU64BE(sc.txCounter)
-	ub.WriteU64BE(sc.rxCounter)
+	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))
+	ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))
 
 	ub.Write([]byte(sc.ustack.GetName()))
 
@@ -136,7 +138,7 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			sc.show(context)
 			return
 		} else {
-			sc.rxCounter++
+			atomic.AddUint64(&sc.rxCounter, 1)
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
 	}
-- 
2.43.0


From 62064e15cfdb4e3d071c326f00fdd860df53aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:13 +0000
Subject: [PATCH 12/25] fix: Heartbeat and StatCounter self messages closed
 every reference connection

---
 proc_heartbeat.go    | 5 +++++
 proc_stat_counter.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index ac3a086..2dc510e 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -143,6 +143,11 @@ func (hb *Heartbeat) OnEvent(event Event) {
 		interval := hb.intervalInSecond
 		connection := event.Data.(TransportConnection)
 
+		// self messages can not be sent by reference
+		if connection.UseReference() {
+			return
+		}
+
 		hb.updateMonitor(connection)
 
 		go func() {
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 767d5fa..7a3d168 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -157,6 +157,11 @@ func (sc *StatCounter) OnEvent(event Event) {
 
 		connection := event.Data.(TransportConnection)
 
+		// self messages can not be sent by reference
+		if connection.UseReference() {
+			return
+		}
+
 		go func() {
 			for {
 				if connection.Closed() {
-- 
2.43.0


From 7ed4358b43a4187722face605f196d6709784737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:16 +0000
Subject: [PATCH 13/25] fix: Heartbeat called event listeners and closed
 connections with its lock held

---
 proc_heartbeat.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 2dc510e..f06e010 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -56,24 +56,31 @@ func (hb *Heartbeat) deleteMonitor(connection TransportConnection) {
 	}
 }
 
-// deleteMonitor ...
-func (hb *Heartbeat) check() {
+// takeLost removes the lost connections from monitors and returns them
+func (hb *Heartbeat) takeLost() []TransportConnection {
 	hb.mutex.Lock()
 	defer hb.mutex.Unlock()
 
-	if len(hb.monitors) == 0 {
-		return
-	}
+	var lost []TransportConnection
 
 	for connection, lastTime := range hb.monitors {
 		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
 			continue
 		}
 
-		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
-
 		delete(hb.monitors, connection)
 
+		lost = append(lost, connection)
+	}
+
+	return lost
+}
+
+// check ...
+func (hb *Heartbeat) check() {
+	for _, connection := range hb.takeLost() {
+		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
+
 		if hb.closeOnLost {
 			connection.Close()
 		}
-- 
2.43.0


From 2846af1c242d16cf5227f420c59269d86f50d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 14/25] fix: FrameDecoder lost, truncated or mixed up frames
 split or merged by the transport

---
 proc_frame_decoder.go | 153 +++++++++++++++++++-----------------------
 1 file changed, 68 insertions(+), 85 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 170e0f9..336d458 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -7,6 +7,7 @@ package ustack
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 const FrameLengthFieldSizeInByte int = 4
@@ -15,7 +16,8 @@ const FrameLengthFieldSizeInByte int = 4
 type FrameDecoder struct {
 	ProcBase
 	cacheCapacity int
-	cache         *UBuf
+	mutex         sync.Mutex
+	caches        map[TransportConnection]*UBuf
 }
 
 // NewFrameDecoder ...
@@ -23,7 +25,7 @@ func NewFrameDecoder() DataProcessor {
 	frm := &FrameDecoder{
 		ProcBase:      NewProcBaseInstance("FrameDecoder"),
 		cacheCapacity: 1024,
-		cache:         nil,
+		caches:        make(map[TransportConnection]*UBuf, 16),
 	}
 	return frm.ProcBase.SetWhere(frm)
 }
@@ -55,51 +57,60 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
-// handleCurrentData ...
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
-	// if there is data in cache, put current data into cache
-	if frm.cache.ReadableLength() > 0 {
-		frm.cache.ReadFrom(ub)
-		return
+// saveCachedData keeps the data until more data of the connection is received
+func (frm *FrameDecoder) saveCachedData(connection TransportConnection, ub *UBuf) {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	frm.caches[connection] = ub
+}
+
+// takeCachedData returns and forgets the cached data of the connection
+func (frm *FrameDecoder) takeCachedData(connection TransportConnection) *UBuf {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	cache := frm.caches[connection]
+	delete(frm.caches, connection)
+
+	return cache
+}
+
+// joinCachedData returns the cached data followed by the current data
+func (frm *FrameDecoder) joinCachedData(connection TransportConnection, ub *UBuf) *UBuf {
+	cache := frm.takeCachedData(connection)
+	if cache == nil {
+		return ub
 	}
 
-	// cache is empty
-	// handle as much as possiable with loop
-	for {
-		// very less data, cache the data
-		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
-			frm.cache.ReadFrom(ub)
-			return
-		}
+	joined := UBufAlloc(cache.ReadableLength() + ub.ReadableLength())
+	joined.ReadFrom(cache)
+	joined.ReadFrom(ub)
 
+	return joined
+}
+
+// handleData ...
+func (frm *FrameDecoder) handleData(context Context, ub *UBuf) {
+	// handle as much as possiable with loop
+	for ub.ReadableLength() >= FrameLengthFieldSizeInByte {
 		expectedLength, err := ub.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
 			return
 		}
 
-		actuallyLength := uint32(ub.ReadableLength())
+		actuallyLength := uint32(ub.ReadableLength() - FrameLengthFieldSizeInByte)
 
-		// not a complete frame, cache the data
+		// not a complete frame, wait for more data
 		if expectedLength > actuallyLength {
-			frm.cache.ReadFrom(ub)
-			return
+			break
 		}
 
-		// just one frame, need not to alloc new UBuf
-		if expectedLength == actuallyLength {
-			// drop size-field-data by dummy reading
-			ub.ReadU32BE()
-
-			context.SetBuffer(ub)
-			frm.upper.OnLowerData(context)
-			return
-		}
-
-		// here: expectedLength < actuallyLength
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		// keep the head room, uplayer may send the buffer back
+		overhead := frm.ustack.GetOverhead()
+		newUbuf := UBufAllocWithHeadReserved(overhead+int(expectedLength), overhead)
 
 		// drop size-field-data by dummy reading
 		ub.ReadU32BE()
@@ -108,7 +119,6 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 		_, err = io.CopyN(newUbuf, ub, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
 			return
 		}
 
@@ -117,54 +127,20 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 		// invoke uplayer
 		frm.upper.OnLowerData(context)
 	}
-}
-
-// handleCachedData ...
-func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
-	// handle as much as possiable with loop
-	for {
-		cachedLength := frm.cache.ReadableLength()
 
-		if cachedLength == 0 {
-			frm.cache.Reset()
-			return
-		}
+	connection := context.GetConnection()
 
-		if cachedLength < FrameLengthFieldSizeInByte {
-			// wait for more data
-			return
+	// the frame is too large, there is no way to find the next one
+	if ub.ReadableLength() > frm.cacheCapacity {
+		fmt.Println("FrameDecoder: too large frame, close the connection")
+		if connection != nil {
+			connection.Close()
 		}
+		return
+	}
 
-		expectedLength, err := frm.cache.PeekU32BE()
-		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
-			return
-		}
-
-		if cachedLength < int(expectedLength) {
-			// wait for more data
-			return
-		}
-
-		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
-
-		// drop size-field-data by dummy reading
-		frm.cache.ReadU32BE()
-
-		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, frm.cache, int64(expectedLength))
-		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
-			return
-		}
-
-		context.SetBuffer(newUbuf)
-
-		// invoke uplayer
-		frm.upper.OnLowerData(context)
+	if ub.ReadableLength() > 0 {
+		frm.saveCachedData(connection, ub)
 	}
 }
 
@@ -181,16 +157,25 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
-		// handle current received data
-		frm.handleCurrentData(context, ub)
-
-		// handle history cached data
-		frm.handleCachedData(context, ub)
+		// handle history cached data and current received data
+		frm.handleData(context, frm.joinCachedData(context.GetConnection(), ub))
 	} else {
 		frm.upper.OnLowerData(context)
 	}
 }
 
+// OnEvent forgets the cached data of closed connections
+func (frm *FrameDecoder) OnEvent(event Event) {
+	if event.Type != UStackEventConnectionClosed {
+		return
+	}
+
+	connection, ok := event.Data.(TransportConnection)
+	if ok {
+		frm.takeCachedData(connection)
+	}
+}
+
 // Run ...
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
@@ -201,7 +186,5 @@ func (frm *FrameDecoder) Run() DataProcessor {
 		fmt.Println("FrameDecoder: option CacheCapacity:", frm.cacheCapacity)
 	}
 
-	frm.cache = UBufAlloc(frm.cacheCapacity)
-
 	return frm
 }
-- 
2.43.0


From 64e6c26965a3a2b8b2c8f4864bdbb375b35546e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:50 +0000
Subject: [PATCH 15/25] fix: UpperDeck raced on its endpoint table, a deleted
 endpoint could go on sending

---
 proc_upperdeck.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index d889fd8..da07f05 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -15,10 +15,8 @@ type UpperDeck struct {
 	endpoints map[EndPoint]chan bool
 }
 
+// existsEndpoint is called with the lock held
 func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
-	ud.Lock()
-	defer ud.Unlock()
-
 	for endpoint := range ud.endpoints {
 		if endpoint == ep || endpoint.GetSession() == ep.GetSession() {
 			return true
@@ -29,14 +27,15 @@ func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
 
 // accpetEndpoint ...
 func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
+	ud.Lock()
+	defer ud.Unlock()
+
 	if ud.existsEndpoint(ep) {
 		return
 	}
 
-	ud.Lock()
-	defer ud.Unlock()
-
-	ud.endpoints[ep] = make(chan bool, 1)
+	stopchan := make(chan bool, 1)
+	ud.endpoints[ep] = stopchan
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -47,7 +46,7 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	go func() {
 		for {
 			select {
-			case stop := <-ud.endpoints[ep]:
+			case stop := <-stopchan:
 				if stop {
 					return
 				}
-- 
2.43.0


From ca3c35421d06b31395c22fbf344e55dc338fea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:52 +0000
Subject: [PATCH 16/25] fix: ConnectionClosed was published twice when a send
 and the receiver both failed

---
 proc_lowerdeck.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index fb8b912..610d339 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -4,25 +4,55 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 // LowerDeck manages transports
 type LowerDeck struct {
 	ProcBase
+	mutex       sync.Mutex
+	connections map[TransportConnection]bool
 }
 
 // NewLowerDeck returns a new instance
 func NewLowerDeck() DataProcessor {
 	ld := &LowerDeck{
-		NewProcBaseInstance("LowerDeck"),
+		ProcBase:    NewProcBaseInstance("LowerDeck"),
+		connections: make(map[TransportConnection]bool, 16),
 	}
 	return ld.ProcBase.SetWhere(ld)
 }
 
+// saveConnection ...
+func (ld *LowerDeck) saveConnection(c TransportConnection) {
+	ld.mutex.Lock()
+	defer ld.mutex.Unlock()
+
+	ld.connections[c] = true
+}
+
+// dropConnection returns false if the connection was dropped already
+func (ld *LowerDeck) dropConnection(c TransportConnection) bool {
+	ld.mutex.Lock()
+	defer ld.mutex.Unlock()
+
+	exists := ld.connections[c]
+	delete(ld.connections, c)
+
+	return exists
+}
+
 func (ld *LowerDeck) closeConnection(c TransportConnection) {
 	// close first
 	c.Close()
 
+	// sender and receiver may find the connection closed, publish once
+	if !ld.dropConnection(c) {
+		return
+	}
+
 	// publish event
 	ld.ustack.PublishEvent(Event{
 		Type:   UStackEventConnectionClosed,
@@ -48,6 +78,8 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 
 			fmt.Println("New connection:", connection.GetName(), "on transport:", tp.GetName())
 
+			ld.saveConnection(connection)
+
 			// publish event
 			ld.ustack.PublishEvent(Event{
 				Type:   UStackEventNewConnection,
-- 
2.43.0


From 9970c31f7f65c3be8ea1cf848cd1ca33a4915a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:54 +0000
Subject: [PATCH 17/25] fix: writing to a closed connection reported success,
 the closed flag was racy

---
 tran_tcp.go  | 17 +++++++++--------
 tran_unix.go | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index ea70b73..0301d09 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -11,6 +11,7 @@ import (
 	"log"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -18,7 +19,7 @@ import (
 type TCPTransportConnection struct {
 	name   string
 	conn   net.Conn
-	closed bool
+	closed int32
 }
 
 // NewTCPTransportConnection ...
@@ -26,7 +27,7 @@ func NewTCPTransportConnection(name string, conn net.Conn) TransportConnection {
 	return &TCPTransportConnection{
 		name:   name,
 		conn:   conn,
-		closed: false,
+		closed: 0,
 	}
 }
 
@@ -37,9 +38,9 @@ func (c *TCPTransportConnection) GetName() string {
 
 // Read ...
 func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("read failed as connection", c.name, " is closed")
-		return 0, nil
+		return 0, errors.New("TCPTransportConnection:Read: connection is closed")
 	}
 
 	n, err = c.conn.Read(p)
@@ -54,9 +55,9 @@ func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *TCPTransportConnection) Write(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("write failed as connection", c.name, " is closed")
-		return 0, nil
+		return 0, errors.New("TCPTransportConnection:Write: connection is closed")
 	}
 
 	return c.conn.Write(p)
@@ -79,13 +80,13 @@ func (c *TCPTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *TCPTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 	c.conn.Close()
 }
 
 // Closed ...
 func (c *TCPTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) == 1
 }
 
 // TCPTransport ...
diff --git a/tran_unix.go b/tran_unix.go
index d1b5369..a65326e 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -12,6 +12,7 @@ import (
 	"net"
 	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -19,7 +20,7 @@ import (
 type UDSTransportConnection struct {
 	name   string
 	conn   net.Conn
-	closed bool
+	closed int32
 }
 
 // NewUDSTransportConnection ...
@@ -27,7 +28,7 @@ func NewUDSTransportConnection(name string, conn net.Conn) TransportConnection {
 	return &UDSTransportConnection{
 		name:   name,
 		conn:   conn,
-		closed: false,
+		closed: 0,
 	}
 }
 
@@ -38,9 +39,9 @@ func (c *UDSTransportConnection) GetName() string {
 
 // Read ...
 func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("read failed as connection", c.name, " is closed")
-		return 0, nil
+		return 0, errors.New("UDSTransportConnection:Read: connection is closed")
 	}
 
 	n, err = c.conn.Read(p)
@@ -55,9 +56,9 @@ func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *UDSTransportConnection) Write(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("write failed as connection", c.name, " is closed")
-		return 0, nil
+		return 0, errors.New("UDSTransportConnection:Write: connection is closed")
 	}
 
 	return c.conn.Write(p)
@@ -80,13 +81,13 @@ func (c *UDSTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *UDSTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 	c.conn.Close()
 }
 
 // Closed ...
 func (c *UDSTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) == 1
 }
 
 // UDSTransport ...
-- 
2.43.0


From 5b5dfe0f97ecd3a067db4196992288888acb314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:56 +0000
Subject: [PATCH 18/25] fix: stopping a TCP or unix transport could crash or
 leave its listener and connections open

---
 tran_tcp.go  | 134 ++++++++++++++++++++++++++++++++++++++-----------
 tran_unix.go | 139 ++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 210 insertions(+), 63 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index 0301d09..4ff5dfa 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -99,6 +99,8 @@ type TCPTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	// closed when the transport is stopped
+	done chan struct{}
 	// for server
 	listener net.Listener
 	// for client
@@ -135,20 +137,43 @@ func (t *TCPTransport) parseOptions() {
 // doInit ...
 func (t *TCPTransport) doInit() {
 	t.connections = make([]TransportConnection, 0)
-	t.next = make(chan TransportConnection, 16)
+	// no buffer: a connection is either closed by its creator
+	// or owned by the caller of NextConnection
+	t.next = make(chan TransportConnection)
+	t.done = make(chan struct{})
+}
+
+// isStopped is called with the lock held
+func (t *TCPTransport) isStopped(done chan struct{}) bool {
+	return !t.isRunning || t.done != done
 }
 
 // saveConnections ...
-func (t *TCPTransport) saveConnection(tc TransportConnection) {
+func (t *TCPTransport) saveConnection(tc TransportConnection, done chan struct{}) bool {
 	t.Lock()
 	defer t.Unlock()
 
+	if t.isStopped(done) {
+		return false
+	}
+
 	for _, c := range t.connections {
 		if c == tc {
-			return
+			return true
 		}
 	}
 	t.connections = append(t.connections, tc)
+
+	return true
+}
+
+// handOverConnection passes the connection to NextConnection
+func (t *TCPTransport) handOverConnection(tc TransportConnection, next chan TransportConnection, done chan struct{}) {
+	select {
+	case next <- tc:
+	case <-done:
+		tc.Close()
+	}
 }
 
 // dropConnections ...
@@ -158,8 +183,15 @@ func (t *TCPTransport) dropConnections() {
 	}
 }
 
-// accept ...
-func (t *TCPTransport) accept() {
+// listen returns nil if the transport was stopped
+func (t *TCPTransport) listen(done chan struct{}) net.Listener {
+	t.Lock()
+	defer t.Unlock()
+
+	if t.isStopped(done) {
+		return nil
+	}
+
 	listener, err := net.Listen("tcp", t.address)
 	if err != nil {
 		log.Fatal(err)
@@ -167,44 +199,62 @@ func (t *TCPTransport) accept() {
 
 	t.listener = listener
 
+	return listener
+}
+
+// accept ...
+func (t *TCPTransport) accept(next chan TransportConnection, done chan struct{}) {
+	listener := t.listen(done)
+	if listener == nil {
+		return
+	}
+
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := t.listener.Accept()
+		conn, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		t.next <- NewTCPTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		t.handOverConnection(
+			NewTCPTransportConnection(
+				conn.RemoteAddr().String(),
+				conn),
+			next, done)
 	}
 
-	t.Stop()
+	t.stop(done)
 }
 
 // connect ...
-func (t *TCPTransport) connect() {
+func (t *TCPTransport) connect(next chan TransportConnection, done chan struct{}) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < t.maxRetryCount; i++ {
 		connection, err := net.DialTimeout("tcp", t.address, time.Second)
 
 		if connection != nil && err == nil {
-			t.next <- NewTCPTransportConnection(
-				connection.RemoteAddr().String(),
-				connection)
+			t.handOverConnection(
+				NewTCPTransportConnection(
+					connection.RemoteAddr().String(),
+					connection),
+				next, done)
 			return
 		}
 
-		fmt.Println(err, "retry", i)
+		fmt.Println(err, "retry", i+1)
 
-		time.Sleep(time.Second * time.Duration(t.retryIntervalInSecond))
+		select {
+		case <-done:
+			return
+		case <-time.After(time.Second * time.Duration(t.retryIntervalInSecond)):
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
 
-	t.Stop()
+	t.stop(done)
 }
 
 // ForServer ...
@@ -245,9 +295,20 @@ func (t *TCPTransport) GetAddress() string {
 
 // NextConnection ...
 func (t *TCPTransport) NextConnection() TransportConnection {
-	next := <-t.next
-	t.saveConnection(next)
-	return next
+	t.Lock()
+	next, done := t.next, t.done
+	t.Unlock()
+
+	select {
+	case connection := <-next:
+		if !t.saveConnection(connection, done) {
+			connection.Close()
+			return nil
+		}
+		return connection
+	case <-done:
+		return nil
+	}
 }
 
 // Run ...
@@ -265,20 +326,17 @@ func (t *TCPTransport) Run() Transport {
 	t.doInit()
 
 	if t.forServer {
-		go t.accept()
+		go t.accept(t.next, t.done)
 	} else {
-		go t.connect()
+		go t.connect(t.next, t.done)
 	}
 	return t
 }
 
-// Stop ...
-func (t *TCPTransport) Stop() Transport {
-	t.Lock()
-	defer t.Unlock()
-
+// doStop is called with the lock held
+func (t *TCPTransport) doStop() {
 	if !t.isRunning {
-		return t
+		return
 	}
 
 	if t.listener != nil {
@@ -286,11 +344,29 @@ func (t *TCPTransport) Stop() Transport {
 		t.listener = nil
 	}
 
-	close(t.next)
+	close(t.done)
 
 	t.dropConnections()
 
 	t.isRunning = false
+}
+
+// stop does nothing if the transport was stopped or even restarted already
+func (t *TCPTransport) stop(done chan struct{}) {
+	t.Lock()
+	defer t.Unlock()
+
+	if !t.isStopped(done) {
+		t.doStop()
+	}
+}
+
+// Stop ...
+func (t *TCPTransport) Stop() Transport {
+	t.Lock()
+	defer t.Unlock()
+
+	t.doStop()
 
 	return t
 }
diff --git a/tran_unix.go b/tran_unix.go
index a65326e..f3e60e9 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -100,6 +100,8 @@ type UDSTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	// closed when the transport is stopped
+	done chan struct{}
 	// for server
 	listener net.Listener
 	// for client
@@ -136,24 +138,43 @@ func (uds *UDSTransport) parseOptions() {
 // doInit ...
 func (uds *UDSTransport) doInit() {
 	uds.connections = make([]TransportConnection, 0)
-	uds.next = make(chan TransportConnection, 16)
+	// no buffer: a connection is either closed by its creator
+	// or owned by the caller of NextConnection
+	uds.next = make(chan TransportConnection)
+	uds.done = make(chan struct{})
 }
 
-// saveConnections ...
-func (uds *UDSTransport) saveConnection(tc TransportConnection) {
-	if tc == nil {
-		return
-	}
+// isStopped is called with the lock held
+func (uds *UDSTransport) isStopped(done chan struct{}) bool {
+	return !uds.isRunning || uds.done != done
+}
 
+// saveConnections ...
+func (uds *UDSTransport) saveConnection(tc TransportConnection, done chan struct{}) bool {
 	uds.Lock()
 	defer uds.Unlock()
 
+	if uds.isStopped(done) {
+		return false
+	}
+
 	for _, c := range uds.connections {
 		if c == tc {
-			return
+			return true
 		}
 	}
 	uds.connections = append(uds.connections, tc)
+
+	return true
+}
+
+// handOverConnection passes the connection to NextConnection
+func (uds *UDSTransport) handOverConnection(tc TransportConnection, next chan TransportConnection, done chan struct{}) {
+	select {
+	case next <- tc:
+	case <-done:
+		tc.Close()
+	}
 }
 
 // dropConnections ...
@@ -163,8 +184,15 @@ func (uds *UDSTransport) dropConnections() {
 	}
 }
 
-// accept ...
-func (uds *UDSTransport) accept() {
+// listen returns nil if the transport was stopped
+func (uds *UDSTransport) listen(done chan struct{}) net.Listener {
+	uds.Lock()
+	defer uds.Unlock()
+
+	if uds.isStopped(done) {
+		return nil
+	}
+
 	os.Remove(uds.filename)
 
 	listener, err := net.Listen("unix", uds.filename)
@@ -172,47 +200,64 @@ func (uds *UDSTransport) accept() {
 		log.Fatal(err)
 	}
 
-	defer os.Remove(uds.filename)
-
 	uds.listener = listener
 
+	return listener
+}
+
+// accept ...
+func (uds *UDSTransport) accept(next chan TransportConnection, done chan struct{}) {
+	listener := uds.listen(done)
+	if listener == nil {
+		return
+	}
+
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := uds.listener.Accept()
+		conn, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		uds.next <- NewUDSTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		uds.handOverConnection(
+			NewUDSTransportConnection(
+				conn.RemoteAddr().String(),
+				conn),
+			next, done)
 	}
 
-	uds.Stop()
+	uds.stop(done)
 }
 
 // connect ...
-func (uds *UDSTransport) connect() {
+func (uds *UDSTransport) connect(next chan TransportConnection, done chan struct{}) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < uds.maxRetryCount; i++ {
 		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
 
 		if connection != nil && err == nil {
-			uds.next <- NewUDSTransportConnection(
-				connection.RemoteAddr().String(),
-				connection)
+			uds.handOverConnection(
+				NewUDSTransportConnection(
+					connection.RemoteAddr().String(),
+					connection),
+				next, done)
 			return
 		}
 
 		fmt.Println(err, "retry", i+1)
 
-		time.Sleep(time.Second * time.Duration(uds.retryIntervalInSecond))
+		select {
+		case <-done:
+			return
+		case <-time.After(time.Second * time.Duration(uds.retryIntervalInSecond)):
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
-	uds.Stop()
+
+	uds.stop(done)
 }
 
 // ForServer ...
@@ -253,9 +298,20 @@ func (uds *UDSTransport) GetAddress() string {
 
 // NextConnection ...
 func (uds *UDSTransport) NextConnection() TransportConnection {
-	next := <-uds.next
-	uds.saveConnection(next)
-	return next
+	uds.Lock()
+	next, done := uds.next, uds.done
+	uds.Unlock()
+
+	select {
+	case connection := <-next:
+		if !uds.saveConnection(connection, done) {
+			connection.Close()
+			return nil
+		}
+		return connection
+	case <-done:
+		return nil
+	}
 }
 
 // Run ...
@@ -273,20 +329,17 @@ func (uds *UDSTransport) Run() Transport {
 	uds.doInit()
 
 	if uds.forServer {
-		go uds.accept()
+		go uds.accept(uds.next, uds.done)
 	} else {
-		go uds.connect()
+		go uds.connect(uds.next, uds.done)
 	}
 	return uds
 }
 
-// Stop ...
-func (uds *UDSTransport) Stop() Transport {
-	uds.Lock()
-	defer uds.Unlock()
-
+// doStop is called with the lock held
+func (uds *UDSTransport) doStop() {
 	if !uds.isRunning {
-		return uds
+		return
 	}
 
 	if uds.listener != nil {
@@ -294,11 +347,29 @@ func (uds *UDSTransport) Stop() Transport {
 		uds.listener = nil
 	}
 
-	close(uds.next)
+	close(uds.done)
 
 	uds.dropConnections()
 
 	uds.isRunning = false
+}
+
+// stop does nothing if the transport was stopped or even restarted already
+func (uds *UDSTransport) stop(done chan struct{}) {
+	uds.Lock()
+	defer uds.Unlock()
+
+	if !uds.isStopped(done) {
+		uds.doStop()
+	}
+}
+
+// Stop ...
+func (uds *UDSTransport) Stop() Transport {
+	uds.Lock()
+	defer uds.Unlock()
+
+	uds.doStop()
 
 	return uds
 }
-- 
2.43.0


From c5a8a41c47f6bb41f0796e5a708298c9b3ffe246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:58 +0000
Subject: [PATCH 19/25] fix: a server address that can not be bound terminated
 the whole process

---
 tran_tcp.go  | 5 +++--
 tran_unix.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index 4ff5dfa..e953590 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -8,7 +8,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
 	"net"
 	"sync"
 	"sync/atomic"
@@ -194,7 +193,9 @@ func (t *TCPTransport) listen(done chan struct{}) net.Listener {
 
 	listener, err := net.Listen("tcp", t.address)
 	if err != nil {
-		log.Fatal(err)
+		fmt.Println("TCPTransport: listen failed:", err)
+		t.doStop()
+		return nil
 	}
 
 	t.listener = listener
diff --git a/tran_unix.go b/tran_unix.go
index f3e60e9..fe80c1e 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -8,7 +8,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
 	"net"
 	"os"
 	"sync"
@@ -197,7 +196,9 @@ func (uds *UDSTransport) listen(done chan struct{}) net.Listener {
 
 	listener, err := net.Listen("unix", uds.filename)
 	if err != nil {
-		log.Fatal(err)
+		fmt.Println("UDSTransport: listen failed:", err)
+		uds.doStop()
+		return nil
 	}
 
 	uds.listener = listener
-- 
2.43.0


From a87a78c49903b5947b2a444b3af2dea8644e68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 20/25] fix: ReferenceTransport could not be stopped, its
 connection could not be closed

---
 tran_reference.go | 76 ++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index e1ebfe2..13a5ecc 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -48,20 +48,14 @@ func newReferenceChannel(size int) *referenceChannel {
 	}
 }
 
-// deleteReferenceChannel ...
-func deleteReferenceChannel(smc *referenceChannel) {
-	if smc != nil {
-		close(smc.serverTxClientRx)
-		close(smc.serverRxClientTx)
-	}
-}
-
 // ReferenceTransportConnection ...
 type ReferenceTransportConnection struct {
 	name      string
 	forServer bool
-	closed    bool
 	channel   *referenceChannel
+	// closed when the connection is closed
+	done chan struct{}
+	once sync.Once
 }
 
 // NewReferenceTransportConnection ...
@@ -73,8 +67,8 @@ func NewReferenceTransportConnection(
 	return &ReferenceTransportConnection{
 		name:      name,
 		forServer: forServer,
-		closed:    false,
 		channel:   channel,
+		done:      make(chan struct{}),
 	}
 }
 
@@ -100,25 +94,27 @@ func (c *ReferenceTransportConnection) UseReference() bool {
 
 // GetReference ...
 func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("GetReference failed as connection is closed")
 		return nil, errors.New("SetReference: connection is closed")
 	}
 
-	var data interface{}
-
+	rxchan := c.channel.serverTxClientRx
 	if c.forServer {
-		data = <-c.channel.serverRxClientTx
-	} else {
-		data = <-c.channel.serverTxClientRx
+		rxchan = c.channel.serverRxClientTx
 	}
 
-	return data, nil
+	select {
+	case data := <-rxchan:
+		return data, nil
+	case <-c.done:
+		return nil, errors.New("GetReference: connection is closed")
+	}
 }
 
 // SetReference ...
 func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("SetReference failed as connection is closed")
 		return errors.New("SetReference: connection is closed")
 	}
@@ -127,23 +123,32 @@ func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
 		return errors.New("SetReference: null input")
 	}
 
+	txchan := c.channel.serverRxClientTx
 	if c.forServer {
-		c.channel.serverTxClientRx <- p
-	} else {
-		c.channel.serverRxClientTx <- p
+		txchan = c.channel.serverTxClientRx
 	}
 
-	return nil
+	select {
+	case txchan <- p:
+		return nil
+	case <-c.done:
+		return errors.New("SetReference: connection is closed")
+	}
 }
 
 // Close ...
 func (c *ReferenceTransportConnection) Close() {
-	c.closed = true
+	c.once.Do(func() { close(c.done) })
 }
 
 // Closed ...
 func (c *ReferenceTransportConnection) Closed() bool {
-	return c.closed
+	select {
+	case <-c.done:
+		return true
+	default:
+		return false
+	}
 }
 
 // ReferenceTransport ...
@@ -219,9 +224,12 @@ func (sm *ReferenceTransport) GetAddress() string {
 
 // NextConnection ...
 func (sm *ReferenceTransport) NextConnection() TransportConnection {
-	next := <-sm.next
-	sm.connection = next
-	return sm.connection
+	sm.Lock()
+	next := sm.next
+	sm.Unlock()
+
+	// nil if the transport is stopped
+	return <-next
 }
 
 // Two Transports(Client side and Server side) should use the same
@@ -239,6 +247,8 @@ func (sm *ReferenceTransport) Run() Transport {
 		return sm
 	}
 
+	sm.isRunning = true
+
 	sm.parseOptions()
 
 	mutex.Lock()
@@ -253,10 +263,13 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	ch.refCount++
 
-	sm.next <- NewReferenceTransportConnection(sm.name, sm.forServer, ch)
-
 	mutex.Unlock()
 
+	sm.connection = NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+
+	sm.next = make(chan TransportConnection, 1)
+	sm.next <- sm.connection
+
 	return sm
 }
 
@@ -279,11 +292,14 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 		if ch.refCount == 0 {
 			delete(chans, sm.address)
-			deleteReferenceChannel(ch)
 		}
 	}
 
 	mutex.Unlock()
 
+	close(sm.next)
+
+	sm.isRunning = false
+
 	return sm
 }
-- 
2.43.0


From d63febc31e83c55538186553e37656c151f678c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:46 +0000
Subject: [PATCH 21/25] fix: setters of NewProcBase and NewFeatBase instances
 returned another object

---
 feat_base.go | 8 +++++++-
 proc_base.go | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/feat_base.go b/feat_base.go
index 14bafe3..cb0ac9e 100644
--- a/feat_base.go
+++ b/feat_base.go
@@ -26,7 +26,13 @@ func NewFeatBaseInstance(name string) FeatBase {
 // NewFeatBase return a new instance that meets for Feature interface
 func NewFeatBase() Feature {
 	base := NewFeatBaseInstance("FeatBase")
-	return &base
+	return base.SetWhere(&base)
+}
+
+// SetWhere where the base is embedded in
+func (fb *FeatBase) SetWhere(where Feature) Feature {
+	fb.where = where
+	return fb.where
 }
 
 // SetName set the name
diff --git a/proc_base.go b/proc_base.go
index c87caf9..5fac5d4 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -35,7 +35,7 @@ func NewProcBaseInstance(name string) ProcBase {
 // NewProcBase return a new instance that meets for DataProcessor interface
 func NewProcBase() DataProcessor {
 	base := NewProcBaseInstance("ProcBase")
-	return &base
+	return base.SetWhere(&base)
 }
 
 // SetWhere where the base is embedded in
-- 
2.43.0


From 1a6d9f06f512d05c887f84df7e9ce4f61bbc9847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:49 +0000
Subject: [PATCH 22/25] fix: features got neither the UStack nor any event,
 overhead grew with every Run

---
 ustack_default.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ustack_default.go b/ustack_default.go
index 01a87c6..f84a77f 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -139,6 +139,11 @@ func (u *DefaultUStack) build() {
 		u.lowerDeck.SetUpper(u.processors[count-1])
 	}
 
+	for _, feature := range u.features {
+		feature.SetUStack(u)
+	}
+
+	u.overhead = 0
 	for i := 0; i < count; i++ {
 		u.processors[i].SetUStack(u)
 		u.overhead += u.processors[i].GetOverhead()
@@ -316,6 +321,9 @@ func (u *DefaultUStack) PublishEvent(event Event) UStack {
 	if u.upperDeck != nil {
 		u.upperDeck.OnEvent(event)
 	}
+	for _, feature := range u.features {
+		feature.OnEvent(event)
+	}
 	for _, processor := range u.processors {
 		processor.OnEvent(event)
 	}
-- 
2.43.0


From 1d6f2c5a1d89bb1b586e1e56bad40090e8101f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:44 +0000
Subject: [PATCH 23/25] fix: endpoints, transports and listeners raced with
 events, reentrant deletes removed the wrong one

---
 ustack_default.go | 171 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 126 insertions(+), 45 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index f84a77f..cf3b3a8 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -4,7 +4,10 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 const (
 	defaultMTU int = 2048
@@ -88,6 +91,9 @@ type DefaultUStack struct {
 	overhead   int
 	lowerDeck  DataProcessor
 	listeners  []func(Event)
+	// protects endpoints, transports and listeners, the slices are
+	// never changed in place so they can be used without the lock
+	mutex sync.Mutex
 }
 
 // NewUStack ...
@@ -196,49 +202,79 @@ func (u *DefaultUStack) GetFeatures() []Feature {
 	return u.features
 }
 
-// AddEndPoint ...
-func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
+// insertEndPoint returns false if it was added
+func (u *DefaultUStack) insertEndPoint(ep EndPoint) (before []EndPoint, ok bool) {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	for _, endpoint := range u.endpoints {
 		if endpoint == ep {
 			// was added
-			return u
+			return u.endpoints, false
 		}
 	}
 
-	u.PublishEvent(Event{
+	before = u.endpoints
+	u.endpoints = append(before[:len(before):len(before)], ep)
+	return before, true
+}
+
+// removeEndPoint returns false if it was not added
+func (u *DefaultUStack) removeEndPoint(ep EndPoint) (before []EndPoint, ok bool) {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	before = u.endpoints
+	for i, endpoint := range before {
+		if endpoint != ep {
+			continue
+		}
+
+		// delete
+		u.endpoints = append(before[:i:i], before[i+1:]...)
+		return before, true
+	}
+
+	return before, false
+}
+
+// AddEndPoint ...
+func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
+	endpoints, ok := u.insertEndPoint(ep)
+	if !ok {
+		return u
+	}
+
+	u.publishEvent(endpoints, Event{
 		Type:   UStackEventEndpointAdded,
 		Source: u,
 		Data:   ep,
 	})
 
-	u.endpoints = append(u.endpoints, ep)
 	return u
 }
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
-	for i, endpoint := range u.endpoints {
-		if endpoint != ep {
-			continue
-		}
-
-		u.PublishEvent(Event{
-			Type:   UStackEventEndpointDeleted,
-			Source: u,
-			Data:   ep,
-		})
-
-		// delete
-		u.endpoints = append(u.endpoints[:i], u.endpoints[i+1:]...)
-
-		break
+	endpoints, ok := u.removeEndPoint(ep)
+	if !ok {
+		return u
 	}
 
+	u.publishEvent(endpoints, Event{
+		Type:   UStackEventEndpointDeleted,
+		Source: u,
+		Data:   ep,
+	})
+
 	return u
 }
 
 // GetEndPoint ...
 func (u *DefaultUStack) GetEndPoint() []EndPoint {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.endpoints
 }
 
@@ -258,13 +294,46 @@ func (u *DefaultUStack) GetMTU() int {
 	return u.mtu
 }
 
-// AddTransport ...
-func (u *DefaultUStack) AddTransport(tp Transport) UStack {
+// insertTransport returns false if it was added
+func (u *DefaultUStack) insertTransport(tp Transport) (before []Transport, ok bool) {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	for _, transport := range u.transports {
 		if transport == tp {
 			// was added
-			return u
+			return u.transports, false
+		}
+	}
+
+	before = u.transports
+	u.transports = append(before[:len(before):len(before)], tp)
+	return before, true
+}
+
+// removeTransport returns false if it was not added
+func (u *DefaultUStack) removeTransport(tp Transport) (before []Transport, ok bool) {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	before = u.transports
+	for i, transport := range before {
+		if transport != tp {
+			continue
 		}
+
+		// delete
+		u.transports = append(before[:i:i], before[i+1:]...)
+		return before, true
+	}
+
+	return before, false
+}
+
+// AddTransport ...
+func (u *DefaultUStack) AddTransport(tp Transport) UStack {
+	if _, ok := u.insertTransport(tp); !ok {
+		return u
 	}
 
 	u.PublishEvent(Event{
@@ -273,49 +342,56 @@ func (u *DefaultUStack) AddTransport(tp Transport) UStack {
 		Data:   tp,
 	})
 
-	u.transports = append(u.transports, tp)
 	return u
 }
 
 // DeleteTransport ...
 func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
-	for i, transport := range u.transports {
-		if transport != tp {
-			continue
-		}
-
-		// delete
-		u.transports = append(u.transports[:i], u.transports[i+1:]...)
-
-		u.PublishEvent(Event{
-			Type:   UStackEventTransportDeleted,
-			Source: u,
-			Data:   tp,
-		})
-
-		break
+	if _, ok := u.removeTransport(tp); !ok {
+		return u
 	}
 
+	u.PublishEvent(Event{
+		Type:   UStackEventTransportDeleted,
+		Source: u,
+		Data:   tp,
+	})
+
 	return u
 }
 
 // GetTransport ...
 func (u *DefaultUStack) GetTransport() []Transport {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.transports
 }
 
 // SetEventListener ...
 func (u *DefaultUStack) SetEventListener(listener func(Event)) UStack {
-	u.listeners = append(u.listeners, listener)
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	listeners := u.listeners
+	u.listeners = append(listeners[:len(listeners):len(listeners)], listener)
 	return u
 }
 
-// PublishEvent ...
-func (u *DefaultUStack) PublishEvent(event Event) UStack {
-	for _, listener := range u.listeners {
+// getEventListener ...
+func (u *DefaultUStack) getEventListener() []func(Event) {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	return u.listeners
+}
+
+// publishEvent ...
+func (u *DefaultUStack) publishEvent(endpoints []EndPoint, event Event) {
+	for _, listener := range u.getEventListener() {
 		listener(event)
 	}
-	for _, endpoint := range u.endpoints {
+	for _, endpoint := range endpoints {
 		endpoint.OnEvent(event)
 	}
 	if u.upperDeck != nil {
@@ -330,6 +406,11 @@ func (u *DefaultUStack) PublishEvent(event Event) UStack {
 	if u.lowerDeck != nil {
 		u.lowerDeck.OnEvent(event)
 	}
+}
+
+// PublishEvent ...
+func (u *DefaultUStack) PublishEvent(event Event) UStack {
+	u.publishEvent(u.GetEndPoint(), event)
 	return u
 }
 
-- 
2.43.0


From 53126ef8af78f5ff7c8ff2f9bb2fc407cb5ea9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:46 +0000
Subject: [PATCH 24/25] fix: setting the data listener twice started two
 receivers, which reordered the data

---
 endp_default.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 67ca2aa..742a922 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync"
+
 // DefaultEndPointData ...
 type DefaultEndPointData struct {
 	connection            TransportConnection
@@ -76,19 +78,29 @@ type DefaultEndPoint struct {
 	eventListener func(EndPoint, Event)
 	dataListener  func(EndPoint, EndPointData)
 	inAutoReceive bool
+	// protects dataListener and inAutoReceive
+	mutex sync.Mutex
+}
+
+// currentDataListener returns nil if auto receive has to be finished
+func (ep *DefaultEndPoint) currentDataListener() func(EndPoint, EndPointData) {
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
+	if ep.dataListener == nil {
+		ep.inAutoReceive = false
+	}
+	return ep.dataListener
 }
 
 // autoReceive ...
 func (ep *DefaultEndPoint) autoReceive() {
-	if ep.dataListener != nil {
-		ep.inAutoReceive = true
-		for epd := range ep.rxChannel {
-			if ep.dataListener == nil {
-				ep.inAutoReceive = false
-				return
-			}
-			ep.dataListener(ep, epd)
+	for epd := range ep.rxChannel {
+		dataListener := ep.currentDataListener()
+		if dataListener == nil {
+			return
 		}
+		dataListener(ep, epd)
 	}
 }
 
@@ -113,8 +125,12 @@ func (ep *DefaultEndPoint) SetEventListener(listener func(EndPoint, Event)) EndP
 
 // SetDataListener ...
 func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)) EndPoint {
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
 	ep.dataListener = listener
-	if !ep.inAutoReceive {
+	if listener != nil && !ep.inAutoReceive {
+		ep.inAutoReceive = true
 		go ep.autoReceive()
 	}
 	return ep
-- 
2.43.0


From 26f196e338926dcc38cbd96ed889b7a9303a8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:05 +0000
Subject: [PATCH 25/25] fix: an event published without a connection crashed
 Heartbeat and StatCounter

---
 proc_heartbeat.go    | 4 ++--
 proc_stat_counter.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index f06e010..88fe4eb 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -148,10 +148,10 @@ func (hb *Heartbeat) OnLowerData(context Context) {
 func (hb *Heartbeat) OnEvent(event Event) {
 	if event.Type == UStackEventNewConnection {
 		interval := hb.intervalInSecond
-		connection := event.Data.(TransportConnection)
+		connection, ok := event.Data.(TransportConnection)
 
 		// self messages can not be sent by reference
-		if connection.UseReference() {
+		if !ok || connection.UseReference() {
 			return
 		}
 
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 7a3d168..ce5fd68 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -155,10 +155,10 @@ func (sc *StatCounter) OnEvent(event Event) {
 			return
 		}
 
-		connection := event.Data.(TransportConnection)
+		connection, ok := event.Data.(TransportConnection)
 
 		// self messages can not be sent by reference
-		if connection.UseReference() {
+		if !ok || connection.UseReference() {
 			return
 		}
 
-- 
2.43.0

