From a189125be0ae0236bce243f9328cfd239ed4a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 01/29] fix: UBuf.ReadFrom lost the data of a read that also
 returned an error

---
 ubuf.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index b9a7598..cb3ad4c 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -471,14 +471,11 @@ func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {
 
 	ub.resolveCopyOnWriteIfNeed()
 
+	// a reader may return both some data and an error
 	length, err := r.Read(ub.data.bytes[ub.writerIndex:])
-	if err != nil {
-		return 0, err
-	}
-
 	ub.writerIndex += length
 
-	return int64(length), nil
+	return int64(length), err
 }
 
 // ReadU16 returns uint16 data or error
-- 
2.43.0


From c8c3223c8c455753b83b5bdd98d05cb3459e9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 02/29] fix: UBuf.WriteTo kept data that a failing writer had
 already taken

---
 ubuf.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index cb3ad4c..61fad25 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -352,13 +352,9 @@ func (ub *UBuf) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])
-	if err != nil {
-		return int64(written), err
-	}
-
 	ub.readerIndex += written
 
-	return int64(written), nil
+	return int64(written), err
 }
 
 // WriteU16 writes uint16 data into data space
-- 
2.43.0


From e1b00e71adf4536468e544189c1d054bc7704569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:42 +0000
Subject: [PATCH 03/29] fix: UBuf over a slice with spare capacity panicked
 when writing

---
 ubuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ubuf.go b/ubuf.go
index 61fad25..7430f01 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -105,7 +105,7 @@ func UBufFromWithHeadReserved(data []byte, reserved int) *UBuf {
 		writerIndex: reserved,
 		data: &uBufData{
 			refCount: 1,
-			bytes:    data,
+			bytes:    data[:capacity],
 		},
 		copyOnWrite: false,
 	}
-- 
2.43.0


From 25253080f48e1eb2e262ed2f195348c89d83afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:43 +0000
Subject: [PATCH 04/29] fix: writing into the head space of a copy-on-write
 UBuf panicked

---
 ubuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ubuf.go b/ubuf.go
index 7430f01..9acbad6 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -561,6 +561,9 @@ func (ub *UBuf) writeHead(dataSize int, fn func() error) error {
 		return errors.New("UBuf Head room is not enouth")
 	}
 
+	// the readable data is copied by the indexes, so do it before moving them
+	ub.resolveCopyOnWriteIfNeed()
+
 	// all the writes are from writerIndex
 	// backup the writerIndex first
 	oldWriterIndex := ub.writerIndex
-- 
2.43.0


From 97898930930b4c979aa71f154359a352fa1483e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 05/29] fix: copy-on-write UBuf released the shared data before
 copying it

---
 ubuf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 9acbad6..b14cddb 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -175,9 +175,6 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 
 	// buffer data is referenced by some snapshot(s)
 
-	// decrease the count
-	atomic.AddInt32(&ub.data.refCount, -1)
-
 	// make buffer data copy
 	data := &uBufData{
 		refCount: 1,
@@ -187,6 +184,9 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 	fmt.Println("make COW")
 	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])
 
+	// decrease the count only now, the last user may modify the data at once
+	atomic.AddInt32(&ub.data.refCount, -1)
+
 	// update
 	ub.data = data
 }
-- 
2.43.0


From c91d18f244a01ada83f3190cb4f1a502665525e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:24 +0000
Subject: [PATCH 06/29] fix: FrameDecoder passed outgoing references up again
 instead of down

---
 proc_frame_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 0666121..10e5c0c 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -36,7 +36,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
 	if context.GetConnection().UseReference() {
-		frm.upper.OnUpperData(context)
+		frm.lower.OnUpperData(context)
 		return
 	}
 
-- 
2.43.0


From eaac6c0353cb37e60be37ab6371a4e6b93f3b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:25 +0000
Subject: [PATCH 07/29] fix: a frame of length zero from the peer crashed the
 FrameDecoder

---
 proc_frame_decoder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 10e5c0c..7a095c3 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -53,6 +53,14 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
+// newFrameBuffer returns a buffer for one frame, which may be empty
+func newFrameBuffer(length int) *UBuf {
+	if length == 0 {
+		length = 1
+	}
+	return UBufAlloc(length)
+}
+
 // handleCurrentData ...
 func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 	// if there is data in cache, put current data into cache
@@ -97,7 +105,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 
 		// here: expectedLength < actuallyLength
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		newUbuf := newFrameBuffer(int(expectedLength))
 
 		// drop size-field-data by dummy reading
 		ub.ReadU32BE()
@@ -146,7 +154,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 		}
 
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		newUbuf := newFrameBuffer(int(expectedLength))
 
 		// drop size-field-data by dummy reading
 		frm.cache.ReadU32BE()
-- 
2.43.0


From fc733c4c5daf8da3a9c56333f196b758b0c7f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:12 +0000
Subject: [PATCH 08/29] fix: FrameDecoder lost or corrupted frames split across
 several reads

---
 proc_frame_decoder.go | 61 +++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 7a095c3..7fb82eb 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -61,12 +61,24 @@ func newFrameBuffer(length int) *UBuf {
 	return UBufAlloc(length)
 }
 
-// handleCurrentData ...
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
+// fillCache moves as much data as possible into the cache
+func (frm *FrameDecoder) fillCache(ub *UBuf) {
+	if frm.cache.TailWritableLength() < ub.ReadableLength() {
+		// regain the room of the data that was already read
+		rest := make([]byte, frm.cache.ReadableLength())
+		frm.cache.Read(rest)
+		frm.cache.Reset()
+		frm.cache.Write(rest)
+	}
+
+	frm.cache.ReadFrom(ub)
+}
+
+// handleCurrentData returns true if nothing is left to be cached
+func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 	// if there is data in cache, put current data into cache
 	if frm.cache.ReadableLength() > 0 {
-		frm.cache.ReadFrom(ub)
-		return
+		return false
 	}
 
 	// cache is empty
@@ -74,23 +86,21 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 	for {
 		// very less data, cache the data
 		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
-			frm.cache.ReadFrom(ub)
-			return
+			return false
 		}
 
 		expectedLength, err := ub.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
-			return
+			return true
 		}
 
-		actuallyLength := uint32(ub.ReadableLength())
+		// the size field does not count itself
+		actuallyLength := uint32(ub.ReadableLength() - FrameLengthFieldSizeInByte)
 
 		// not a complete frame, cache the data
 		if expectedLength > actuallyLength {
-			frm.cache.ReadFrom(ub)
-			return
+			return false
 		}
 
 		// just one frame, need not to alloc new UBuf
@@ -100,7 +110,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 
 			context.SetBuffer(ub)
 			frm.upper.OnLowerData(context)
-			return
+			return true
 		}
 
 		// here: expectedLength < actuallyLength
@@ -114,8 +124,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 		_, err = io.CopyN(newUbuf, ub, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
-			return
+			return true
 		}
 
 		context.SetBuffer(newUbuf)
@@ -129,6 +138,8 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 	// handle as much as possiable with loop
 	for {
+		frm.fillCache(ub)
+
 		cachedLength := frm.cache.ReadableLength()
 
 		if cachedLength == 0 {
@@ -148,7 +159,19 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		if cachedLength < int(expectedLength) {
+		// the size field does not count itself
+		frameLength := uint64(expectedLength) + uint64(FrameLengthFieldSizeInByte)
+
+		if frameLength > uint64(frm.cache.Capacity()) {
+			// the frame can never be completed and there is no way to
+			// find the next one
+			fmt.Println("FrameDecoder: frame is too big:", expectedLength)
+			frm.cache.Reset()
+			context.GetConnection().Close()
+			return
+		}
+
+		if uint64(cachedLength) < frameLength {
 			// wait for more data
 			return
 		}
@@ -188,10 +211,10 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 
 	if frm.enable {
 		// handle current received data
-		frm.handleCurrentData(context, ub)
-
-		// handle history cached data
-		frm.handleCachedData(context, ub)
+		if !frm.handleCurrentData(context, ub) {
+			// handle history cached data
+			frm.handleCachedData(context, ub)
+		}
 	} else {
 		frm.upper.OnLowerData(context)
 	}
-- 
2.43.0


From a5f20bfa88e1e664f8643052b0978a956eb80715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:14 +0000
Subject: [PATCH 09/29] fix: FrameDecoder mixed up the pending frames of
 different connections

---
 proc_frame_decoder.go | 87 ++++++++++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 26 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 7fb82eb..01ea2dc 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -7,6 +7,7 @@ package ustack
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 const FrameLengthFieldSizeInByte int = 4
@@ -15,7 +16,8 @@ const FrameLengthFieldSizeInByte int = 4
 type FrameDecoder struct {
 	ProcBase
 	cacheCapacity int
-	cache         *UBuf
+	mutex         sync.Mutex
+	caches        map[TransportConnection]*UBuf
 }
 
 // NewFrameDecoder ...
@@ -23,7 +25,7 @@ func NewFrameDecoder() DataProcessor {
 	frm := &FrameDecoder{
 		ProcBase:      NewProcBaseInstance("FrameDecoder"),
 		cacheCapacity: 1024,
-		cache:         nil,
+		caches:        make(map[TransportConnection]*UBuf),
 	}
 	return frm.ProcBase.SetWhere(frm)
 }
@@ -53,6 +55,23 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
+// getCache returns the cache of the connection, nil if there is no one
+func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	cache, ok := frm.caches[connection]
+	if !ok {
+		if connection.Closed() {
+			// the begin of the current frame may be lost
+			return nil
+		}
+		cache = UBufAlloc(frm.cacheCapacity)
+		frm.caches[connection] = cache
+	}
+	return cache
+}
+
 // newFrameBuffer returns a buffer for one frame, which may be empty
 func newFrameBuffer(length int) *UBuf {
 	if length == 0 {
@@ -62,22 +81,22 @@ func newFrameBuffer(length int) *UBuf {
 }
 
 // fillCache moves as much data as possible into the cache
-func (frm *FrameDecoder) fillCache(ub *UBuf) {
-	if frm.cache.TailWritableLength() < ub.ReadableLength() {
+func (frm *FrameDecoder) fillCache(cache *UBuf, ub *UBuf) {
+	if cache.TailWritableLength() < ub.ReadableLength() {
 		// regain the room of the data that was already read
-		rest := make([]byte, frm.cache.ReadableLength())
-		frm.cache.Read(rest)
-		frm.cache.Reset()
-		frm.cache.Write(rest)
+		rest := make([]byte, cache.ReadableLength())
+		cache.Read(rest)
+		cache.Reset()
+		cache.Write(rest)
 	}
 
-	frm.cache.ReadFrom(ub)
+	cache.ReadFrom(ub)
 }
 
 // handleCurrentData returns true if nothing is left to be cached
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
+func (frm *FrameDecoder) handleCurrentData(context Context, cache *UBuf, ub *UBuf) bool {
 	// if there is data in cache, put current data into cache
-	if frm.cache.ReadableLength() > 0 {
+	if cache.ReadableLength() > 0 {
 		return false
 	}
 
@@ -135,15 +154,15 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 }
 
 // handleCachedData ...
-func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
+func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf, ub *UBuf) {
 	// handle as much as possiable with loop
 	for {
-		frm.fillCache(ub)
+		frm.fillCache(cache, ub)
 
-		cachedLength := frm.cache.ReadableLength()
+		cachedLength := cache.ReadableLength()
 
 		if cachedLength == 0 {
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -152,21 +171,21 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		expectedLength, err := frm.cache.PeekU32BE()
+		expectedLength, err := cache.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
 		// the size field does not count itself
 		frameLength := uint64(expectedLength) + uint64(FrameLengthFieldSizeInByte)
 
-		if frameLength > uint64(frm.cache.Capacity()) {
+		if frameLength > uint64(cache.Capacity()) {
 			// the frame can never be completed and there is no way to
 			// find the next one
 			fmt.Println("FrameDecoder: frame is too big:", expectedLength)
-			frm.cache.Reset()
+			cache.Reset()
 			context.GetConnection().Close()
 			return
 		}
@@ -180,13 +199,13 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 		newUbuf := newFrameBuffer(int(expectedLength))
 
 		// drop size-field-data by dummy reading
-		frm.cache.ReadU32BE()
+		cache.ReadU32BE()
 
 		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, frm.cache, int64(expectedLength))
+		_, err = io.CopyN(newUbuf, cache, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -210,16 +229,34 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
+		cache := frm.getCache(context.GetConnection())
+		if cache == nil {
+			return
+		}
+
 		// handle current received data
-		if !frm.handleCurrentData(context, ub) {
+		if !frm.handleCurrentData(context, cache, ub) {
 			// handle history cached data
-			frm.handleCachedData(context, ub)
+			frm.handleCachedData(context, cache, ub)
 		}
 	} else {
 		frm.upper.OnLowerData(context)
 	}
 }
 
+// OnEvent ...
+func (frm *FrameDecoder) OnEvent(event Event) {
+	if event.Type != UStackEventConnectionClosed {
+		return
+	}
+
+	if connection, ok := event.Data.(TransportConnection); ok {
+		frm.mutex.Lock()
+		delete(frm.caches, connection)
+		frm.mutex.Unlock()
+	}
+}
+
 // Run ...
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
@@ -230,7 +267,5 @@ func (frm *FrameDecoder) Run() DataProcessor {
 		fmt.Println("FrameDecoder: option CacheCapacity:", frm.cacheCapacity)
 	}
 
-	frm.cache = UBufAlloc(frm.cacheCapacity)
-
 	return frm
 }
-- 
2.43.0


From c42b35f5e14af1f3a6273b0d5486d838255589a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:46 +0000
Subject: [PATCH 10/29] fix: frames cut out of a larger read had no head space
 to be echoed

---
 proc_frame_decoder.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 01ea2dc..d34b18f 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -72,12 +72,11 @@ func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
 	return cache
 }
 
-// newFrameBuffer returns a buffer for one frame, which may be empty
-func newFrameBuffer(length int) *UBuf {
-	if length == 0 {
-		length = 1
-	}
-	return UBufAlloc(length)
+// newFrameBuffer returns a buffer for one frame, which may be empty,
+// with head space for sending it back
+func (frm *FrameDecoder) newFrameBuffer(length int) *UBuf {
+	overhead := frm.ustack.GetOverhead()
+	return UBufAllocWithHeadReserved(overhead+length, overhead)
 }
 
 // fillCache moves as much data as possible into the cache
@@ -134,7 +133,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, cache *UBuf, ub *UBu
 
 		// here: expectedLength < actuallyLength
 		// there must have at least one complete frame
-		newUbuf := newFrameBuffer(int(expectedLength))
+		newUbuf := frm.newFrameBuffer(int(expectedLength))
 
 		// drop size-field-data by dummy reading
 		ub.ReadU32BE()
@@ -196,7 +195,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf, ub *UBuf
 		}
 
 		// there must have at least one complete frame
-		newUbuf := newFrameBuffer(int(expectedLength))
+		newUbuf := frm.newFrameBuffer(int(expectedLength))
 
 		// drop size-field-data by dummy reading
 		cache.ReadU32BE()
-- 
2.43.0


From c39361267ca40db19c024257f1a07f31c79f851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:48 +0000
Subject: [PATCH 11/29] fix: Filter and Forwarder called a nil function first
 and crashed

---
 proc_filter.go    | 2 +-
 proc_forwarder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 3d6f4ad..486fdcb 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -18,7 +18,7 @@ type Filter struct {
 func NewFilter(filterFn ...FilterFn) DataProcessor {
 	filter := &Filter{
 		ProcBase:  NewProcBaseInstance("Filter"),
-		filterFn:  make([]FilterFn, 1),
+		filterFn:  make([]FilterFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index dfe1199..b68ac3d 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -18,7 +18,7 @@ type Forwarder struct {
 func NewForwarder(forwardFn ...ForwardFn) DataProcessor {
 	fwd := &Forwarder{
 		ProcBase:  NewProcBaseInstance("Forwarder"),
-		forwardFn: make([]ForwardFn, 1),
+		forwardFn: make([]ForwardFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
-- 
2.43.0


From ec8b6c3548a4afa9bce5bd980891aebbcf4bd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 12/29] fix: deleted endpoints kept sending, and the endpoint
 map was read without lock

---
 proc_upperdeck.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index d889fd8..786c2a1 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -15,10 +15,8 @@ type UpperDeck struct {
 	endpoints map[EndPoint]chan bool
 }
 
+// existsEndpoint must be called with the lock held
 func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
-	ud.Lock()
-	defer ud.Unlock()
-
 	for endpoint := range ud.endpoints {
 		if endpoint == ep || endpoint.GetSession() == ep.GetSession() {
 			return true
@@ -29,14 +27,15 @@ func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
 
 // accpetEndpoint ...
 func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
+	ud.Lock()
+	defer ud.Unlock()
+
 	if ud.existsEndpoint(ep) {
 		return
 	}
 
-	ud.Lock()
-	defer ud.Unlock()
-
-	ud.endpoints[ep] = make(chan bool, 1)
+	stopchan := make(chan bool, 1)
+	ud.endpoints[ep] = stopchan
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -46,11 +45,16 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	// read data from endpoint and pass it to lower
 	go func() {
 		for {
+			// once deleted do not take more data
 			select {
-			case stop := <-ud.endpoints[ep]:
-				if stop {
-					return
-				}
+			case <-stopchan:
+				return
+			default:
+			}
+
+			select {
+			case <-stopchan:
+				return
 			case epd := <-txchan:
 				destinationSession := session
 				if epd.HasDestinationSession() {
-- 
2.43.0


From 22add367efd0e200007847f7e7fb75e6794f0b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 13/29] fix: data read together with the end of a connection
 was dropped

---
 proc_lowerdeck.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index fb8b912..2eea759 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -73,15 +73,17 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 						ub := UBufAlloc(ld.ustack.GetMTU())
 
 						n, err := ub.ReadFrom(connection)
+						if n > 0 {
+							// invoke the uplayer
+							ld.upper.OnLowerData(
+								NewUStackContext().
+									SetConnection(connection).
+									SetBuffer(ub))
+						}
 						if n == 0 || err != nil {
 							ld.closeConnection(connection)
 							return
 						}
-						// invoke the uplayer
-						ld.upper.OnLowerData(
-							NewUStackContext().
-								SetConnection(connection).
-								SetBuffer(ub))
 					}
 				}
 			}()
-- 
2.43.0


From aa736c40e6cc5d4a5e12e2f48d5f96dcf2751afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:12 +0000
Subject: [PATCH 14/29] fix: a connection was reported closed several times

---
 proc_lowerdeck.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index 2eea759..e303475 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -4,17 +4,24 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 // LowerDeck manages transports
 type LowerDeck struct {
 	ProcBase
+	sync.Mutex
+	// connections which are reported as new but not as closed
+	connections map[TransportConnection]bool
 }
 
 // NewLowerDeck returns a new instance
 func NewLowerDeck() DataProcessor {
 	ld := &LowerDeck{
-		NewProcBaseInstance("LowerDeck"),
+		ProcBase:    NewProcBaseInstance("LowerDeck"),
+		connections: make(map[TransportConnection]bool),
 	}
 	return ld.ProcBase.SetWhere(ld)
 }
@@ -23,6 +30,17 @@ func (ld *LowerDeck) closeConnection(c TransportConnection) {
 	// close first
 	c.Close()
 
+	// the reader and the writers may all find the connection broken,
+	// but report it only once
+	ld.Lock()
+	opened := ld.connections[c]
+	delete(ld.connections, c)
+	ld.Unlock()
+
+	if !opened {
+		return
+	}
+
 	// publish event
 	ld.ustack.PublishEvent(Event{
 		Type:   UStackEventConnectionClosed,
@@ -55,6 +73,11 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 				Data:   connection,
 			})
 
+			// from now on it can be reported as closed
+			ld.Lock()
+			ld.connections[connection] = true
+			ld.Unlock()
+
 			// New routine to continue receive data from connection
 			go func() {
 				for {
-- 
2.43.0


From 7208395b49841deec160aaf61e27088b30c21871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:49 +0000
Subject: [PATCH 15/29] fix: changing the registered components while an event
 is published skipped or repeated receivers

---
 ustack_default.go | 74 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index 01a87c6..38b8a7f 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -4,7 +4,10 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 const (
 	defaultMTU int = 2048
@@ -88,6 +91,9 @@ type DefaultUStack struct {
 	overhead   int
 	lowerDeck  DataProcessor
 	listeners  []func(Event)
+	// protects endpoints, transports and listeners, these slices
+	// are replaced but never changed
+	mutex sync.Mutex
 }
 
 // NewUStack ...
@@ -193,47 +199,58 @@ func (u *DefaultUStack) GetFeatures() []Feature {
 
 // AddEndPoint ...
 func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
-	for _, endpoint := range u.endpoints {
+	u.mutex.Lock()
+	endpoints := u.endpoints
+	for _, endpoint := range endpoints {
 		if endpoint == ep {
 			// was added
+			u.mutex.Unlock()
 			return u
 		}
 	}
+	u.endpoints = append(append([]EndPoint{}, endpoints...), ep)
+	u.mutex.Unlock()
 
-	u.PublishEvent(Event{
+	u.publishEvent(Event{
 		Type:   UStackEventEndpointAdded,
 		Source: u,
 		Data:   ep,
-	})
+	}, endpoints)
 
-	u.endpoints = append(u.endpoints, ep)
 	return u
 }
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
-	for i, endpoint := range u.endpoints {
+	u.mutex.Lock()
+	endpoints := u.endpoints
+	for i, endpoint := range endpoints {
 		if endpoint != ep {
 			continue
 		}
 
-		u.PublishEvent(Event{
+		// delete
+		u.endpoints = append(append([]EndPoint{}, endpoints[:i]...), endpoints[i+1:]...)
+		u.mutex.Unlock()
+
+		u.publishEvent(Event{
 			Type:   UStackEventEndpointDeleted,
 			Source: u,
 			Data:   ep,
-		})
+		}, endpoints)
 
-		// delete
-		u.endpoints = append(u.endpoints[:i], u.endpoints[i+1:]...)
-
-		break
+		return u
 	}
+	u.mutex.Unlock()
 
 	return u
 }
 
 // GetEndPoint ...
 func (u *DefaultUStack) GetEndPoint() []EndPoint {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.endpoints
 }
 
@@ -255,12 +272,16 @@ func (u *DefaultUStack) GetMTU() int {
 
 // AddTransport ...
 func (u *DefaultUStack) AddTransport(tp Transport) UStack {
+	u.mutex.Lock()
 	for _, transport := range u.transports {
 		if transport == tp {
 			// was added
+			u.mutex.Unlock()
 			return u
 		}
 	}
+	u.transports = append(append([]Transport{}, u.transports...), tp)
+	u.mutex.Unlock()
 
 	u.PublishEvent(Event{
 		Type:   UStackEventTransportAdded,
@@ -268,19 +289,20 @@ func (u *DefaultUStack) AddTransport(tp Transport) UStack {
 		Data:   tp,
 	})
 
-	u.transports = append(u.transports, tp)
 	return u
 }
 
 // DeleteTransport ...
 func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
+	u.mutex.Lock()
 	for i, transport := range u.transports {
 		if transport != tp {
 			continue
 		}
 
 		// delete
-		u.transports = append(u.transports[:i], u.transports[i+1:]...)
+		u.transports = append(append([]Transport{}, u.transports[:i]...), u.transports[i+1:]...)
+		u.mutex.Unlock()
 
 		u.PublishEvent(Event{
 			Type:   UStackEventTransportDeleted,
@@ -288,29 +310,45 @@ func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
 			Data:   tp,
 		})
 
-		break
+		return u
 	}
+	u.mutex.Unlock()
 
 	return u
 }
 
 // GetTransport ...
 func (u *DefaultUStack) GetTransport() []Transport {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.transports
 }
 
 // SetEventListener ...
 func (u *DefaultUStack) SetEventListener(listener func(Event)) UStack {
-	u.listeners = append(u.listeners, listener)
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	u.listeners = append(append([]func(Event){}, u.listeners...), listener)
 	return u
 }
 
 // PublishEvent ...
 func (u *DefaultUStack) PublishEvent(event Event) UStack {
-	for _, listener := range u.listeners {
+	return u.publishEvent(event, u.GetEndPoint())
+}
+
+// publishEvent ...
+func (u *DefaultUStack) publishEvent(event Event, endpoints []EndPoint) UStack {
+	u.mutex.Lock()
+	listeners := u.listeners
+	u.mutex.Unlock()
+
+	for _, listener := range listeners {
 		listener(event)
 	}
-	for _, endpoint := range u.endpoints {
+	for _, endpoint := range endpoints {
 		endpoint.OnEvent(event)
 	}
 	if u.upperDeck != nil {
-- 
2.43.0


From 9ef3f72864398d790ba9b1c92399197ec460fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:24 +0000
Subject: [PATCH 16/29] fix: features got neither their stack nor any event,
 and their setters returned another object

---
 feat_base.go      | 7 +++++++
 ustack_default.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/feat_base.go b/feat_base.go
index 14bafe3..2e4c523 100644
--- a/feat_base.go
+++ b/feat_base.go
@@ -26,9 +26,16 @@ func NewFeatBaseInstance(name string) FeatBase {
 // NewFeatBase return a new instance that meets for Feature interface
 func NewFeatBase() Feature {
 	base := NewFeatBaseInstance("FeatBase")
+	base.where = &base
 	return &base
 }
 
+// SetWhere where the base is embedded in
+func (fb *FeatBase) SetWhere(where Feature) Feature {
+	fb.where = where
+	return fb.where
+}
+
 // SetName set the name
 func (fb *FeatBase) SetName(name string) Feature {
 	fb.name = name
diff --git a/ustack_default.go b/ustack_default.go
index 38b8a7f..b23da45 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -145,6 +145,10 @@ func (u *DefaultUStack) build() {
 		u.lowerDeck.SetUpper(u.processors[count-1])
 	}
 
+	for _, ft := range u.features {
+		ft.SetUStack(u)
+	}
+
 	for i := 0; i < count; i++ {
 		u.processors[i].SetUStack(u)
 		u.overhead += u.processors[i].GetOverhead()
@@ -357,6 +361,9 @@ func (u *DefaultUStack) publishEvent(event Event, endpoints []EndPoint) UStack {
 	for _, processor := range u.processors {
 		processor.OnEvent(event)
 	}
+	for _, feature := range u.features {
+		feature.OnEvent(event)
+	}
 	if u.lowerDeck != nil {
 		u.lowerDeck.OnEvent(event)
 	}
-- 
2.43.0


From 4e6eba0389fc15e6634c831254de5535e9ee859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:26 +0000
Subject: [PATCH 17/29] fix: sending data without a connection crashed instead
 of being dropped

---
 proc_base.go          | 6 ++++++
 proc_frame_decoder.go | 4 ++--
 proc_heartbeat.go     | 4 ++--
 proc_load_balancer.go | 4 ++--
 proc_stat_counter.go  | 4 ++--
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/proc_base.go b/proc_base.go
index 6c71649..0b2f34f 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -107,6 +107,12 @@ func (base *ProcBase) SetLower(lower DataProcessor) DataProcessor {
 	return base.where
 }
 
+// useReference tells if the context belongs to a connection of references
+func useReference(context Context) bool {
+	connection := context.GetConnection()
+	return connection != nil && connection.UseReference()
+}
+
 // OnUpperData is called when upper layer sending data
 func (base *ProcBase) OnUpperData(context Context) {
 }
diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index d34b18f..ed722bc 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -37,7 +37,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.lower.OnUpperData(context)
 		return
 	}
@@ -217,7 +217,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf, ub *UBuf
 
 // OnLowerData ...
 func (frm *FrameDecoder) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3b9a55d..71c495a 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -93,7 +93,7 @@ func (hb *Heartbeat) GetOverhead() int {
 
 // OnUpperData ...
 func (hb *Heartbeat) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.lower.OnUpperData(context)
 		return
 	}
@@ -110,7 +110,7 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (hb *Heartbeat) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index cad6075..5d62588 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -37,7 +37,7 @@ func (lb *LoadBalancer) GetOverhead() int {
 
 // OnUpperData ...
 func (lb *LoadBalancer) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.lower.OnUpperData(context)
 		return
 	}
@@ -59,7 +59,7 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (lb *LoadBalancer) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 6cb5643..481192b 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -41,7 +41,7 @@ func (hb *StatCounter) GetOverhead() int {
 
 // OnUpperData ...
 func (sc *StatCounter) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.lower.OnUpperData(context)
 		return
 	}
@@ -107,7 +107,7 @@ func (sc *StatCounter) show(context Context) {
 
 // OnLowerData ...
 func (sc *StatCounter) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.upper.OnLowerData(context)
 		return
 	}
-- 
2.43.0


From 1bcd35d1bd58fed62e7055779fea8628ba3b30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:27 +0000
Subject: [PATCH 18/29] fix: StatCounter lost counts of concurrent messages

---
 proc_stat_counter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 481192b..ed4370d 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -6,6 +6,7 @@ package ustack
 
 import (
 	"fmt"
+	"sync"
 	"time"
 )
 
@@ -19,6 +20,7 @@ const (
 type StatCounter struct {
 	ProcBase
 	intervalInSecond int
+	mutex            sync.Mutex
 	txCounter        uint64
 	rxCounter        uint64
 }
@@ -52,7 +54,9 @@ func (sc *StatCounter) OnUpperData(context Context) {
 	}
 
 	if sc.enable {
+		sc.mutex.Lock()
 		sc.txCounter++
+		sc.mutex.Unlock()
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
@@ -83,8 +87,10 @@ func (sc *StatCounter) response(context Context) {
 
 	ub.WriteHeadByte(StatCounterSelfMessageResTag)
 
+	sc.mutex.Lock()
 	ub.WriteU64BE(sc.txCounter)
 	ub.WriteU64BE(sc.rxCounter)
+	sc.mutex.Unlock()
 
 	ub.Write([]byte(sc.ustack.GetName()))
 
@@ -134,7 +140,9 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			sc.show(context)
 			return
 		} else {
+			sc.mutex.Lock()
 			sc.rxCounter++
+			sc.mutex.Unlock()
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
 	}
-- 
2.43.0


From 6a263c5a841424373b3d76821f2efd126546af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:29 +0000
Subject: [PATCH 19/29] fix: Heartbeat and StatCounter broke connections of
 references by sending to them

---
 proc_heartbeat.go    | 5 +++++
 proc_stat_counter.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 71c495a..1055b5f 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -141,6 +141,11 @@ func (hb *Heartbeat) OnEvent(event Event) {
 		interval := hb.intervalInSecond
 		connection := event.Data.(TransportConnection)
 
+		// references carry no heartbeats
+		if connection.UseReference() {
+			return
+		}
+
 		hb.updateMonitor(connection)
 
 		go func() {
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index ed4370d..c6e719f 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -161,6 +161,11 @@ func (sc *StatCounter) OnEvent(event Event) {
 
 		connection := event.Data.(TransportConnection)
 
+		// references carry no requests
+		if connection.UseReference() {
+			return
+		}
+
 		go func() {
 			for {
 				if connection.Closed() {
-- 
2.43.0


From 34b1dbab184bc2f448905cc6cfe7b3db0536dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:31 +0000
Subject: [PATCH 20/29] fix: Heartbeat reported closed connections as lost and
 held its lock while publishing

---
 proc_heartbeat.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 1055b5f..b28c301 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -56,23 +56,36 @@ func (hb *Heartbeat) deleteMonitor(connection TransportConnection) {
 	}
 }
 
-// deleteMonitor ...
-func (hb *Heartbeat) check() {
+// takeLost returns the lost connections and stops monitoring them
+func (hb *Heartbeat) takeLost() []TransportConnection {
 	hb.mutex.Lock()
 	defer hb.mutex.Unlock()
 
-	if len(hb.monitors) == 0 {
-		return
-	}
+	var lost []TransportConnection
 
 	for connection, lastTime := range hb.monitors {
-		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
+		if connection.Closed() {
+			// it can not get heartbeats any more
+			delete(hb.monitors, connection)
 			continue
 		}
 
-		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
+		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
+			continue
+		}
 
 		delete(hb.monitors, connection)
+		lost = append(lost, connection)
+	}
+
+	return lost
+}
+
+// check ...
+func (hb *Heartbeat) check() {
+	// without lock, the event listeners may get here again
+	for _, connection := range hb.takeLost() {
+		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
 
 		if hb.closeOnLost {
 			connection.Close()
-- 
2.43.0


From 2f76aab67a2a5b94782253b1fef204e6a12dc75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:57 +0000
Subject: [PATCH 21/29] fix: Loopback ignored being disabled

---
 proc_loopback.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/proc_loopback.go b/proc_loopback.go
index 42ce4be..92e397a 100644
--- a/proc_loopback.go
+++ b/proc_loopback.go
@@ -21,6 +21,17 @@ func NewLoopback() DataProcessor {
 
 // OnUpperData sends back the message
 func (lb *Loopback) OnUpperData(context Context) {
-	fmt.Println("Loopback: send back the uplayer data")
-	lb.upper.OnLowerData(context)
+	if lb.enable {
+		fmt.Println("Loopback: send back the uplayer data")
+		lb.upper.OnLowerData(context)
+	} else {
+		lb.lower.OnUpperData(context)
+	}
+}
+
+// OnLowerData ...
+func (lb *Loopback) OnLowerData(context Context) {
+	if !lb.enable {
+		lb.upper.OnLowerData(context)
+	}
 }
-- 
2.43.0


From c9ee00c2879a00be5a6aac9d76b444c0698ca30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:59 +0000
Subject: [PATCH 22/29] fix: changing the data listener of an endpoint lost or
 reordered data

---
 endp_default.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 67ca2aa..5699250 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync"
+
 // DefaultEndPointData ...
 type DefaultEndPointData struct {
 	connection            TransportConnection
@@ -74,20 +76,34 @@ type DefaultEndPoint struct {
 	txChannel     chan EndPointData
 	rxChannel     chan EndPointData
 	eventListener func(EndPoint, Event)
+	mutex         sync.Mutex
 	dataListener  func(EndPoint, EndPointData)
 	inAutoReceive bool
+	// closed and replaced when the data listener is changed
+	listenerChanged chan struct{}
 }
 
 // autoReceive ...
 func (ep *DefaultEndPoint) autoReceive() {
-	if ep.dataListener != nil {
-		ep.inAutoReceive = true
-		for epd := range ep.rxChannel {
-			if ep.dataListener == nil {
-				ep.inAutoReceive = false
+	for {
+		ep.mutex.Lock()
+		listener := ep.dataListener
+		changed := ep.listenerChanged
+		ep.mutex.Unlock()
+
+		if listener == nil {
+			// leave the data in the channel
+			<-changed
+			continue
+		}
+
+		select {
+		case <-changed:
+		case epd, ok := <-ep.rxChannel:
+			if !ok {
 				return
 			}
-			ep.dataListener(ep, epd)
+			listener(ep, epd)
 		}
 	}
 }
@@ -102,6 +118,8 @@ func NewEndPoint(name string, session int) EndPoint {
 		eventListener: nil,
 		dataListener:  nil,
 		inAutoReceive: false,
+
+		listenerChanged: make(chan struct{}),
 	}
 }
 
@@ -113,8 +131,16 @@ func (ep *DefaultEndPoint) SetEventListener(listener func(EndPoint, Event)) EndP
 
 // SetDataListener ...
 func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)) EndPoint {
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
 	ep.dataListener = listener
-	if !ep.inAutoReceive {
+	close(ep.listenerChanged)
+	ep.listenerChanged = make(chan struct{})
+
+	// one routine serves all the listeners
+	if !ep.inAutoReceive && listener != nil {
+		ep.inAutoReceive = true
 		go ep.autoReceive()
 	}
 	return ep
-- 
2.43.0


From 4e747b8c415af9c57fdf286b81bd62f51f44a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:01 +0000
Subject: [PATCH 23/29] fix: data race on the closed flag of connections

---
 tran_reference.go | 13 +++++++------
 tran_tcp.go       | 13 +++++++------
 tran_unix.go      | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index e1ebfe2..d295ee3 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"sync"
+	"sync/atomic"
 )
 
 //              Server                                                            Client
@@ -60,7 +61,7 @@ func deleteReferenceChannel(smc *referenceChannel) {
 type ReferenceTransportConnection struct {
 	name      string
 	forServer bool
-	closed    bool
+	closed    int32
 	channel   *referenceChannel
 }
 
@@ -73,7 +74,7 @@ func NewReferenceTransportConnection(
 	return &ReferenceTransportConnection{
 		name:      name,
 		forServer: forServer,
-		closed:    false,
+		closed:    0,
 		channel:   channel,
 	}
 }
@@ -100,7 +101,7 @@ func (c *ReferenceTransportConnection) UseReference() bool {
 
 // GetReference ...
 func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("GetReference failed as connection is closed")
 		return nil, errors.New("SetReference: connection is closed")
 	}
@@ -118,7 +119,7 @@ func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error)
 
 // SetReference ...
 func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("SetReference failed as connection is closed")
 		return errors.New("SetReference: connection is closed")
 	}
@@ -138,12 +139,12 @@ func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *ReferenceTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 }
 
 // Closed ...
 func (c *ReferenceTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) != 0
 }
 
 // ReferenceTransport ...
diff --git a/tran_tcp.go b/tran_tcp.go
index ea70b73..cff8383 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -11,6 +11,7 @@ import (
 	"log"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -18,7 +19,7 @@ import (
 type TCPTransportConnection struct {
 	name   string
 	conn   net.Conn
-	closed bool
+	closed int32
 }
 
 // NewTCPTransportConnection ...
@@ -26,7 +27,7 @@ func NewTCPTransportConnection(name string, conn net.Conn) TransportConnection {
 	return &TCPTransportConnection{
 		name:   name,
 		conn:   conn,
-		closed: false,
+		closed: 0,
 	}
 }
 
@@ -37,7 +38,7 @@ func (c *TCPTransportConnection) GetName() string {
 
 // Read ...
 func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("read failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -54,7 +55,7 @@ func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *TCPTransportConnection) Write(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("write failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -79,13 +80,13 @@ func (c *TCPTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *TCPTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 	c.conn.Close()
 }
 
 // Closed ...
 func (c *TCPTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) != 0
 }
 
 // TCPTransport ...
diff --git a/tran_unix.go b/tran_unix.go
index d1b5369..83d8269 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -12,6 +12,7 @@ import (
 	"net"
 	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -19,7 +20,7 @@ import (
 type UDSTransportConnection struct {
 	name   string
 	conn   net.Conn
-	closed bool
+	closed int32
 }
 
 // NewUDSTransportConnection ...
@@ -27,7 +28,7 @@ func NewUDSTransportConnection(name string, conn net.Conn) TransportConnection {
 	return &UDSTransportConnection{
 		name:   name,
 		conn:   conn,
-		closed: false,
+		closed: 0,
 	}
 }
 
@@ -38,7 +39,7 @@ func (c *UDSTransportConnection) GetName() string {
 
 // Read ...
 func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("read failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -55,7 +56,7 @@ func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *UDSTransportConnection) Write(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("write failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -80,13 +81,13 @@ func (c *UDSTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *UDSTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 	c.conn.Close()
 }
 
 // Closed ...
 func (c *UDSTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) != 0
 }
 
 // UDSTransport ...
-- 
2.43.0


From c1d6359d2c6a25e3bacc447c6d4f1b35778a552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:38 +0000
Subject: [PATCH 24/29] fix: stopping a transport lost its connections,
 panicked, or hit its next run

---
 tran_tcp.go  | 154 +++++++++++++++++++++++++++++++++++++++-----------
 tran_unix.go | 157 +++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 241 insertions(+), 70 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index cff8383..e21fa54 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -99,6 +99,7 @@ type TCPTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	done        chan struct{}
 	// for server
 	listener net.Listener
 	// for client
@@ -136,75 +137,138 @@ func (t *TCPTransport) parseOptions() {
 func (t *TCPTransport) doInit() {
 	t.connections = make([]TransportConnection, 0)
 	t.next = make(chan TransportConnection, 16)
+	t.done = make(chan struct{})
 }
 
-// saveConnections ...
-func (t *TCPTransport) saveConnection(tc TransportConnection) {
+// stopped reports if the run which the given done channel belongs to is over
+func (t *TCPTransport) stopped(done chan struct{}) bool {
+	select {
+	case <-done:
+		return true
+	default:
+		return false
+	}
+}
+
+// saveConnection ...
+// it closes the connection and returns false if the run is over
+func (t *TCPTransport) saveConnection(tc TransportConnection, done chan struct{}) bool {
 	t.Lock()
 	defer t.Unlock()
 
-	for _, c := range t.connections {
-		if c == tc {
-			return
-		}
+	if t.stopped(done) {
+		tc.Close()
+		return false
 	}
+
 	t.connections = append(t.connections, tc)
+	return true
 }
 
-// dropConnections ...
-func (t *TCPTransport) dropConnections() {
-	for _, c := range t.connections {
-		c.Close()
+// offerConnection ...
+// it returns false if the run is over
+func (t *TCPTransport) offerConnection(
+	tc TransportConnection,
+	next chan TransportConnection,
+	done chan struct{}) bool {
+
+	if !t.saveConnection(tc, done) {
+		return false
+	}
+
+	select {
+	case next <- tc:
+		return true
+	case <-done:
+		return false
 	}
 }
 
-// accept ...
-func (t *TCPTransport) accept() {
+// listen ...
+// it returns nil if the run is over
+func (t *TCPTransport) listen(done chan struct{}) net.Listener {
+	t.Lock()
+	defer t.Unlock()
+
+	if t.stopped(done) {
+		return nil
+	}
+
 	listener, err := net.Listen("tcp", t.address)
 	if err != nil {
 		log.Fatal(err)
 	}
 
 	t.listener = listener
+	return listener
+}
+
+// dropConnections ...
+func (t *TCPTransport) dropConnections() {
+	for _, c := range t.connections {
+		c.Close()
+	}
+}
+
+// accept ...
+func (t *TCPTransport) accept(next chan TransportConnection, done chan struct{}) {
+	listener := t.listen(done)
+	if listener == nil {
+		return
+	}
 
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := t.listener.Accept()
+		connection, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		t.next <- NewTCPTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		if !t.offerConnection(NewTCPTransportConnection(
+			connection.RemoteAddr().String(),
+			connection), next, done) {
+			break
+		}
 	}
 
-	t.Stop()
+	t.stopRun(done)
 }
 
 // connect ...
-func (t *TCPTransport) connect() {
+func (t *TCPTransport) connect(next chan TransportConnection, done chan struct{}) {
+	t.Lock()
+	address, retryCount, interval := t.address, t.maxRetryCount, t.retryIntervalInSecond
+	t.Unlock()
+
 	fmt.Println("Dial server ...")
 
-	for i := 0; i < t.maxRetryCount; i++ {
-		connection, err := net.DialTimeout("tcp", t.address, time.Second)
+	for i := 0; i < retryCount; i++ {
+		if t.stopped(done) {
+			return
+		}
+
+		connection, err := net.DialTimeout("tcp", address, time.Second)
 
 		if connection != nil && err == nil {
-			t.next <- NewTCPTransportConnection(
+			t.offerConnection(NewTCPTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, done)
 			return
 		}
 
 		fmt.Println(err, "retry", i)
 
-		time.Sleep(time.Second * time.Duration(t.retryIntervalInSecond))
+		select {
+		case <-time.After(time.Second * time.Duration(interval)):
+		case <-done:
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
 
-	t.Stop()
+	t.stopRun(done)
 }
 
 // ForServer ...
@@ -245,9 +309,19 @@ func (t *TCPTransport) GetAddress() string {
 
 // NextConnection ...
 func (t *TCPTransport) NextConnection() TransportConnection {
-	next := <-t.next
-	t.saveConnection(next)
-	return next
+	t.Lock()
+	next, done := t.next, t.done
+	t.Unlock()
+
+	select {
+	case connection := <-next:
+		if t.stopped(done) {
+			return nil
+		}
+		return connection
+	case <-done:
+		return nil
+	}
 }
 
 // Run ...
@@ -265,9 +339,9 @@ func (t *TCPTransport) Run() Transport {
 	t.doInit()
 
 	if t.forServer {
-		go t.accept()
+		go t.accept(t.next, t.done)
 	} else {
-		go t.connect()
+		go t.connect(t.next, t.done)
 	}
 	return t
 }
@@ -277,8 +351,24 @@ func (t *TCPTransport) Stop() Transport {
 	t.Lock()
 	defer t.Unlock()
 
+	t.doStop()
+	return t
+}
+
+// stopRun stops the run which the given done channel belongs to
+func (t *TCPTransport) stopRun(done chan struct{}) {
+	t.Lock()
+	defer t.Unlock()
+
+	if t.done == done {
+		t.doStop()
+	}
+}
+
+// doStop ...
+func (t *TCPTransport) doStop() {
 	if !t.isRunning {
-		return t
+		return
 	}
 
 	if t.listener != nil {
@@ -286,11 +376,9 @@ func (t *TCPTransport) Stop() Transport {
 		t.listener = nil
 	}
 
-	close(t.next)
+	close(t.done)
 
 	t.dropConnections()
 
 	t.isRunning = false
-
-	return t
 }
diff --git a/tran_unix.go b/tran_unix.go
index 83d8269..26ad9ba 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -100,6 +100,7 @@ type UDSTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	done        chan struct{}
 	// for server
 	listener net.Listener
 	// for client
@@ -137,34 +138,63 @@ func (uds *UDSTransport) parseOptions() {
 func (uds *UDSTransport) doInit() {
 	uds.connections = make([]TransportConnection, 0)
 	uds.next = make(chan TransportConnection, 16)
+	uds.done = make(chan struct{})
 }
 
-// saveConnections ...
-func (uds *UDSTransport) saveConnection(tc TransportConnection) {
-	if tc == nil {
-		return
+// stopped reports if the run which the given done channel belongs to is over
+func (uds *UDSTransport) stopped(done chan struct{}) bool {
+	select {
+	case <-done:
+		return true
+	default:
+		return false
 	}
+}
 
+// saveConnection ...
+// it closes the connection and returns false if the run is over
+func (uds *UDSTransport) saveConnection(tc TransportConnection, done chan struct{}) bool {
 	uds.Lock()
 	defer uds.Unlock()
 
-	for _, c := range uds.connections {
-		if c == tc {
-			return
-		}
+	if uds.stopped(done) {
+		tc.Close()
+		return false
 	}
+
 	uds.connections = append(uds.connections, tc)
+	return true
 }
 
-// dropConnections ...
-func (uds *UDSTransport) dropConnections() {
-	for _, c := range uds.connections {
-		c.Close()
+// offerConnection ...
+// it returns false if the run is over
+func (uds *UDSTransport) offerConnection(
+	tc TransportConnection,
+	next chan TransportConnection,
+	done chan struct{}) bool {
+
+	if !uds.saveConnection(tc, done) {
+		return false
+	}
+
+	select {
+	case next <- tc:
+		return true
+	case <-done:
+		return false
 	}
 }
 
-// accept ...
-func (uds *UDSTransport) accept() {
+// listen ...
+// it returns nil if the run is over
+func (uds *UDSTransport) listen(done chan struct{}) net.Listener {
+	uds.Lock()
+	defer uds.Unlock()
+
+	if uds.stopped(done) {
+		return nil
+	}
+
 	os.Remove(uds.filename)
 
 	listener, err := net.Listen("unix", uds.filename)
@@ -172,47 +202,76 @@ func (uds *UDSTransport) accept() {
 		log.Fatal(err)
 	}
 
-	defer os.Remove(uds.filename)
-
 	uds.listener = listener
+	return listener
+}
+
+// dropConnections ...
+func (uds *UDSTransport) dropConnections() {
+	for _, c := range uds.connections {
+		c.Close()
+	}
+}
+
+// accept ...
+func (uds *UDSTransport) accept(next chan TransportConnection, done chan struct{}) {
+	listener := uds.listen(done)
+	if listener == nil {
+		return
+	}
 
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := uds.listener.Accept()
+		connection, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		uds.next <- NewUDSTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		if !uds.offerConnection(NewUDSTransportConnection(
+			connection.RemoteAddr().String(),
+			connection), next, done) {
+			break
+		}
 	}
 
-	uds.Stop()
+	uds.stopRun(done)
 }
 
 // connect ...
-func (uds *UDSTransport) connect() {
+func (uds *UDSTransport) connect(next chan TransportConnection, done chan struct{}) {
+	uds.Lock()
+	filename, retryCount, interval := uds.filename, uds.maxRetryCount, uds.retryIntervalInSecond
+	uds.Unlock()
+
 	fmt.Println("Dial server ...")
 
-	for i := 0; i < uds.maxRetryCount; i++ {
-		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
+	for i := 0; i < retryCount; i++ {
+		if uds.stopped(done) {
+			return
+		}
+
+		connection, err := net.DialTimeout("unix", filename, time.Second)
 
 		if connection != nil && err == nil {
-			uds.next <- NewUDSTransportConnection(
+			uds.offerConnection(NewUDSTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, done)
 			return
 		}
 
 		fmt.Println(err, "retry", i+1)
 
-		time.Sleep(time.Second * time.Duration(uds.retryIntervalInSecond))
+		select {
+		case <-time.After(time.Second * time.Duration(interval)):
+		case <-done:
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
-	uds.Stop()
+
+	uds.stopRun(done)
 }
 
 // ForServer ...
@@ -253,9 +312,19 @@ func (uds *UDSTransport) GetAddress() string {
 
 // NextConnection ...
 func (uds *UDSTransport) NextConnection() TransportConnection {
-	next := <-uds.next
-	uds.saveConnection(next)
-	return next
+	uds.Lock()
+	next, done := uds.next, uds.done
+	uds.Unlock()
+
+	select {
+	case connection := <-next:
+		if uds.stopped(done) {
+			return nil
+		}
+		return connection
+	case <-done:
+		return nil
+	}
 }
 
 // Run ...
@@ -273,9 +342,9 @@ func (uds *UDSTransport) Run() Transport {
 	uds.doInit()
 
 	if uds.forServer {
-		go uds.accept()
+		go uds.accept(uds.next, uds.done)
 	} else {
-		go uds.connect()
+		go uds.connect(uds.next, uds.done)
 	}
 	return uds
 }
@@ -285,8 +354,24 @@ func (uds *UDSTransport) Stop() Transport {
 	uds.Lock()
 	defer uds.Unlock()
 
+	uds.doStop()
+	return uds
+}
+
+// stopRun stops the run which the given done channel belongs to
+func (uds *UDSTransport) stopRun(done chan struct{}) {
+	uds.Lock()
+	defer uds.Unlock()
+
+	if uds.done == done {
+		uds.doStop()
+	}
+}
+
+// doStop ...
+func (uds *UDSTransport) doStop() {
 	if !uds.isRunning {
-		return uds
+		return
 	}
 
 	if uds.listener != nil {
@@ -294,11 +379,9 @@ func (uds *UDSTransport) Stop() Transport {
 		uds.listener = nil
 	}
 
-	close(uds.next)
+	close(uds.done)
 
 	uds.dropConnections()
 
 	uds.isRunning = false
-
-	return uds
 }
-- 
2.43.0


From 3f05b658aeb348cc08fb80ad55903ac43ee91578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:15 +0000
Subject: [PATCH 25/29] fix: ReferenceTransport never stopped, and its blocked
 connections could not be closed

---
 tran_reference.go | 83 +++++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index d295ee3..5b2752d 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -49,19 +49,12 @@ func newReferenceChannel(size int) *referenceChannel {
 	}
 }
 
-// deleteReferenceChannel ...
-func deleteReferenceChannel(smc *referenceChannel) {
-	if smc != nil {
-		close(smc.serverTxClientRx)
-		close(smc.serverRxClientTx)
-	}
-}
-
 // ReferenceTransportConnection ...
 type ReferenceTransportConnection struct {
 	name      string
 	forServer bool
 	closed    int32
+	done      chan struct{}
 	channel   *referenceChannel
 }
 
@@ -75,6 +68,7 @@ func NewReferenceTransportConnection(
 		name:      name,
 		forServer: forServer,
 		closed:    0,
+		done:      make(chan struct{}),
 		channel:   channel,
 	}
 }
@@ -106,15 +100,17 @@ func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error)
 		return nil, errors.New("SetReference: connection is closed")
 	}
 
-	var data interface{}
-
+	rx := c.channel.serverTxClientRx
 	if c.forServer {
-		data = <-c.channel.serverRxClientTx
-	} else {
-		data = <-c.channel.serverTxClientRx
+		rx = c.channel.serverRxClientTx
 	}
 
-	return data, nil
+	select {
+	case data := <-rx:
+		return data, nil
+	case <-c.done:
+		return nil, errors.New("GetReference: connection is closed")
+	}
 }
 
 // SetReference ...
@@ -128,18 +124,24 @@ func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
 		return errors.New("SetReference: null input")
 	}
 
+	tx := c.channel.serverRxClientTx
 	if c.forServer {
-		c.channel.serverTxClientRx <- p
-	} else {
-		c.channel.serverRxClientTx <- p
+		tx = c.channel.serverTxClientRx
 	}
 
-	return nil
+	select {
+	case tx <- p:
+		return nil
+	case <-c.done:
+		return errors.New("SetReference: connection is closed")
+	}
 }
 
 // Close ...
 func (c *ReferenceTransportConnection) Close() {
-	atomic.StoreInt32(&c.closed, 1)
+	if atomic.SwapInt32(&c.closed, 1) == 0 {
+		close(c.done)
+	}
 }
 
 // Closed ...
@@ -157,6 +159,8 @@ type ReferenceTransport struct {
 	forServer  bool
 	connection TransportConnection
 	next       chan TransportConnection
+	done       chan struct{}
+	channel    *referenceChannel
 	queueSize  int
 }
 
@@ -169,6 +173,7 @@ func NewReferenceTransport(name string) Transport {
 		forServer:  true,
 		connection: nil,
 		next:       make(chan TransportConnection, 1),
+		done:       make(chan struct{}),
 		queueSize:  512,
 	}
 }
@@ -220,9 +225,19 @@ func (sm *ReferenceTransport) GetAddress() string {
 
 // NextConnection ...
 func (sm *ReferenceTransport) NextConnection() TransportConnection {
-	next := <-sm.next
-	sm.connection = next
-	return sm.connection
+	sm.Lock()
+	next, done := sm.next, sm.done
+	sm.Unlock()
+
+	select {
+	case connection := <-next:
+		if connection.Closed() {
+			return nil
+		}
+		return connection
+	case <-done:
+		return nil
+	}
 }
 
 // Two Transports(Client side and Server side) should use the same
@@ -240,8 +255,13 @@ func (sm *ReferenceTransport) Run() Transport {
 		return sm
 	}
 
+	sm.isRunning = true
+
 	sm.parseOptions()
 
+	sm.next = make(chan TransportConnection, 1)
+	sm.done = make(chan struct{})
+
 	mutex.Lock()
 
 	// check if some Transport have created
@@ -254,10 +274,12 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	ch.refCount++
 
-	sm.next <- NewReferenceTransportConnection(sm.name, sm.forServer, ch)
-
 	mutex.Unlock()
 
+	sm.channel = ch
+	sm.connection = NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+	sm.next <- sm.connection
+
 	return sm
 }
 
@@ -270,18 +292,17 @@ func (sm *ReferenceTransport) Stop() Transport {
 		return sm
 	}
 
+	sm.isRunning = false
+
+	close(sm.done)
 	sm.connection.Close()
 
 	mutex.Lock()
 
-	ch, ok := chans[sm.address]
-	if ok {
-		ch.refCount--
+	sm.channel.refCount--
 
-		if ch.refCount == 0 {
-			delete(chans, sm.address)
-			deleteReferenceChannel(ch)
-		}
+	if sm.channel.refCount == 0 && chans[sm.address] == sm.channel {
+		delete(chans, sm.address)
 	}
 
 	mutex.Unlock()
-- 
2.43.0


From bb266865e2945028fed0081923b0e8b3076b3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:39 +0000
Subject: [PATCH 26/29] fix: looping back framed data without a connection
 crashed

---
 proc_frame_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index ed722bc..3589772 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -62,7 +62,7 @@ func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
 
 	cache, ok := frm.caches[connection]
 	if !ok {
-		if connection.Closed() {
+		if connection != nil && connection.Closed() {
 			// the begin of the current frame may be lost
 			return nil
 		}
-- 
2.43.0


From 30736c017e60cd11ec7bd164128fadd3cafc779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:22 +0000
Subject: [PATCH 27/29] fix: gob and generic codecs looped forever on a
 truncated message

---
 proc_codec_generic.go | 7 ++++++-
 proc_codec_gob.go     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index a7e45e2..9f64a3e 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -5,6 +5,7 @@
 package ustack
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 )
@@ -83,7 +84,11 @@ func (gc *GenericCodec) OnLowerData(context Context) {
 			return
 		}
 
-		message, err := gc.decoder(ub)
+		data := make([]byte, ub.ReadableLength())
+		ub.Read(data)
+
+		// the decoder must find the end of a truncated message
+		message, err := gc.decoder(bytes.NewReader(data))
 		if err != nil {
 			fmt.Println("GenericCodec: encode error:", err)
 			return
diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index f344732..68aa14a 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -5,6 +5,7 @@
 package ustack
 
 import (
+	"bytes"
 	"encoding/gob"
 	"fmt"
 	"reflect"
@@ -57,8 +58,12 @@ func (g *GOBCodec) OnLowerData(context Context) {
 			return
 		}
 
+		data := make([]byte, ub.ReadableLength())
+		ub.Read(data)
+
 		objectItf := reflect.New(g.objectType).Interface()
-		err := gob.NewDecoder(ub).Decode(objectItf)
+		// the decoder must find the end of a truncated message
+		err := gob.NewDecoder(bytes.NewReader(data)).Decode(objectItf)
 		if err != nil {
 			fmt.Println("GOBCodec: gob encode error:", err)
 			return
-- 
2.43.0


From 57777e4b960be94b6657c220b905203da7c9770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:58 +0000
Subject: [PATCH 28/29] fix: frames of one read showed the message of the frame
 before

---
 proc_frame_decoder.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 3589772..5e57c4e 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -92,6 +92,14 @@ func (frm *FrameDecoder) fillCache(cache *UBuf, ub *UBuf) {
 	cache.ReadFrom(ub)
 }
 
+// passUp hands one frame to the upper layer, the context may have been used
+// for the frame before, the message of which must not show up again
+func (frm *FrameDecoder) passUp(context Context, ub *UBuf) {
+	context.SetMessage(nil)
+	context.SetBuffer(ub)
+	frm.upper.OnLowerData(context)
+}
+
 // handleCurrentData returns true if nothing is left to be cached
 func (frm *FrameDecoder) handleCurrentData(context Context, cache *UBuf, ub *UBuf) bool {
 	// if there is data in cache, put current data into cache
@@ -126,8 +134,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, cache *UBuf, ub *UBu
 			// drop size-field-data by dummy reading
 			ub.ReadU32BE()
 
-			context.SetBuffer(ub)
-			frm.upper.OnLowerData(context)
+			frm.passUp(context, ub)
 			return true
 		}
 
@@ -145,10 +152,8 @@ func (frm *FrameDecoder) handleCurrentData(context Context, cache *UBuf, ub *UBu
 			return true
 		}
 
-		context.SetBuffer(newUbuf)
-
 		// invoke uplayer
-		frm.upper.OnLowerData(context)
+		frm.passUp(context, newUbuf)
 	}
 }
 
@@ -208,10 +213,8 @@ func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf, ub *UBuf
 			return
 		}
 
-		context.SetBuffer(newUbuf)
-
 		// invoke uplayer
-		frm.upper.OnLowerData(context)
+		frm.passUp(context, newUbuf)
 	}
 }
 
-- 
2.43.0


From f02236e506025aeec668fef19661de8aee7b497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:44 +0000
Subject: [PATCH 29/29] fix: let go of closed connections of a transport

A TCP or Unix-socket server kept every connection it had ever accepted in
its list until it was stopped, so a long-running server grew without bound.
Drop the closed ones whenever a new connection is added.
---
 tran_tcp.go  | 10 +++++++++-
 tran_unix.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index e21fa54..a1707a4 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -161,7 +161,15 @@ func (t *TCPTransport) saveConnection(tc TransportConnection, done chan struct{}
 		return false
 	}
 
-	t.connections = append(t.connections, tc)
+	// do not keep those which were closed meanwhile
+	connections := make([]TransportConnection, 0, len(t.connections)+1)
+	for _, c := range t.connections {
+		if !c.Closed() {
+			connections = append(connections, c)
+		}
+	}
+
+	t.connections = append(connections, tc)
 	return true
 }
 
diff --git a/tran_unix.go b/tran_unix.go
index 26ad9ba..76c7f5c 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -162,7 +162,15 @@ func (uds *UDSTransport) saveConnection(tc TransportConnection, done chan struct
 		return false
 	}
 
-	uds.connections = append(uds.connections, tc)
+	// do not keep those which were closed meanwhile
+	connections := make([]TransportConnection, 0, len(uds.connections)+1)
+	for _, c := range uds.connections {
+		if !c.Closed() {
+			connections = append(connections, c)
+		}
+	}
+
+	uds.connections = append(connections, tc)
 	return true
 }
 
-- 
2.43.0

