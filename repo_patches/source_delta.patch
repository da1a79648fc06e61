From 152f7cf69bb1333097da3b223534c58241a7bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:25 +0000
Subject: [PATCH 01/20] verif: dial hook behind the verif build tag

---
 gen.conn.go     |  4 ++++
 hook_noverif.go |  8 ++++++++
 hook_verif.go   | 17 +++++++++++++++++
 3 files changed, 29 insertions(+)
 create mode 100644 hook_noverif.go
 create mode 100644 hook_verif.go

diff --git a/gen.conn.go b/gen.conn.go
index fda4007..8586349 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -51,6 +51,10 @@ type request struct {
 }
 
 func dial(c config, addr string) (net.Conn, error) {
+	if conn, err, ok := hookedDial(addr); ok {
+		return conn, err
+	}
+
 	if c.tlsConfig == nil {
 		return c.dialer.Dial("tcp", addr)
 	}
diff --git a/hook_noverif.go b/hook_noverif.go
new file mode 100644
index 0000000..15011da
--- /dev/null
+++ b/hook_noverif.go
@@ -0,0 +1,8 @@
+//go:build !verif
+// +build !verif
+
+package kafka
+
+import "net"
+
+func hookedDial(addr string) (net.Conn, error, bool) { return nil, nil, false }
diff --git a/hook_verif.go b/hook_verif.go
new file mode 100644
index 0000000..50ffee5
--- /dev/null
+++ b/hook_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package kafka
+
+import "net"
+
+// DialHook, when set, replaces the network dial (verification builds only).
+var DialHook func(addr string) (net.Conn, error)
+
+func hookedDial(addr string) (net.Conn, error, bool) {
+	if DialHook == nil {
+		return nil, nil, false
+	}
+	conn, err := DialHook(addr)
+	return conn, err, true
+}
-- 
2.43.0


From d9e69895579d29b64d8027852b32f5dfbf8361b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:15 +0000
Subject: [PATCH 02/20] fix: ring buffer lost wake-ups, stale indices and reads
 past the written data

ReadN and WriteN kept using the index they had loaded before waiting, so a
reader woken by a partial write returned stale bytes and a writer woken by a
partial read overwrote unread ones; a Release between the check and the Wait was
lost; a one byte write never woke the reader; ReadN returned as if it had read
data once the buffer was closed.
---
 ring/buffer.go | 61 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/ring/buffer.go b/ring/buffer.go
index b4c244c..d912d9e 100644
--- a/ring/buffer.go
+++ b/ring/buffer.go
@@ -21,34 +21,31 @@ import (
 	"sync/atomic"
 )
 
+// mutex is a binary semaphore; a Release that precedes the Wait it is meant for
+// is remembered rather than lost
 type mutex struct {
 	ctx context.Context
 	ch  chan struct{}
-	set int32
 }
 
 func newMutex(ctx context.Context) *mutex {
 	return &mutex{
 		ctx: ctx,
-		ch:  make(chan struct{}),
+		ch:  make(chan struct{}, 1),
 	}
 }
 
 func (m *mutex) Wait() {
-	if atomic.CompareAndSwapInt32(&m.set, 0, 1) {
-		select {
-		case <-m.ctx.Done():
-		case m.ch <- struct{}{}:
-		}
+	select {
+	case <-m.ctx.Done():
+	case <-m.ch:
 	}
 }
 
 func (m *mutex) Release() {
-	if atomic.CompareAndSwapInt32(&m.set, 1, 0) {
-		select {
-		case <-m.ctx.Done():
-		case <-m.ch:
-		}
+	select {
+	case m.ch <- struct{}{}:
+	default:
 	}
 }
 
@@ -84,20 +81,17 @@ func (r *Buffer) Close() error {
 }
 
 // WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
-// blocks until ReadN clears space
+// blocks until ReadN clears space or the buffer is closed
 func (r *Buffer) WriteN(data []byte, n int) {
 	var (
 		pos   = atomic.LoadInt32(&r.next)  // position next byte should be written
 		start = atomic.LoadInt32(&r.start) // start of data
-		wrote int                          // bytes written since last lock
+		wrote int                          // bytes published to the reader
 	)
 
 	for i := 0; i < n; i++ {
-		r.data[pos] = data[i]
-		pos = incr(pos, r.size)
-
 		// whenever pos catches up to the starting position, wait for
-		// additional bytes to be written before continuing
+		// bytes to be read before continuing
 		if next := incr(pos, r.size); next == start {
 			atomic.StoreInt32(&r.next, pos)
 
@@ -106,24 +100,33 @@ func (r *Buffer) WriteN(data []byte, n int) {
 			wrote = i
 
 			start = atomic.LoadInt32(&r.start)
-			if next := incr(pos, r.size); next == start {
+			for next == start {
+				if r.ctx.Err() != nil {
+					return
+				}
 				r.writeLock.Wait()
+				start = atomic.LoadInt32(&r.start)
 			}
 		}
+
+		r.data[pos] = data[i]
+		pos = incr(pos, r.size)
 	}
 
 	atomic.StoreInt32(&r.next, pos)
 
 	// if at least one byte has been written since the last time r.lock
 	// was cleared, check to see if it needs to be cleared again
-	if n > wrote+1 {
+	if n > wrote {
 		r.readLock.Release()
 	}
 }
 
 // ReadN reads n bytes in the byte array provided.  If insufficient bytes
-// are available, blocks until WriteN refills the buffer.
-func (r *Buffer) ReadN(data []byte, n int) {
+// are available, blocks until WriteN refills the buffer.  ReadN returns true once
+// all n bytes have been read.  If the buffer is closed, bytes that were already
+// written may still be read; when there are too few of them, ReadN returns false.
+func (r *Buffer) ReadN(data []byte, n int) bool {
 	var (
 		pos  = atomic.LoadInt32(&r.start)
 		next = atomic.LoadInt32(&r.next)
@@ -138,8 +141,19 @@ func (r *Buffer) ReadN(data []byte, n int) {
 			}
 
 			next = atomic.LoadInt32(&r.next)
-			if pos == next {
+			for pos == next {
+				// check for close before (re)loading next so that bytes written
+				// prior to the close are never missed
+				closed := r.ctx.Err() != nil
+				next = atomic.LoadInt32(&r.next)
+				if pos != next {
+					break
+				}
+				if closed {
+					return false
+				}
 				r.readLock.Wait()
+				next = atomic.LoadInt32(&r.next)
 			}
 		}
 
@@ -152,6 +166,7 @@ func (r *Buffer) ReadN(data []byte, n int) {
 	if read > 0 {
 		r.writeLock.Release()
 	}
+	return true
 }
 
 func incr(pos, size int32) int32 {
-- 
2.43.0


From 3a2e538ebe9984c227fa02b056f485241bf18b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:50 +0000
Subject: [PATCH 03/20] fix: release pending calls when a connection ends

Calls blocked forever once the peer or Close had ended the connection, and after
Close the message loop went on to interpret whatever the ring buffer held, which
could complete a call with data that was never received.
---
 gen.conn.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index 8586349..5f56803 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -29,6 +30,8 @@ import (
 	"github.com/savaki/kafka/ring"
 )
 
+var errConnClosed = errors.New("connection closed")
+
 type Conn struct {
 	cancel      context.CancelFunc
 	ch          chan request
@@ -43,6 +46,7 @@ type Conn struct {
 	writeLock sync.Mutex
 	readLock  sync.Mutex
 	requests  map[int32]request
+	closed    bool // closed is set once no further responses will be processed
 }
 
 type request struct {
@@ -95,6 +99,7 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 
 func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	defer close(c.doneRead)
+	defer rb.Close() // lets messageLoop stop once it has consumed what was received
 
 	buffer := make([]byte, 2e6) // 2MB
 	for {
@@ -110,6 +115,7 @@ func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 
 func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
 	defer close(c.doneMessage)
+	defer c.fail()
 
 	var (
 		buffer = make([]byte, 2e6) // 2MB
@@ -125,13 +131,17 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		}
 
 		// read the header
-		rb.ReadN(buffer, 4)
+		if !rb.ReadN(buffer, 4) {
+			return
+		}
 		d.Reset(4)
 		v, _ := d.Int32()
 		size := int(v)
 
 		// read the payload
-		rb.ReadN(buffer, size)
+		if !rb.ReadN(buffer, size) {
+			return
+		}
 		d.Reset(size)
 
 		var resp message.ResponseHeader
@@ -151,6 +161,20 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 	}
 }
 
+// fail releases every outstanding request; no further responses will be processed
+func (c *Conn) fail() {
+	c.rb.Close()
+	c.raw.Close()
+
+	c.readLock.Lock()
+	defer c.readLock.Unlock()
+	c.closed = true
+	for correlationID, req := range c.requests {
+		delete(c.requests, correlationID)
+		req.reply <- errConnClosed
+	}
+}
+
 type EncodeFunc func(e *message.Encoder, correlationID int32)
 type DecodeFunc func(d *message.Decoder) error
 
@@ -162,6 +186,10 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	}
 
 	c.readLock.Lock()
+	if c.closed {
+		c.readLock.Unlock()
+		return errConnClosed
+	}
 	c.requests[correlationID] = req
 	c.readLock.Unlock()
 
@@ -171,6 +199,10 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.writeLock.Unlock()
 
 	if err != nil {
+		c.readLock.Lock()
+		delete(c.requests, correlationID)
+		c.readLock.Unlock()
+		c.raw.Close() // an incomplete request may have been sent
 		return err
 	}
 
-- 
2.43.0


From d9d8fd3a3c5580cabee85ef3788e123c6201a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:50 +0000
Subject: [PATCH 04/20] fix: do not drop bytes that are read together with an
 error

tls connections return the last bytes along with io.EOF.
---
 gen.conn.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index 5f56803..22b904c 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -104,12 +104,11 @@ func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	buffer := make([]byte, 2e6) // 2MB
 	for {
 		n, err := raw.Read(buffer)
+		rb.WriteN(buffer, n) // Read may return both data and an error
 		if err != nil {
 			fmt.Println(err)
 			return
 		}
-
-		rb.WriteN(buffer, n)
 	}
 }
 
-- 
2.43.0


From 3d0f3a9f9904a2d455454e808e3e99212a69043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:59 +0000
Subject: [PATCH 05/20] fix: responses over 2MB crash and returned bytes are
 overwritten

Every response was decoded in place in one 2MB buffer: a larger response
panicked, and byte fields of a response already returned to a caller were
overwritten by the next response.
---
 gen.conn.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index 22b904c..c37ff82 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -118,7 +118,7 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 
 	var (
 		buffer = make([]byte, 2e6) // 2MB
-		d      = message.NewDecoder(buffer, len(buffer))
+		hdr    = message.NewDecoder(buffer, len(buffer))
 	)
 
 	for {
@@ -133,15 +133,24 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		if !rb.ReadN(buffer, 4) {
 			return
 		}
-		d.Reset(4)
-		v, _ := d.Int32()
+		hdr.Reset(4)
+		v, _ := hdr.Int32()
 		size := int(v)
 
-		// read the payload
-		if !rb.ReadN(buffer, size) {
-			return
+		// read the payload; it may exceed the buffer and must not be reused as the
+		// decoded response refers to it
+		var payload []byte
+		for len(payload) < size {
+			n := size - len(payload)
+			if n > len(buffer) {
+				n = len(buffer)
+			}
+			if !rb.ReadN(buffer, n) {
+				return
+			}
+			payload = append(payload, buffer[:n]...)
 		}
-		d.Reset(size)
+		d := message.NewDecoder(payload, len(payload))
 
 		var resp message.ResponseHeader
 		if err := (&resp).Decode(d, 1); err != nil {
-- 
2.43.0


From cc49bae67715fbe0979f4cab181b2d48f85916f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:01 +0000
Subject: [PATCH 06/20] fix: null and negative lengths panic, array lengths are
 trusted

A null (-1) byte array, any other negative length and an array length beyond the
data all took the process down, the latter by allocating the claimed size.
---
 message/decoder.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/message/decoder.go b/message/decoder.go
index a00bcbd..a58521a 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -25,6 +25,7 @@ import (
 
 var (
 	errNullString     = errors.New("null string")
+	errNegativeLength = errors.New("negative length")
 	errVarIntOverflow = errors.New("var int overflow")
 )
 
@@ -58,6 +59,9 @@ func (d *Decoder) Reset(length int) {
 
 // remains ensures that the buffer contains at least n more bytes
 func (d *Decoder) remains(n int) error {
+	if n < 0 {
+		return errNegativeLength
+	}
 	if remain := d.length - d.offset; remain < n {
 		return io.ErrShortBuffer
 	}
@@ -70,6 +74,13 @@ func (d *Decoder) ArrayLength() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if n > 0 {
+		// an element requires at least one byte; don't let callers allocate space
+		// for more elements than there can be
+		if err := d.remains(int(n)); err != nil {
+			return 0, err
+		}
+	}
 	return int(n), nil
 }
 
@@ -89,6 +100,9 @@ func (d *Decoder) Bytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
@@ -152,6 +166,9 @@ func (d *Decoder) Int32Array() ([]int32, error) {
 	if n == -1 {
 		return nil, nil
 	}
+	if n < 0 {
+		return nil, errNegativeLength
+	}
 
 	items := make([]int32, n)
 	for i := 0; i < n; i++ {
@@ -185,6 +202,9 @@ func (d *Decoder) Int64Array() ([]int64, error) {
 	if n == -1 {
 		return nil, nil
 	}
+	if n < 0 {
+		return nil, errNegativeLength
+	}
 
 	items := make([]int64, n)
 	for i := 0; i < n; i++ {
@@ -239,6 +259,9 @@ func (d *Decoder) StringArray() ([]string, error) {
 	if n == -1 {
 		return nil, nil
 	}
+	if n < 0 {
+		return nil, errNegativeLength
+	}
 
 	items := make([]string, n)
 	for i := 0; i < n; i++ {
@@ -257,6 +280,9 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
-- 
2.43.0


From f5c3157da2a8456871ecfa7f1df9803c47194ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:01 +0000
Subject: [PATCH 07/20] fix: VarInt reads past the decoder limit and mishandles
 overflow

binary.Varint reports overflow as -(bytes read), not -1, so an over long var int
moved the decoder backwards.
---
 message/decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index a58521a..8a029f4 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -297,13 +297,13 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 
 // VarInt returns the buffer head as an int64
 func (d *Decoder) VarInt() (int64, error) {
-	tmp, n := binary.Varint(d.raw[d.offset:])
-	switch n {
-	case 0:
+	tmp, n := binary.Varint(d.raw[d.offset:d.length])
+	switch {
+	case n == 0:
 		d.offset = d.length // no further requests can be made
 		return 0, io.ErrShortBuffer
 
-	case -1:
+	case n < 0:
 		d.offset = d.length // no further requests can be made
 		return 0, errVarIntOverflow
 
-- 
2.43.0


From 65d8a6631d46413d817143a6a3d4ad37717f10c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:19 +0000
Subject: [PATCH 08/20] fix: var strings that are not valid UTF-8 are corrupted

Each invalid byte was written as a three byte replacement character after a
length that counted it as one, and was replaced again when decoding.
---
 message/decoder.go | 16 ++--------------
 message/encoder.go |  9 ++-------
 2 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index 8a029f4..bcf08a9 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
-	"unicode/utf8"
 )
 
 var (
@@ -324,18 +323,7 @@ func (d *Decoder) VarString() (string, error) {
 		return "", err
 	}
 
-	var (
-		eom   = d.offset + length // end of message
-		som   = d.offset          // start of message
-		runes []rune
-	)
-
-	for som < eom {
-		r, size := utf8.DecodeRune(d.raw[som:eom])
-		som += size
-		runes = append(runes, r)
-	}
-
+	s := string(d.raw[d.offset : d.offset+length])
 	d.offset += length
-	return string(runes), nil
+	return s, nil
 }
diff --git a/message/encoder.go b/message/encoder.go
index a1d1520..2a4b715 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -19,7 +19,6 @@ package message
 import (
 	"encoding/binary"
 	"io"
-	"unicode/utf8"
 )
 
 type flusher interface {
@@ -223,11 +222,7 @@ func (e *Encoder) PutVarString(s string) {
 	}
 
 	e.PutVarInt(int64(len(s)))
-	for _, i := range s {
-		length := utf8.EncodeRune(e.buf[:], rune(i))
-		_, e.err = e.target.Write(e.buf[0:length])
-		if e.err != nil {
-			return
-		}
+	if e.err == nil {
+		_, e.err = io.WriteString(e.target, s)
 	}
 }
-- 
2.43.0


From edda42bb10a2812c32258528c883350654cd830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:20 +0000
Subject: [PATCH 09/20] fix: a null string decodes as an empty string through
 NullableString

---
 message/decoder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/message/decoder.go b/message/decoder.go
index bcf08a9..048fb60 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -219,6 +219,17 @@ func (d *Decoder) Int64Array() ([]int64, error) {
 
 // NullableString returns the buffer head as a *string
 func (d *Decoder) NullableString() (*string, error) {
+	offset := d.offset
+	n, err := d.Int16()
+	if err != nil {
+		return nil, err
+	}
+
+	if n == -1 {
+		return nil, nil
+	}
+
+	d.offset = offset
 	s, err := d.String()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c15fd3d85e0452d5ad57ba37a39e5801ddac6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:20 +0000
Subject: [PATCH 10/20] fix: PutVarBytes hides a write error and cannot encode
 null

The write of the data overwrote the error of the write of its length; nil, a
null key or a tombstone value, was encoded as an empty array.
---
 message/encoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/message/encoder.go b/message/encoder.go
index 2a4b715..99dffa5 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -201,8 +201,15 @@ func (e *Encoder) PutVarBytes(data []byte) {
 		return
 	}
 
+	if data == nil {
+		e.PutVarInt(-1)
+		return
+	}
+
 	e.PutVarInt(int64(len(data)))
-	_, e.err = e.target.Write(data)
+	if e.err == nil {
+		_, e.err = e.target.Write(data)
+	}
 }
 
 // PutVarInt encodes a var int
-- 
2.43.0


From 92a2ceab99c37aa92107d65078287ef1926a3fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:21 +0000
Subject: [PATCH 11/20] fix: strings over 32767 bytes are sent with a wrapped
 length

Report an encoding error instead of corrupting the request stream.
---
 message/encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/message/encoder.go b/message/encoder.go
index 99dffa5..635022c 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -18,9 +18,13 @@ package message
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 )
 
+var errStringTooLong = errors.New("string too long")
+
 type flusher interface {
 	Flush() error
 }
@@ -171,6 +175,9 @@ func (e *Encoder) PutRecordHeader(key, value string) {
 
 // PutString encodes a string
 func (e *Encoder) PutString(s string) {
+	if e.err == nil && len(s) > math.MaxInt16 {
+		e.err = errStringTooLong
+	}
 	e.PutInt16(int16(len(s)))
 	if e.err == nil {
 		_, e.err = io.WriteString(e.target, s)
-- 
2.43.0


From e1ea05ca556cd69bd468c41b894491718de8d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:22 +0000
Subject: [PATCH 12/20] fix: any non-zero byte is a true bool as per the
 protocol

---
 message/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/message/decoder.go b/message/decoder.go
index 048fb60..f6fa6d4 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -88,7 +88,7 @@ func (d *Decoder) Bool() (bool, error) {
 	if err := d.remains(1); err != nil {
 		return false, err
 	}
-	b := d.raw[d.offset] == 1
+	b := d.raw[d.offset] != 0
 	d.offset += 1
 	return b, nil
 }
-- 
2.43.0


From 535c4fe692bdf1e425be57ac36e86e6b3ef7e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:23 +0000
Subject: [PATCH 13/20] fix: negotiate the highest common version

Only the broker's highest version was considered, so that no broker newer than
the library could be used; a negative range could also loop forever.
---
 gen.broker.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 9603348..600af57 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1580,10 +1580,12 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 
 // matchVersion determines which version of the api to use
 func matchVersion(apiKey message.ApiVersionsResponseKey18, minVersion, maxVersion int16) (int16, error) {
-	for version := apiKey.MaxVersion; version >= apiKey.MinVersion; version-- {
-		if version := apiKey.MaxVersion; version >= minVersion && version <= maxVersion {
-			return version, nil
-		}
+	version := apiKey.MaxVersion
+	if version > maxVersion {
+		version = maxVersion
+	}
+	if version >= minVersion && version >= apiKey.MinVersion {
+		return version, nil
 	}
 	return 0, fmt.Errorf("unable to negotiate version for api key, %v", apiKey.ApiKey)
 }
-- 
2.43.0


From 3b637cfe366f9ab52bae9104ccaf30baf5f4bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:23 +0000
Subject: [PATCH 14/20] fix: failed broker negotiation leaks the connection and
 ignores the error code

---
 gen.broker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gen.broker.go b/gen.broker.go
index 600af57..dd35885 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -46,10 +46,16 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 	//
 	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
+	if resp.ErrorCode != 0 {
+		conn.Close()
+		return nil, fmt.Errorf("unable to create broker: api versions request failed with error code, %v", resp.ErrorCode)
+	}
 	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	broker.apiVersion = apiVersion
-- 
2.43.0


From 205c9a6a592074818a0eae195cf26961ce08c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:23 +0000
Subject: [PATCH 15/20] fix: bootstrap connections leak; no bootstrap servers
 reads as success

---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 303efdc..741f12a 100644
--- a/client.go
+++ b/client.go
@@ -16,6 +16,7 @@ package kafka
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -39,13 +40,14 @@ func NewClient(bootstrap []string, opts ...Option) *Client {
 // dialBootstrap dials one of the initial bootstrap servers
 func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 	var broker *Broker
-	var err error
+	var err = errors.New("no bootstrap servers")
 	for _, addr := range c.bootstrap {
 		broker, err = NewBroker(addr, c.opts...)
 		if err != nil {
 			continue
 		}
 
+		defer broker.Close()
 		return callback(broker)
 	}
 	return err
-- 
2.43.0


From e380033c55ad6d4136583c4b67f1063828bd96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:23 +0000
Subject: [PATCH 16/20] fix: coordinator lookup ignores the error code and
 dials an empty address

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 741f12a..95db3fe 100644
--- a/client.go
+++ b/client.go
@@ -77,6 +77,9 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 	if err := c.dialBootstrap(callback); err != nil {
 		return nil, err
 	}
+	if resp.ErrorCode != 0 {
+		return nil, fmt.Errorf("unable to find coordinator: error code, %v", resp.ErrorCode)
+	}
 
 	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
 	return NewBroker(addr, c.opts...)
-- 
2.43.0


From 77a0df4f9fb1780e86eae49d989000dcfdcd8da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:23 +0000
Subject: [PATCH 17/20] fix: brokers advertised by IPv6 address cannot be
 dialled

---
 client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 95db3fe..a8e8206 100644
--- a/client.go
+++ b/client.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
@@ -57,7 +58,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
-			addr := broker.Host + ":" + strconv.Itoa(int(broker.Port))
+			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
 			return NewBroker(addr, c.opts...)
 		}
 	}
@@ -81,7 +82,7 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, fmt.Errorf("unable to find coordinator: error code, %v", resp.ErrorCode)
 	}
 
-	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
+	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
 	return NewBroker(addr, c.opts...)
 }
 
-- 
2.43.0


From 7bcc0dbd074c47ec4e4faa5ecedeae2e6343f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:38 +0000
Subject: [PATCH 18/20] fix: Produce with acks=0 waits forever for a response
 brokers never send

---
 gen.broker.go | 12 ++++++++----
 gen.conn.go   | 10 +++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index dd35885..cefc596 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -71,6 +71,13 @@ func (b *Broker) Close() error {
 // Produce (apiKey: 0)
 func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, error) {
 	var resp message.ProduceResponse
+	// decode response
+	decode := func(d *message.Decoder) error {
+		return (&resp).Decode(d, b.apiVersion.Produce)
+	}
+	if req.Acks == 0 {
+		decode = nil // brokers don't respond
+	}
 	err := b.conn.Do(
 		// encode request
 		func(e *message.Encoder, correlationID int32) {
@@ -85,10 +92,7 @@ func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, e
 			hdr.Encode(e, 2)
 			req.Encode(e, b.apiVersion.Produce)
 		},
-		// decode response
-		func(d *message.Decoder) error {
-			return (&resp).Decode(d, b.apiVersion.Produce)
-		},
+		decode,
 	)
 	return resp, err
 }
diff --git a/gen.conn.go b/gen.conn.go
index c37ff82..f6e9a5d 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -186,6 +186,8 @@ func (c *Conn) fail() {
 type EncodeFunc func(e *message.Encoder, correlationID int32)
 type DecodeFunc func(d *message.Decoder) error
 
+// Do sends a request and waits for its response.  If decode is nil, no response is
+// expected and Do returns once the request has been sent.
 func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	correlationID := atomic.AddInt32(&c.id, 1)
 	req := request{
@@ -198,7 +200,9 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 		c.readLock.Unlock()
 		return errConnClosed
 	}
-	c.requests[correlationID] = req
+	if decode != nil {
+		c.requests[correlationID] = req
+	}
 	c.readLock.Unlock()
 
 	c.writeLock.Lock()
@@ -214,6 +218,10 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 		return err
 	}
 
+	if decode == nil {
+		return nil
+	}
+
 	return <-req.reply
 }
 
-- 
2.43.0


From 8825e420a0e6cb4a6f33a3e7bc3ac0e35dd6ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:33 +0000
Subject: [PATCH 19/20] fix: record batches are not valid magic 2 batches

The record count, header count and record lengths were missing or zero, offset
deltas were always zero, timestamps were in seconds, a message without headers
panicked and the declared size did not match the encoding.
---
 gen.record_batch.go | 51 +++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index dda4446..ae7e183 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -97,8 +97,10 @@ func (r RecordBatch) Size(version int16) int32 {
 	sz += sizeof.Int16 // ProducerEpoch
 	sz += sizeof.Int32 // BaseSequence
 
+	sz += sizeof.ArrayLength // Records
 	for _, msg := range r.Records {
-		sz += sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		length := sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		sz += sizeof.VarInt(int64(length)) + length
 	}
 	return sz
 }
@@ -117,32 +119,49 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 	encoder.PutInt16(r.ProducerEpoch)
 	encoder.PutInt32(r.BaseSequence)
 
+	encoder.PutArrayLength(len(r.Records))
 	for _, m := range r.Records {
-		encodeMessage(m, encoder, version, r.FirstTimestamp)
+		encodeMessage(m, encoder, version, r.BaseOffset, r.FirstTimestamp)
 	}
 }
 
 // encodeMessage as per https://kafka.apache.org/documentation/#record
-func encodeMessage(m Message, encoder *message.Encoder, version int16, firstTimestamp int64) {
-	encoder.PutVarInt(int64(m.Size(version)))              // length
-	encoder.PutInt8(0)                                     // attributes
-	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	encoder.PutVarInt(0)                                   // offsetDelta
+func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
+	length := sizeofMessage(m, version, baseOffset, firstTimestamp)
+	encoder.PutVarInt(int64(length))                        // length
+	encoder.PutInt8(0)                                      // attributes
+	encoder.PutVarInt(millis(m.Timestamp) - firstTimestamp) // timestampDelta
+	encoder.PutVarInt(m.Offset - baseOffset)                // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
-	m.Header.Range(encoder.PutRecordHeader)
+	encoder.PutVarInt(headerCount(m.Header))
+	if m.Header != nil {
+		m.Header.Range(encoder.PutRecordHeader)
+	}
+}
+
+// millis returns the timestamp in milliseconds since the epoch
+func millis(t time.Time) int64 {
+	return t.Unix()*1e3 + int64(t.Nanosecond())/1e6
+}
+
+func headerCount(h Header) int64 {
+	var n int64
+	if h != nil {
+		h.Range(func(key, value string) { n++ })
+	}
+	return n
 }
 
 func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
 	var sz int32
-	sz += sizeof.Int8                                        // attributes
-	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarInt(int64(len(m.Key)))                   // keyLength
-	sz += sizeof.Bytes(m.Key)                                // key
-	sz += sizeof.VarInt(int64(len(m.Value)))                 // valueLength
-	sz += sizeof.Bytes(m.Value)                              // value
-	if version >= magic && m.Header != nil {
+	sz += sizeof.Int8                                         // attributes
+	sz += sizeof.VarInt(millis(m.Timestamp) - firstTimestamp) // timestampDelta
+	sz += sizeof.VarInt(m.Offset - baseOffset)                // offsetDelta
+	sz += sizeof.VarBytes(m.Key)                              // key
+	sz += sizeof.VarBytes(m.Value)                            // value
+	sz += sizeof.VarInt(headerCount(m.Header))                // header count
+	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
 			sz += sizeof.VarString(value)
-- 
2.43.0


From 4bd924d3b19dc9c4dcae05a0aeeee8e4bca08d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:01 +0000
Subject: [PATCH 20/20] fix: encoder forgets an error reported by Flush

A failed Flush was returned but not remembered, so that after it the encoder
went on writing and a later Flush could report success or another error.
---
 message/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/message/encoder.go b/message/encoder.go
index 635022c..047f18e 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -50,10 +50,10 @@ func (e *Encoder) Flush() error {
 	}
 
 	if f, ok := e.target.(flusher); ok {
-		return f.Flush()
+		e.err = f.Flush()
 	}
 
-	return nil
+	return e.err
 }
 
 // PutArrayLength encodes the array length (int32)
-- 
2.43.0

