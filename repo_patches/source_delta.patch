From 9f4c96ec24e83e5f3f5f334df6f479f1cf4e43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 01/36] fix: reset the length of control frames without a
 payload

cw.buf is reused and buf[1] kept the length of the previous control frame, so an
empty ping or pong after one with a payload announced bytes that were never sent.
---
 conn_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_write.go b/conn_write.go
index 4f94f19..405a14b 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -315,6 +315,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = 0
 
 	if isMasked {
 		b, err := cw.conn.nRead(4)
-- 
2.43.0


From efcccf6141370433d195e4127fd40d16a12cb653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 02/36] fix: do not hand out a lock of a closed connection

---
 conn_utils.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/conn_utils.go b/conn_utils.go
index 66cee43..ad9963d 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -44,6 +44,18 @@ func (m *mu) lock() error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
+		return m.checkLocked()
+	}
+}
+
+// checkLocked is called right after the lock was taken. A select picks randomly
+// when the lock is free and the conn is closed, so the lock is given back in this case.
+func (m *mu) checkLocked() error {
+	select {
+	case <-m.conn.done:
+		m.unLock()
+		return fatal(ErrConnClosed)
+	default:
 		return nil
 	}
 }
@@ -74,7 +86,7 @@ func (m *mu) lockCtx(ctx context.Context) error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
-		return nil
+		return m.checkLocked()
 	case <-ctx.Done():
 		return ctx.Err()
 	}
@@ -85,7 +97,7 @@ func (m *mu) lockTimer(t *time.Timer) error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
-		return nil
+		return m.checkLocked()
 	case <-t.C:
 		return ErrTimeout
 	}
-- 
2.43.0


From f827864d47a94792be135287e5efc384f2a6e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 03/36] fix: retrying a flush must not send the header of the
 failed one as payload

---
 conn_write.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn_write.go b/conn_write.go
index 405a14b..dd1c34b 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -138,6 +138,8 @@ func (w *ConnWriter) flush(FIN bool) error {
 		opcode = OpcodeContinuation
 	}
 
+	// a previous flush that failed after writing the headers has moved start.
+	w.start = MaxHeaderSize
 	err := w.writeHeaders(FIN, opcode)
 	if err != nil {
 		return err
-- 
2.43.0


From 2f5a2eb2485e7dd5f5faac2d36b090439a27d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 04/36] fix: a failed write must not deadlock, and closing must
 not touch a writer in use

---
 conn.go       | 12 ++++++------
 conn_utils.go |  9 +++++++++
 conn_write.go |  4 +++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index e8a55ef..e48ef50 100755
--- a/conn.go
+++ b/conn.go
@@ -201,15 +201,15 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 			conn.ticker.Stop()
 		}
 
-		// close the current writer (if exists) and put the buffer back to the pool (if exists).
-		conn.writer.Close()
-		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
-			conn.upgrader.writePool.Put(conn.writer.pb)
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
+		// put the buffer back to the pool (if exists), unless someone is still writing in it.
+		// the lock is never released because the buffer isnt ours anymore.
+		if conn.writer.lock.tryLock() && conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
+			conn.upgrader.writePool.Put(conn.writer.pb)
+		}
+
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
 
diff --git a/conn_utils.go b/conn_utils.go
index ad9963d..fa95e13 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -64,6 +64,15 @@ func (m *mu) forceLock() {
 	m.ch <- struct{}{}
 }
 
+func (m *mu) tryLock() bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *mu) unLock() {
 	<-m.ch
 }
diff --git a/conn_write.go b/conn_write.go
index dd1c34b..3f9fa8d 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -149,14 +149,16 @@ func (w *ConnWriter) flush(FIN bool) error {
 	if err != nil {
 		return err
 	}
-	defer w.conn.writeLock.unLock()
 
 	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
+		w.conn.writeLock.unLock()
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
 	err = w.conn.sendFrame(w.buf[w.start:w.used])
+	// closing the conn needs the lock to write the close frame.
+	w.conn.writeLock.unLock()
 	if err != nil {
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
-- 
2.43.0


From fc2e8b39bbc402b2a8c56d1b6e5a51c5737cd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 05/36] fix: closing always closes the underlying connection
 and is bounded by WriteWait

---
 conn_utils.go | 11 +++++++++--
 conn_write.go | 23 ++++++++++++++++-------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/conn_utils.go b/conn_utils.go
index fa95e13..bd2793c 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -60,8 +60,15 @@ func (m *mu) checkLocked() error {
 	}
 }
 
-func (m *mu) forceLock() {
-	m.ch <- struct{}{}
+// forceLock takes the lock even if the conn is closed.
+// It returns false if it didnt get it till the timer fired.
+func (m *mu) forceLock(t *time.Timer) bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	case <-t.C:
+		return false
+	}
 }
 
 func (m *mu) tryLock() bool {
diff --git a/conn_write.go b/conn_write.go
index 3f9fa8d..3bb41f4 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -355,12 +355,14 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 		closeCode = CloseGoingAway
 	}
 
-	// lock without unlocking because this is the last write.
-	cw.lock.forceLock()
+	// no matter what happens here, the underlying connection must be closed.
+	defer cw.conn.raw.Close()
 
-	// set deadline
-	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
-	if err != nil {
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
+
+	// lock without unlocking because this is the last write.
+	if !cw.lock.forceLock(t) {
 		return
 	}
 
@@ -374,7 +376,14 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 	}
 
 	// lock without unlocking because this is the last write.
-	cw.conn.writeLock.forceLock()
+	if !cw.conn.writeLock.forceLock(t) {
+		return
+	}
+
+	// set deadline
+	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
+	if err != nil {
+		return
+	}
 	cw.conn.sendFrame(cw.buf)
-	cw.conn.raw.Close()
 }
-- 
2.43.0


From 0880380be880ef4616e057e84d380f020ac88bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 06/36] fix: nothing may follow a partially written frame

---
 conn_write.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn_write.go b/conn_write.go
index 3bb41f4..b29da85 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -185,9 +185,14 @@ func (w *ConnWriter) Close() error {
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
-// The fucntion doesnt close the connection on error.
+// The fucntion doesnt close the connection on error, only the underlying one,
+// because the frame might be partially written so nothing is allowed to follow it.
+// The caller must hold the writeLock.
 func (conn *Conn) sendFrame(buf []byte) error {
 	_, err := conn.raw.Write(buf)
+	if err != nil {
+		conn.raw.Close()
+	}
 
 	return err
 }
-- 
2.43.0


From 775928a13d8bffd2180a9450cd26ba8e90c90870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 07/36] fix: a failed send must release the writer and never
 end up as a truncated message

---
 conn_write.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index b29da85..eb44b71 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -22,8 +22,10 @@ type ConnWriter struct {
 	opcode     uint8
 	closed     bool
 	flushCount int
-	lock       *mu
-	ctx        context.Context
+	// The error of a failed Write. The data of the message isnt complete, so it must not be finished.
+	failed error
+	lock   *mu
+	ctx    context.Context
 }
 
 // newWriter is a constructor for conn.writer, only to be used once.
@@ -55,6 +57,7 @@ func (w *ConnWriter) reset(ctx context.Context, opcode uint8) {
 	w.opcode = opcode
 	w.closed = false
 	w.flushCount = 0
+	w.failed = nil
 	w.ctx = ctx
 }
 
@@ -90,10 +93,14 @@ func (w *ConnWriter) Write(p []byte) (n int, err error) {
 	if w.closed {
 		return 0, ErrWriterClosed
 	}
+	if w.failed != nil {
+		return 0, w.failed
+	}
 
 	for n < len(p) {
 		if w.used == len(w.buf) {
 			if err := w.flush(false); err != nil {
+				w.failed = err
 				return n, err
 			}
 		}
@@ -172,11 +179,22 @@ func (w *ConnWriter) flush(FIN bool) error {
 }
 
 // Close flushes the final frame and releases the writer lock.
+//
+// If a previous Write failed the message isnt sent, and the error of that Write is returned.
+// If a part of the message has already been sent, the connection is closed because there is no way
+// to take it back, and the returned error is fatal.
 func (w *ConnWriter) Close() error {
 	if !w.closed {
 		defer w.lock.tryUnlock()
 		defer func() { w.closed = true }()
-		err := w.flush(true)
+		err := w.failed
+		if err == nil {
+			err = w.flush(true)
+		}
+		if err != nil && !IsFatalErr(err) && w.flushCount > 0 {
+			w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+			return fatal(err)
+		}
 		return err
 	}
 	return nil
@@ -212,10 +230,8 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 		return err
 	}
 
-	_, err = w.Write(b)
-	if err != nil {
-		return err
-	}
+	// if it fails, Close returns the error. It must be called to release the writer.
+	_, _ = w.Write(b)
 
 	return w.Close()
 }
@@ -260,7 +276,7 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 
 	err = json.NewEncoder(w).Encode(v)
 	if err != nil {
-		return err
+		w.failed = err
 	}
 
 	return w.Close()
-- 
2.43.0


From a24267d48b3ce4f0d6b4c9d85810bcbcef244bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 08/36] fix: a broadcast must not split a fragmented message,
 and its failure closes the connection

---
 broadcast.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index 6d2c35c..a08e483 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -21,20 +21,30 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
+	// Acquire the writer, the frame must not be sent in the middle of a fragmented message.
+	if err := conn.writer.lock.lockCtx(m.ctx); err != nil {
+		return err
+	}
+	defer conn.writer.lock.unLock()
+
 	// Acquire write lock
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
 	}
-	defer conn.writeLock.unLock()
 
 	// set deadline
 	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
+		conn.writeLock.unLock()
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
 	// send frame
-	if err := conn.sendFrame(m.buf); err != nil {
+	err := conn.sendFrame(m.buf)
+	// closing the conn needs the lock to write the close frame.
+	conn.writeLock.unLock()
+	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
-- 
2.43.0


From 9d931c89a1f3744e239e0907a2a593841afc98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 09/36] fix: a slowly arriving ping must not block other
 control frames

---
 conn.go       |  1 -
 conn_write.go | 52 +++++++++++++++++++++++++--------------------------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/conn.go b/conn.go
index e48ef50..1381f3f 100755
--- a/conn.go
+++ b/conn.go
@@ -124,7 +124,6 @@ type ControlWriter struct {
 	maskKey [4]byte
 	err     chan error
 	lock    *mu
-	t       *time.Timer
 }
 
 func (conn *Conn) newControlWriter() *ControlWriter {
diff --git a/conn_write.go b/conn_write.go
index eb44b71..70b9724 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -319,29 +319,7 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
-	if cw.t == nil {
-		cw.t = time.NewTimer(cw.conn.upgrader.WriteWait)
-	} else {
-		cw.t.Reset(cw.conn.upgrader.WriteWait)
-	}
-	defer cw.t.Stop()
-
-	err := cw.lock.lockTimer(cw.t)
-	if err != nil {
-		return err
-	}
-	defer cw.lock.unLock()
-
-	// set deadline
-	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
-		return err
-	}
-
-	// write header and payload
-	cw.buf = cw.buf[:2]
-	cw.buf[0] = 0x80 + opcode
-	cw.buf[1] = 0
-
+	// The payload is read before locking, because reading it blocks till the client sends it.
 	if isMasked {
 		b, err := cw.conn.nRead(4)
 		if err != nil {
@@ -349,22 +327,42 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		}
 		copy(cw.maskKey[:], b)
 	}
+	var payload []byte
 	if n > 0 && n <= MaxControlFramePayload {
-		payload, err := cw.conn.nRead(n)
+		var err error
+		payload, err = cw.conn.nRead(n)
 		if err != nil {
 			return ErrConnClosed
 		}
-		cw.buf[1] = byte(n)
 
 		cw.mask(payload)
-		cw.buf = append(cw.buf, payload...)
 	}
 
-	if err := cw.conn.writeLock.lockTimer(cw.t); err != nil {
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
+
+	err := cw.lock.lockTimer(t)
+	if err != nil {
+		return err
+	}
+	defer cw.lock.unLock()
+
+	// write header and payload
+	cw.buf = cw.buf[:2]
+	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = byte(len(payload))
+	cw.buf = append(cw.buf, payload...)
+
+	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
 	}
 	defer cw.conn.writeLock.unLock()
 
+	// set deadline
+	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
+		return err
+	}
+
 	return cw.conn.sendFrame(cw.buf)
 }
 
-- 
2.43.0


From 28c0c021365ea57b27e26821588b280b5e5852df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 10/36] fix: a pong received before Ping returns must not be
 lost, and a failed ping closes the connection

---
 conn_write.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 70b9724..c0ed8c1 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -289,16 +289,23 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
-	if conn.pingSent.Load() {
+	select {
+	case <-conn.done:
+		return fatal(ErrConnClosed)
+	default:
+	}
+
+	// It has to be set before sending, the pong can be received before the function returns.
+	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
 	}
 
 	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, err.Error())
 		return fatal(err)
 	}
 
-	conn.pingSent.Store(true)
 	return nil
 }
 
-- 
2.43.0


From 555bc3b9bddf287043a45e96d2cdf71d52817717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 11/36] fix: the ping loop must end with its connection

---
 conn.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 1381f3f..2e92734 100755
--- a/conn.go
+++ b/conn.go
@@ -83,6 +83,8 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		conn.batch = u.Flusher.newBatch(conn)
 	}
 
+	// created here because CloseWithCode stops it.
+	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
 
 	return conn
@@ -141,13 +143,15 @@ func (conn *Conn) newControlWriter() *ControlWriter {
 // Ping the client every "PingEvery" provided from the manager.
 // If pinging fails the connection closes.
 func (conn *Conn) pingLoop() {
-	if conn.ticker == nil {
-		conn.ticker = time.NewTicker(conn.upgrader.PingEvery)
-	}
-	for range conn.ticker.C {
-		if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
-			conn.CloseWithCode(ClosePolicyViolation, err.Error())
+	for {
+		select {
+		case <-conn.done:
 			return
+		case <-conn.ticker.C:
+			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 14efdce6a4e6ee63fcafff96a037e86a855bb62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 12/36] fix: control frames must be readable with a small read
 buffer

---
 conn.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 2e92734..a52db77 100755
--- a/conn.go
+++ b/conn.go
@@ -60,14 +60,15 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	}
 	conn.writeLock = newMu(conn)
 
+	// the payload of a control frame is read at once, so it must fit in the buffer.
 	size := u.ReadBufferSize
-	if (size == 0 && br != nil) || (br != nil && size == br.Size()) {
+	if br != nil && (size == 0 || size == br.Size()) && br.Size() >= MaxControlFramePayload {
 		conn.readBuf = br
 	} else {
-		if size < MaxHeaderSize {
-			size += MaxHeaderSize
+		if size < MaxControlFramePayload {
+			size = MaxControlFramePayload
 		}
-		if br.Buffered() > 0 && br != nil {
+		if br != nil && br.Buffered() > 0 {
 			// The client sent data before receiving the response.
 			conn.readBuf = bufio.NewReaderSize(&brNetConn{Conn: conn.raw, br: br}, size)
 		} else {
-- 
2.43.0


From f72a903c2922bcd39155a9a9ca626e433418edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 13/36] fix: a closing connection leaves every room and manager
 it was added to

---
 conn.go          | 46 +++++++++++++++++++++++++++++++++++++++-------
 manager.go       | 12 ++++++++++--
 rooms_manager.go | 25 +++++++++++++++++++------
 3 files changed, 68 insertions(+), 15 deletions(-)

diff --git a/conn.go b/conn.go
index a52db77..caf4a80 100755
--- a/conn.go
+++ b/conn.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"encoding/binary"
 	"net"
+	"slices"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -27,7 +28,7 @@ type Conn struct {
 	// would receive ok=false, indicating that the channel is closed => conn is closed.
 	done      chan struct{}
 	closeOnce sync.Once
-	onClose   func()
+	onClose   []onCloseCallback
 	// onCloseMu protects concurrent access to onClose callbacks.
 	// This prevents race conditions when connections move between rooms
 	// and multiple goroutines try to set/call onClose simultaneously.
@@ -111,12 +112,40 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
+	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
+}
+
+// onCloseCallback is called when the connection closes.
+// A connection can be in many rooms, so each one of them (the owner) has its own callback.
+type onCloseCallback struct {
+	owner any
+	fn    func()
+}
+
+// addOnClose registers a callback to be called once when the connection closes.
+// If the connection is already closed it returns false, and the callback will not be called.
+func (conn *Conn) addOnClose(owner any, fn func()) bool {
 	conn.onCloseMu.Lock()
 	defer conn.onCloseMu.Unlock()
-	conn.onClose = func() {
-		m.unregister(key)
+
+	select {
+	case <-conn.done:
+		return false
+	default:
 	}
-	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
+
+	conn.onClose = append(conn.onClose, onCloseCallback{owner: owner, fn: fn})
+	return true
+}
+
+// removeOnClose removes the callbacks of the given owner.
+func (conn *Conn) removeOnClose(owner any) {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+
+	conn.onClose = slices.DeleteFunc(conn.onClose, func(c onCloseCallback) bool {
+		return c.owner == owner
+	})
 }
 
 // Used to write control frames.
@@ -222,11 +251,14 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 			conn.upgrader.OnDisconnect(conn)
 		}
 
+		// the callbacks are called without holding the lock, because they might use the connection.
 		conn.onCloseMu.Lock()
-		if conn.onClose != nil {
-			conn.onClose()
-		}
+		callbacks := conn.onClose
+		conn.onClose = nil
 		conn.onCloseMu.Unlock()
+		for _, c := range callbacks {
+			c.fn()
+		}
 
 		// remove from rate limiter if exists
 		if conn.upgrader.Limiter != nil {
diff --git a/manager.go b/manager.go
index b0706a2..585e21c 100755
--- a/manager.go
+++ b/manager.go
@@ -71,8 +71,16 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	m.mu.Lock()
-	if conn, ok := m.conns[key]; ok {
-		conn.raw.Close()
+	// automatic cleanup when the connection closes.
+	if !conn.addOnClose(m, func() {
+		m.unregister(key)
+	}) {
+		// already closed
+		m.mu.Unlock()
+		return
+	}
+	if old, ok := m.conns[key]; ok && old.Conn != conn.Conn {
+		old.raw.Close()
 	}
 	m.conns[key] = conn
 	m.mu.Unlock()
diff --git a/rooms_manager.go b/rooms_manager.go
index e7e01aa..ea4fe54 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -229,15 +229,20 @@ func (r *Room[keyType]) Close() {
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	r.mu.Lock()
-	r.conns[conn] = true
-	r.mu.Unlock()
-
+	if r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	// Set up automatic cleanup when connection closes
-	conn.onCloseMu.Lock()
-	conn.onClose = func() {
+	if !conn.addOnClose(r, func() {
 		r.Remove(conn, args...)
+	}) {
+		// already closed
+		r.mu.Unlock()
+		return
 	}
-	conn.onCloseMu.Unlock()
+	r.conns[conn] = true
+	r.mu.Unlock()
 
 	conn.enableBroadcasting()
 	// calling onJoin hook
@@ -254,7 +259,12 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 // Thread-safe: Multiple goroutines can call this concurrently.
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if !r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	delete(r.conns, conn)
+	conn.removeOnClose(r)
 	r.mu.Unlock()
 
 	// calling onLeave hook
@@ -271,6 +281,9 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Lock()
 	conns := r.conns               // copy
 	r.conns = make(map[*Conn]bool) // empty
+	for c := range conns {
+		c.removeOnClose(r)
+	}
 	r.mu.Unlock()
 
 	// calling hook
-- 
2.43.0


From 37e46a62cae91481dedff3e08f034ab791ca03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 14/36] fix: closing a replaced connection must not unregister
 its replacement

---
 manager.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/manager.go b/manager.go
index 585e21c..d56b462 100755
--- a/manager.go
+++ b/manager.go
@@ -73,7 +73,7 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	m.mu.Lock()
 	// automatic cleanup when the connection closes.
 	if !conn.addOnClose(m, func() {
-		m.unregister(key)
+		m.unregister(key, conn)
 	}) {
 		// already closed
 		m.mu.Unlock()
@@ -92,11 +92,12 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-func (m *Manager[KeyType]) unregister(id KeyType) error {
+// if the conn got replaced by another one of the same key, the other one is kept.
+func (m *Manager[KeyType]) unregister(id KeyType, c *ManagedConn[KeyType]) error {
 	m.mu.Lock()
 
 	conn, ok := m.conns[id]
-	if !ok {
+	if !ok || conn != c {
 		m.mu.Unlock()
 		return ErrConnNotFound
 	}
-- 
2.43.0


From 7a8bb8726a9e4ee5a0aa1ad257ebc3f1ac69a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 15/36] fix: RemoveAll must not panic without an OnLeave hook

---
 rooms_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index ea4fe54..05ce522 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -287,8 +287,10 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Unlock()
 
 	// calling hook
-	for c := range conns {
-		r.OnLeave(r, c)
+	if r.OnLeave != nil {
+		for c := range conns {
+			r.OnLeave(r, c)
+		}
 	}
 }
 
-- 
2.43.0


From 58f8b0fb1091d44fd8375ebeca6b12f357dc78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 16/36] fix: hooks may close the connection that is being
 closed

---
 conn.go | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/conn.go b/conn.go
index caf4a80..0bd564f 100755
--- a/conn.go
+++ b/conn.go
@@ -229,7 +229,9 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
+	first := false
 	conn.closeOnce.Do(func() {
+		first = true
 		if conn.ticker != nil {
 			conn.ticker.Stop()
 		}
@@ -245,30 +247,35 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
+	})
+	// the hooks run outside of closeOnce, because they might close the connection too.
+	if !first {
+		return
+	}
 
-		// run hooks.
-		if conn.upgrader.OnDisconnect != nil {
-			conn.upgrader.OnDisconnect(conn)
-		}
+	// run hooks.
+	if conn.upgrader.OnDisconnect != nil {
+		conn.upgrader.OnDisconnect(conn)
+	}
 
-		// the callbacks are called without holding the lock, because they might use the connection.
-		conn.onCloseMu.Lock()
-		callbacks := conn.onClose
-		conn.onClose = nil
-		conn.onCloseMu.Unlock()
-		for _, c := range callbacks {
-			c.fn()
-		}
+	// the callbacks are called without holding the lock, because they might use the connection.
+	conn.onCloseMu.Lock()
+	callbacks := conn.onClose
+	conn.onClose = nil
+	conn.onCloseMu.Unlock()
+	for _, c := range callbacks {
+		c.fn()
+	}
 
-		// remove from rate limiter if exists
-		if conn.upgrader.Limiter != nil {
-			conn.upgrader.Limiter.removeClient(conn)
-		}
+	// remove from rate limiter if exists
+	if conn.upgrader.Limiter != nil {
+		conn.upgrader.Limiter.removeClient(conn)
+	}
 
-		if conn.upgrader.Flusher != nil {
-			conn.upgrader.Flusher.remove(conn)
-		}
-	})
+	// the conn stays in the flusher it was created with, even if the upgrader got a new one.
+	if conn.batch != nil {
+		conn.batch.flusher.remove(conn)
+	}
 }
 
 // This function is called upon receiving a close frame from the client.
-- 
2.43.0


From 4516051fcc52c964dde0c24210b2ce9116fde61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 17/36] fix: Manager.Shutdown must not deadlock

---
 manager.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/manager.go b/manager.go
index d56b462..f3ebd09 100755
--- a/manager.go
+++ b/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"net/http"
 	"slices"
 	"sync"
@@ -203,31 +204,32 @@ func (m *Manager[KeyType]) BroadcastJSON(ctx context.Context, v interface{}, exc
 // - Closes all connections normaly.
 // - Clears the conns map.
 func (m *Manager[KeyType]) Shutdown() {
-	m.mu.Lock()
-	defer m.mu.Unlock()
+	// closing a connection unregisters it, so the lock must not be held meanwhile.
+	m.mu.RLock()
+	conns := maps.Clone(m.conns)
+	m.mu.RUnlock()
 
-	workers := (len(m.conns) / 5) + 2
+	workers := (len(conns) / 5) + 2
 	var wg sync.WaitGroup
-	ch := make(chan *ManagedConn[KeyType], workers)
+	ch := make(chan KeyType, workers)
 
 	for range workers {
 		wg.Add(1)
 		go func() {
-			for conn := range ch {
-				conn.Close()
+			for key := range ch {
+				conns[key].Close()
+				// it might be closed by someone who hasn't unregistered it yet.
+				m.unregister(key, conns[key])
 			}
 			wg.Done()
 		}()
 	}
 
-	conns := m.GetAllConns()
-	for _, conn := range conns {
-		ch <- conn
+	for key := range conns {
+		ch <- key
 	}
 	close(ch)
 	wg.Wait()
-
-	m.conns = make(map[KeyType]*ManagedConn[KeyType])
 }
 
 // BatchBroadcast loops over the manager's connections and adds the given data into their batch.
-- 
2.43.0


From fe423ec350cf3a1c460a3f22ea1e121623bd1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 18/36] fix: RoomManager.Shutdown must not deadlock

---
 rooms_manager.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 05ce522..0d733d1 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -172,17 +172,19 @@ func (rm *RoomManager[keyType]) GetRoomKeys() []keyType {
 // After calling Shutdown, the RoomManager should not be used.
 func (rm *RoomManager[keyType]) Shutdown() {
 	rm.mu.Lock()
-	defer rm.mu.Unlock()
+	rooms := rm.rooms
+	rm.rooms = make(map[keyType]*Room[keyType])
+	rm.mu.Unlock()
 
-	connsCount := 0
-	for _, r := range rm.rooms {
-		r.mu.Lock()
-		connsCount += len(r.conns)
+	// closing a connection removes it from its rooms, so no lock can be held meanwhile.
+	var conns []*Conn
+	for _, r := range rooms {
+		conns = append(conns, r.GetAllConns()...)
 	}
 
 	var wg sync.WaitGroup
-	workers := (connsCount / 5) + 2
-	ch := make(chan *Conn, connsCount)
+	workers := (len(conns) / 5) + 2
+	ch := make(chan *Conn, len(conns))
 
 	for range workers {
 		wg.Add(1)
@@ -194,16 +196,11 @@ func (rm *RoomManager[keyType]) Shutdown() {
 		}()
 	}
 
-	for _, r := range rm.rooms {
-		for c := range r.conns {
-			ch <- c
-		}
-		r.mu.Unlock()
+	for _, c := range conns {
+		ch <- c
 	}
 
 	close(ch)
-	rm.rooms = make(map[keyType]*Room[keyType])
-
 	wg.Wait()
 }
 
-- 
2.43.0


From 2212820b76fadd1ff716fe529ac3fd0d3a1e60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 19/36] fix: closing a room must not delete another one of the
 same key

---
 rooms_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 0d733d1..54b74d8 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -214,7 +214,10 @@ func (r *Room[keyType]) Close() {
 
 	r.rm.mu.Lock()
 	defer r.rm.mu.Unlock()
-	delete(r.rm.rooms, r.Key)
+	// a new room might have been created with the same key.
+	if r.rm.rooms[r.Key] == r {
+		delete(r.rm.rooms, r.Key)
+	}
 }
 
 // Add adds a connection to the room.
-- 
2.43.0


From 7c31c77f6776e3db92d1344d0f001e2ff1eaf3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 20/36] fix: broadcasting must be enabled once, before the
 connection is visible

---
 conn.go          | 11 +++++------
 manager.go       |  4 +++-
 rooms_manager.go |  4 +++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 0bd564f..7fd7c15 100755
--- a/conn.go
+++ b/conn.go
@@ -46,6 +46,7 @@ type Conn struct {
 	readBuf       *bufio.Reader
 
 	broadcastQueue chan message
+	broadcastOnce  sync.Once
 
 	batch *messageBatch
 }
@@ -93,13 +94,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 }
 
 func (conn *Conn) enableBroadcasting() {
-	if conn.broadcastQueue != nil {
-		return
-	}
+	conn.broadcastOnce.Do(func() {
+		conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
 
-	conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
-
-	go conn.broadcastListener()
+		go conn.broadcastListener()
+	})
 }
 
 // ManagedConn is a Conn that is tracked by a Manager.
diff --git a/manager.go b/manager.go
index f3ebd09..838a542 100755
--- a/manager.go
+++ b/manager.go
@@ -71,6 +71,9 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // If the key already exists, it will close the connection associated with the key,
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
+	// it has to be ready before it becomes visible for broadcasts.
+	conn.enableBroadcasting()
+
 	m.mu.Lock()
 	// automatic cleanup when the connection closes.
 	if !conn.addOnClose(m, func() {
@@ -86,7 +89,6 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	m.conns[key] = conn
 	m.mu.Unlock()
 
-	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
diff --git a/rooms_manager.go b/rooms_manager.go
index 54b74d8..144b62f 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -228,6 +228,9 @@ func (r *Room[keyType]) Close() {
 // Thread-safe: Multiple goroutines can call this concurrently.
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
+	// it has to be ready before it becomes visible for broadcasts.
+	conn.enableBroadcasting()
+
 	r.mu.Lock()
 	if r.conns[conn] {
 		r.mu.Unlock()
@@ -244,7 +247,6 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	r.conns[conn] = true
 	r.mu.Unlock()
 
-	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
-- 
2.43.0


From 9611ae8fb694554747c49a70e271318c13ddd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 21/36] fix: a broadcast must not wait forever for a closed
 connection

---
 broadcast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index a08e483..75fcd04 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -122,6 +122,7 @@ func (u *Upgrader) broadcast(ctx context.Context, conns []*Conn, opcode uint8, d
 			case BackpressureWait:
 				// inqueue again
 				select {
+				case <-conn.done:
 				case <-ctx.Done():
 					return n, ctx.Err()
 				case conn.broadcastQueue <- m:
@@ -173,6 +174,7 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 			case BackpressureWait:
 				// wait till sent
 				select {
+				case <-conn.done:
 				case <-u.Flusher.closed:
 					return n, ErrFlusherClosed
 				case <-u.Flusher.ctx.Done():
-- 
2.43.0


From 4c25ff4b870782f8f12b7b1343f3af34a4c0bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 22/36] fix: the first frame of a message counts as a fragment

---
 conn_read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index da53a27..2165f72 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -166,7 +166,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(ErrInvalidOPCODE)
 	}
 
-	conn.reader.fragments = 0
+	conn.reader.fragments = 1
 	conn.reader.totalSize = conn.reader.remaining
 
 	ok, err := conn.allow()
-- 
2.43.0


From cf8d1af8910c2eed58ceb32ced1784b6c67a0f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:07 +0000
Subject: [PATCH 23/36] fix: a negative MaxMessageSize means no limit, and
 control frames dont count

---
 conn_read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index 2165f72..3e7717e 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -92,11 +92,6 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			n = int(lengthB)
 		}
 
-		if n > conn.upgrader.MaxMessageSize {
-			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
-			return nilOpcode, ErrTooLargePayload
-		}
-
 		// handling control frames
 		if isControl(opcode) {
 			if !fin || n > MaxControlFramePayload {
@@ -119,6 +114,11 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			continue
 		}
 
+		if conn.upgrader.MaxMessageSize >= 0 && n > conn.upgrader.MaxMessageSize {
+			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
+			return nilOpcode, ErrTooLargePayload
+		}
+
 		// reseting conn.reader current frame info.
 		conn.reader.fin = fin
 		conn.reader.remaining = n
@@ -211,7 +211,7 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return 0, fatal(ErrExpectedContinuation)
 		}
 		r.totalSize += r.remaining
-		if r.totalSize > r.conn.upgrader.MaxMessageSize {
+		if r.conn.upgrader.MaxMessageSize >= 0 && r.totalSize > r.conn.upgrader.MaxMessageSize {
 			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
 			return 0, fatal(ErrMessageTooLarge)
 		}
-- 
2.43.0


From 35a987484a8c19169f61014b6a26ab7da7d13f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 24/36] fix: the rest of a partially read or skipped message
 must not be parsed as the next one

---
 conn.go       | 3 ++-
 conn_read.go  | 5 +++++
 conn_utils.go | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 7fd7c15..df1c142 100755
--- a/conn.go
+++ b/conn.go
@@ -78,7 +78,8 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		}
 	}
 
-	conn.reader = ConnReader{conn: conn}
+	// fin: there is no message to finish yet.
+	conn.reader = ConnReader{conn: conn, fin: true}
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
diff --git a/conn_read.go b/conn_read.go
index 3e7717e..91b5ce8 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -156,6 +156,11 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(err)
 	}
 
+	// the previous message might not be fully read.
+	if err := conn.skipRestOfMessage(); err != nil {
+		return nil, nilOpcode, fatal(err)
+	}
+
 	opcode, err := conn.acceptFrame()
 	if err != nil {
 		return nil, nilOpcode, fatal(err)
diff --git a/conn_utils.go b/conn_utils.go
index bd2793c..eb19b8d 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -141,6 +141,7 @@ func (conn *Conn) skipRestOfMessage() error {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return err
 	}
+	conn.reader.remaining = 0
 
 	for !conn.reader.fin {
 		opcode, err := conn.acceptFrame()
@@ -157,6 +158,7 @@ func (conn *Conn) skipRestOfMessage() error {
 			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 			return err
 		}
+		conn.reader.remaining = 0
 	}
 
 	return nil
-- 
2.43.0


From cc46c27341a82d4d4654ca4ab65df36e21988bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:35 +0000
Subject: [PATCH 25/36] fix: a fatal error of OnRateLimitHit must close the
 connection

---
 conn_read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_read.go b/conn_read.go
index 91b5ce8..a844018 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -176,6 +176,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 
 	ok, err := conn.allow()
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, err.Error())
 		return nil, nilOpcode, fatal(err)
 	} else if !ok {
 		if err := conn.skipRestOfMessage(); err != nil {
-- 
2.43.0


From 611dd518b691a546f46b9ac35a8841e5094cfe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 26/36] fix: the batches of a connection must be sent in order

---
 conn_batcher.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index a1e99de..6861e55 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -13,6 +13,9 @@ type messageBatch struct {
 	mu        sync.Mutex
 	conn      *Conn
 	flusher   *batchFlusher
+	// flushed batches waiting to be sent in order, and whether someone is sending them.
+	queue   [][][]byte
+	sending bool
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
@@ -85,19 +88,41 @@ func (conn *Conn) BatchJSON(v interface{}) error {
 	return conn.Batch(jData)
 }
 
-// if the messages slice isn't empty, it copies it, allocates a new one, and sends it.
+// if the messages slice isn't empty, it queues it to be sent after the previous ones, and allocates a new one.
 func (b *messageBatch) flush() {
 	b.mu.Lock()
 	if len(b.messages) == 0 {
 		b.mu.Unlock()
 		return
 	}
-	c := b.messages
+	b.queue = append(b.queue, b.messages)
 	b.messages = make([][]byte, 0)
 	b.totalSize = 0
+	if b.sending {
+		b.mu.Unlock()
+		return
+	}
+	b.sending = true
 	b.mu.Unlock()
 
-	go b.send(c)
+	go b.sendQueue()
+}
+
+// sends the queued batches one by one, till there are no more.
+func (b *messageBatch) sendQueue() {
+	for {
+		b.mu.Lock()
+		if len(b.queue) == 0 {
+			b.sending = false
+			b.mu.Unlock()
+			return
+		}
+		c := b.queue[0]
+		b.queue = b.queue[1:]
+		b.mu.Unlock()
+
+		b.send(c)
+	}
 }
 
 // receives the connections slice and the messages and calls the appropriate send function.
-- 
2.43.0


From ed687c219327de5d11c016b36d2377873fd4d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 27/36] fix: concurrent Batch calls must not exceed
 MaxBatchSize

---
 conn_batcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index 6861e55..76a13d4 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -55,7 +55,7 @@ func (conn *Conn) Batch(data []byte) error {
 	}
 
 	conn.batch.mu.Lock()
-	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {
+	for conn.batch.totalSize > 0 && conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {
 		conn.batch.mu.Unlock()
 		conn.batch.flush()
 		conn.batch.mu.Lock()
-- 
2.43.0


From 862ebd9b7f294b108e95c95d71f3085988135ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 28/36] fix: a batched message must not be lost when the
 flusher closes

---
 conn_batcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conn_batcher.go b/conn_batcher.go
index 76a13d4..a5811b0 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -65,6 +65,11 @@ func (conn *Conn) Batch(data []byte) error {
 	conn.batch.totalSize += len(data)
 	conn.batch.mu.Unlock()
 
+	// the flusher might have been closed meanwhile, so no one else is going to flush it.
+	if conn.batch.flusher.IsClosed() {
+		conn.batch.flush()
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1d0bbacfc923ba202e801038a2faa17ee4096d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 29/36] fix: the flusher must not see a connection without a
 batch

---
 conn.go         | 2 +-
 conn_batcher.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index df1c142..c44db5c 100755
--- a/conn.go
+++ b/conn.go
@@ -84,7 +84,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.controlWriter = conn.newControlWriter()
 
 	if u.Flusher != nil {
-		conn.batch = u.Flusher.newBatch(conn)
+		u.Flusher.newBatch(conn)
 	}
 
 	// created here because CloseWithCode stops it.
diff --git a/conn_batcher.go b/conn_batcher.go
index a5811b0..1095329 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -19,12 +19,15 @@ type messageBatch struct {
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
-	f.add(conn)
-	return &messageBatch{
+	b := &messageBatch{
 		messages: make([][]byte, 0),
 		conn:     conn,
 		flusher:  f,
 	}
+	// must be set before the flusher sees the conn.
+	conn.batch = b
+	f.add(conn)
+	return b
 }
 
 // Batch adds raw byte data to the current message batch.
-- 
2.43.0


From 45e9df317e0aeeec430df130676014a507f68079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 30/36] fix: a failed or slow handshake response must not leave
 a connection behind

---
 upgrader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/upgrader.go b/upgrader.go
index 0ce1c74..caa7ce1 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -9,6 +9,7 @@ import (
 	"slices"
 	"strings"
 	"sync"
+	"time"
 )
 
 const GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
@@ -105,7 +106,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 
 	p := brw.Writer.AvailableBuffer()
-	conn := u.newConn(c, subProtocol, brw.Reader, p)
 
 	// writing response
 	p = append(p, "HTTP/1.1 101 Switching Protocols\r\n"...)
@@ -121,11 +121,19 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 	p = append(p, "\r\n"...)
 
+	// the conn is created after the response, because it might send frames immediately.
+	if err = c.SetWriteDeadline(time.Now().Add(u.WriteWait)); err != nil {
+		c.Close()
+		return nil, err
+	}
 	_, err = c.Write(p)
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
+	conn := u.newConn(c, subProtocol, brw.Reader, p[:0])
+
 	if u.OnConnect != nil {
 		u.OnConnect(conn)
 	}
-- 
2.43.0


From e337f925ca3c65d4498ecc43e81fdb7b1b5c4b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 31/36] fix: a connection closed during the upgrade must not
 stay in the rate limiter

---
 conn.go     | 5 +++++
 upgrader.go | 4 ----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index c44db5c..a3e5f5f 100755
--- a/conn.go
+++ b/conn.go
@@ -87,6 +87,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		u.Flusher.newBatch(conn)
 	}
 
+	// added before the conn is able to close, otherwise it would never be removed.
+	if u.Limiter != nil {
+		u.Limiter.addClient(conn)
+	}
+
 	// created here because CloseWithCode stops it.
 	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
diff --git a/upgrader.go b/upgrader.go
index caa7ce1..f065435 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -138,10 +138,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 		u.OnConnect(conn)
 	}
 
-	if u.Limiter != nil {
-		u.Limiter.addClient(conn)
-	}
-
 	return conn, err
 }
 
-- 
2.43.0


From 662eb13d828037d3b2d73eada7e9ce494c742334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 32/36] fix: a write buffer without space for a payload must
 not hang the writer

---
 options.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/options.go b/options.go
index 8c3f0bc..bf093aa 100755
--- a/options.go
+++ b/options.go
@@ -117,6 +117,10 @@ func (opt *Options) WithDefault() {
 	if opt.WriteBufferSize == 0 {
 		opt.WriteBufferSize = DefaultWriteBufferSize
 	}
+	// a part of the buffer is reserved for the frame header.
+	if opt.WriteBufferSize <= MaxHeaderSize {
+		opt.WriteBufferSize += MaxHeaderSize
+	}
 	if opt.BroadcastChannelsSize == 0 {
 		opt.BroadcastChannelsSize = DefaultBroadcastChannelsSize
 	}
-- 
2.43.0


From 148e0c18740406c4407d91bb0aa4e5bc3755ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 33/36] fix: batch broadcasting with a nil context panicked

---
 broadcast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 75fcd04..5e343f4 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -152,6 +152,9 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 	if u.Flusher == nil {
 		return 0, ErrBatchingUninitialized
 	}
+	if ctx == nil {
+		ctx = context.Background()
+	}
 
 	m := &batchMessage{buf: data}
 
-- 
2.43.0


From 44b89a161ef7dd2717d39bcc62fc1b47adc9f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 34/36] fix: accept list-valued handshake headers spread over
 several header lines

Connection, Upgrade and Sec-WebSocket-Protocol are lists, so a client (or a
proxy) may send them as several lines; RFC 6455 says so explicitly for
Sec-WebSocket-Protocol. Only the first line was looked at, so such a request
was refused, or its subprotocol was not found.
---
 upgrader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index f065435..64225c4 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -142,7 +142,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 }
 
 func validateConnectionHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Connection")
+	rawHeader := strings.Join(r.Header.Values("Connection"), ",")
 	if rawHeader == "" {
 		return ErrMissingConnectionHeader
 	}
@@ -159,7 +159,7 @@ func validateConnectionHeader(r *http.Request) error {
 }
 
 func validateUpgradeHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Upgrade")
+	rawHeader := strings.Join(r.Header.Values("Upgrade"), ",")
 	if rawHeader == "" {
 		return ErrMissingUpgradeHeader
 	}
@@ -205,7 +205,7 @@ func selectSubProtocol(r *http.Request, subProtocols []string) string {
 	if subProtocols == nil {
 		return ""
 	}
-	rawHeader := r.Header.Get("Sec-WebSocket-Protocol")
+	rawHeader := strings.Join(r.Header.Values("Sec-WebSocket-Protocol"), ",")
 	if rawHeader == "" {
 		return ""
 	}
-- 
2.43.0


From 7b802412d7c7c8845c7a698eaf75c74054dcc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 35/36] fix: a closed writer must not affect the next message

---
 conn_write.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index c0ed8c1..ba6f6a6 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -79,9 +79,11 @@ func (conn *Conn) NextWriter(ctx context.Context, msgType uint8) (*ConnWriter, e
 		return nil, err
 	}
 
-	conn.writer.reset(ctx, msgType)
+	// every message has its own writer, so using it after closing it doesnt affect the next message.
+	w := *conn.writer
+	w.reset(ctx, msgType)
 
-	return conn.writer, nil
+	return &w, nil
 }
 
 // Write appends bytes to the writer buffer and flushes if full.
-- 
2.43.0


From 839a02ecfd0cfb411408bf5e2d4332ef8d5453ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 36/36] fix: connecting to a room that is being closed must not
 end up in the closed room

---
 rooms_manager.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 144b62f..df5d8d7 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -43,7 +43,9 @@ type Room[keyType comparable] struct {
 	Key keyType // key in the parent roomManager
 
 	conns map[*Conn]bool
-	mu    sync.RWMutex
+	// set when the room is closed, from then on no conn can be added.
+	closed bool
+	mu     sync.RWMutex
 
 	// Called when a connection is added to the room.
 	//If not set it will default to "DefaultOnJoin" in the RoomManager.
@@ -110,8 +112,11 @@ func (rm *RoomManager[keyType]) Connect(w http.ResponseWriter, r *http.Request,
 		return nil, nil, err
 	}
 
+	// if the room gets closed meanwhile it isnt in the manager anymore, so the conn goes to a new one.
 	room := rm.Add(roomKey)
-	room.Add(conn, args...)
+	for !room.add(conn, args...) {
+		room = rm.Add(roomKey)
+	}
 
 	return conn, room, nil
 }
@@ -210,14 +215,17 @@ func (rm *RoomManager[keyType]) Shutdown() {
 //
 // After calling Close, this room instance should not be used.
 func (r *Room[keyType]) Close() {
-	r.RemoveAll()
-
 	r.rm.mu.Lock()
-	defer r.rm.mu.Unlock()
 	// a new room might have been created with the same key.
 	if r.rm.rooms[r.Key] == r {
 		delete(r.rm.rooms, r.Key)
 	}
+	r.mu.Lock()
+	r.closed = true
+	r.mu.Unlock()
+	r.rm.mu.Unlock()
+
+	r.RemoveAll()
 }
 
 // Add adds a connection to the room.
@@ -228,13 +236,22 @@ func (r *Room[keyType]) Close() {
 // Thread-safe: Multiple goroutines can call this concurrently.
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
+	r.add(conn, args...)
+}
+
+// add returns false if the room is closed.
+func (r *Room[keyType]) add(conn *Conn, args ...any) bool {
 	// it has to be ready before it becomes visible for broadcasts.
 	conn.enableBroadcasting()
 
 	r.mu.Lock()
+	if r.closed {
+		r.mu.Unlock()
+		return false
+	}
 	if r.conns[conn] {
 		r.mu.Unlock()
-		return
+		return true
 	}
 	// Set up automatic cleanup when connection closes
 	if !conn.addOnClose(r, func() {
@@ -242,7 +259,7 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	}) {
 		// already closed
 		r.mu.Unlock()
-		return
+		return true
 	}
 	r.conns[conn] = true
 	r.mu.Unlock()
@@ -251,6 +268,8 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
 	}
+
+	return true
 }
 
 // Remove removes a connection from the room.
-- 
2.43.0

