From 09933258144c617ad28fb4c72b59c28e2017a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:21 +0000
Subject: [PATCH 01/48] fix: NewMessage honours its isError and isAsync
 arguments

---
 handler.go | 2 +-
 proto.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 7fd41e3..8782b5c 100644
--- a/handler.go
+++ b/handler.go
@@ -887,7 +887,7 @@ func (h *handler) Cancel() {
 }
 
 func (h *handler) NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 func (h *handler) NewMessageWithBuffer(buffer []byte) *Message {
diff --git a/proto.go b/proto.go
index 2df77c3..c5ebac1 100644
--- a/proto.go
+++ b/proto.go
@@ -362,7 +362,7 @@ func (m *Message) Set(key interface{}, value interface{}) {
 
 // NewMessage creates a Message.
 func NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 // newMessage creates a Message.
-- 
2.43.0


From 5b6f3ecc7a46afea0ad78e160137b2a440022d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 02/48] fix: Context.Abort stops chains of more than 127
 handlers

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 0f46bab..976340f 100644
--- a/context.go
+++ b/context.go
@@ -122,7 +122,7 @@ func (ctx *Context) Next() {
 
 // Abort stops the one-by-one-calling of middlewares and method/router handler.
 func (ctx *Context) Abort() {
-	ctx.index = int(math.MaxInt8)
+	ctx.index = int(math.MaxInt32)
 }
 
 // Deadline implements stdlib's Context.
-- 
2.43.0


From 4280617a8e67b466e04f401a93668338fd7b38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:42 +0000
Subject: [PATCH 03/48] fix: a repeated response no longer blocks the receive
 loop

---
 handler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 8782b5c..c8fb862 100644
--- a/handler.go
+++ b/handler.go
@@ -760,7 +760,13 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 			seq := msg.Seq()
 			session, ok := c.getSession(seq)
 			if ok {
-				session.done <- msg
+				select {
+				case session.done <- msg:
+				default:
+					// repeated response: the session has already got its response
+					h.OnSessionMiss(c, msg)
+					log.Warn("%v OnMessage: repeated response, dropped", h.LogTag())
+				}
 			} else {
 				h.OnSessionMiss(c, msg)
 				log.Warn("%v OnMessage: session not exist or expired", h.LogTag())
-- 
2.43.0


From bf5ff71ae10320f2ccc3162eb8fa9ec99a5a7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:34 +0000
Subject: [PATCH 04/48] fix: pending calls and stream reads end on disconnect
 also with AsyncWrite off

---
 client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client.go b/client.go
index d44bdb1..fd9cc48 100644
--- a/client.go
+++ b/client.go
@@ -520,9 +520,7 @@ func (c *Client) closeAndClean() {
 	c.mux.Unlock()
 
 	c.Conn.Close()
-	if c.chSend != nil {
-		close(c.chClose)
-	}
+	close(c.chClose)
 	if c.onStop != nil {
 		c.onStop(c)
 	}
-- 
2.43.0


From 1b75b3f13309aff6eb5958a19d2b41e2c3af0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:34 +0000
Subject: [PATCH 05/48] fix: a server connection stopped while handling a
 message is cleaned up

---
 client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index fd9cc48..e9a1de3 100644
--- a/client.go
+++ b/client.go
@@ -826,11 +826,11 @@ func (c *Client) recvLoop() {
 			msg, err = c.Handler.Recv(c)
 			if err != nil {
 				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-				c.closeAndClean()
-				return
+				break
 			}
 			c.Handler.OnMessage(c, msg)
 		}
+		c.closeAndClean()
 	} else {
 		go c.Handler.OnConnected(c)
 
-- 
2.43.0


From 83c1c0eb00568071f62720d96b7544ab8d323414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:14 +0000
Subject: [PATCH 06/48] fix: every pending async callback runs once when the
 connection is lost

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index e9a1de3..d49f71a 100644
--- a/client.go
+++ b/client.go
@@ -730,7 +730,8 @@ func (c *Client) clearAsyncHandler() {
 	handlers := c.asyncHandlerMap
 	c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 	c.mux.Unlock()
-	for _, ah := range handlers {
+	for _, v := range handlers {
+		ah := v
 		if ah.timer != nil {
 			ah.timer.Stop()
 		}
-- 
2.43.0


From 508bb9ff2ec8ae814c164ca3c64f5a4e3c6ecf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:14 +0000
Subject: [PATCH 07/48] fix: CallAsync does not lose the callback on an early
 timeout or stop

---
 client.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index d49f71a..f213dde 100644
--- a/client.go
+++ b/client.go
@@ -283,7 +283,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 	chTimer := make(chan time.Time, 1)
 	timerC := *(*<-chan time.Time)(unsafe.Pointer(&chTimer))
 	timer := &time.Timer{C: timerC}
-	timerCallback := time.AfterFunc(timeout, func() {
+	timerCallback, ok := c.addAsyncHandler(seq, handler, timeout, func() {
 		ah, ok := c.getAndDeleteAsyncHandler(seq)
 		if ok {
 			if ah.timer != nil {
@@ -294,8 +294,10 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 		}
 		chTimer <- time.Now()
 	})
-	ah := getAsyncHandler(timerCallback, handler)
-	c.addAsyncHandler(seq, ah)
+	if !ok {
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
 
 	if c.Handler.AsyncWrite() {
 		err = c.pushMessage(msg, timer)
@@ -694,12 +696,17 @@ func (c *Client) dropMessage(msg *Message) {
 	}
 }
 
-func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
+// addAsyncHandler registers the handler of an async call and starts its timer;
+// onTimeout can not find the handler missing because it has to wait for the lock.
+func (c *Client) addAsyncHandler(seq uint64, handler AsyncHandlerFunc, timeout time.Duration, onTimeout func()) (*time.Timer, bool) {
 	c.mux.Lock()
-	if c.running {
-		c.asyncHandlerMap[seq] = ah
+	defer c.mux.Unlock()
+	if !c.running {
+		return nil, false
 	}
-	c.mux.Unlock()
+	timer := time.AfterFunc(timeout, onTimeout)
+	c.asyncHandlerMap[seq] = getAsyncHandler(timer, handler)
+	return timer, true
 }
 
 func (c *Client) deleteAsyncHandler(seq uint64) {
-- 
2.43.0


From 4d89dc3da2dc355e7e0620a23afbba3866dc04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:14 +0000
Subject: [PATCH 08/48] fix: the callback of an async call dropped while
 reconnecting is called

---
 client.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index f213dde..7b704cb 100644
--- a/client.go
+++ b/client.go
@@ -313,6 +313,8 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
+			// the error is returned to the caller, the handler should not be called
+			c.deleteAsyncHandler(seq)
 			c.dropMessage(msg)
 			err = ErrClientReconnecting
 		}
@@ -691,7 +693,18 @@ func (c *Client) dropMessage(msg *Message) {
 		}
 		c.Handler.OnMessageDropped(c, msg)
 	} else {
-		c.deleteAsyncHandler(msg.Seq())
+		if msg.Cmd() == CmdRequest {
+			ah, ok := c.getAndDeleteAsyncHandler(msg.Seq())
+			if ok {
+				if ah.timer != nil {
+					ah.timer.Stop()
+				}
+				c.Handler.AsyncExecute(func() {
+					ah.handler(nil, ErrClientReconnecting)
+					putAsyncHandler(ah)
+				})
+			}
+		}
 		c.Handler.OnMessageDropped(c, msg)
 	}
 }
-- 
2.43.0


From 409980a00389ab469a9a22d2119dc4dadf845112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 09/48] fix: a failed write closes the connection it was made
 on, not the redialed one

---
 client.go  | 45 +++++++++++++++++++++++++++------------------
 context.go |  5 +++--
 stream.go  |  5 +++--
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index 7b704cb..2e4785a 100644
--- a/client.go
+++ b/client.go
@@ -181,10 +181,11 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 				return err
 			}
 		} else {
@@ -243,10 +244,11 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 				return err
 			}
 		} else {
@@ -307,9 +309,10 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err = c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
@@ -353,9 +356,10 @@ func (c *Client) Notify(method string, data interface{}, timeout time.Duration,
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err = c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
@@ -400,9 +404,10 @@ func (c *Client) NotifyContext(ctx context.Context, method string, data interfac
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
@@ -429,9 +434,10 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
@@ -924,8 +930,9 @@ func (c *Client) normalSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				if _, err := c.Handler.Send(c.Conn, msg.Buffer); err != nil {
-					c.Conn.Close()
+				conn := c.Conn
+				if _, err := c.Handler.Send(conn, msg.Buffer); err != nil {
+					conn.Close()
 				}
 				c.Handler.OnMessageDone(c, msg)
 			} else {
@@ -989,14 +996,16 @@ func (c *Client) batchSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				_, err := c.Handler.Send(c.Conn, msg.Buffer)
+				conn := c.Conn
+				_, err := c.Handler.Send(conn, msg.Buffer)
 				if err != nil {
-					c.Conn.Close()
+					conn.Close()
 				}
 				c.Handler.OnMessageDone(c, msg)
 			} else {
-				if _, err := c.Handler.Send(c.Conn, buffer); err != nil {
-					c.Conn.Close()
+				conn := c.Conn
+				if _, err := c.Handler.Send(conn, buffer); err != nil {
+					conn.Close()
 				}
 				buffer = buffer[0:0]
 			}
diff --git a/context.go b/context.go
index 976340f..85ba4a9 100644
--- a/context.go
+++ b/context.go
@@ -181,9 +181,10 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 		for j := 0; j < len(coders); j++ {
 			rsp = coders[j].Encode(cli, rsp)
 		}
-		_, err := cli.Handler.Send(cli.Conn, rsp.Buffer)
+		conn := cli.Conn
+		_, err := cli.Handler.Send(conn, rsp.Buffer)
 		if err != nil {
-			cli.Conn.Close()
+			conn.Close()
 		}
 		return err
 	}
diff --git a/stream.go b/stream.go
index f1af279..c3146ce 100644
--- a/stream.go
+++ b/stream.go
@@ -171,9 +171,10 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
-- 
2.43.0


From ab9a9980f69704a8c608f9574d88ae131fff43c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:33 +0000
Subject: [PATCH 10/48] fix: the send loop frees its current buffer, not the
 one Append replaced

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 2e4785a..1d82432 100644
--- a/client.go
+++ b/client.go
@@ -958,7 +958,8 @@ func (c *Client) batchSendLoop() {
 	var coders []MessageCoder
 	var buffer = c.Handler.Malloc(2048)[0:0]
 	var sendBufferSize = c.Handler.SendBufferSize()
-	defer c.Handler.Free(buffer)
+	// buffer may be replaced by Append, free the current one
+	defer func() { c.Handler.Free(buffer) }()
 
 	for {
 		select {
-- 
2.43.0


From f58ecbd0301cec85ee18aed89e6a40265b209f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:33 +0000
Subject: [PATCH 11/48] fix: a stream keeps its own copy of the method name

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index c8fb862..0e19d0d 100644
--- a/handler.go
+++ b/handler.go
@@ -795,7 +795,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		if !ok {
 			sh, ok := h.streams[method]
 			if ok && !local {
-				stream = c.newStream(msg.method(), id, false)
+				stream = c.newStream(msg.Method(), id, false)
 				stream.onMessage(msg)
 				if eof {
 					stream.CloseRecv()
-- 
2.43.0


From 67792af36c14f2a8faff576610c693661631947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:33 +0000
Subject: [PATCH 12/48] fix: a publication is not recycled before every
 subscriber's copy is sent

---
 extension/pubsub/topic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 7050f7a..db3ef5e 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -94,8 +94,10 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
+		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
@@ -116,8 +118,10 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 // PublishToOne .
 func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
+		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
-- 
2.43.0


From c8ee19e87d39b2b6f65a8a65a176603d9246cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:42 +0000
Subject: [PATCH 13/48] fix: RecvContext on an ended stream returns io.EOF
 instead of panicking

---
 stream.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index c3146ce..04c3919 100644
--- a/stream.go
+++ b/stream.go
@@ -82,8 +82,14 @@ func (s *Stream) Recv(v interface{}) error {
 }
 
 func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
+	if atomic.LoadInt32(&s.stateRecv) == 1 && len(s.chData) == 0 {
+		return io.EOF
+	}
 	select {
-	case msg := <-s.chData:
+	case msg, ok := <-s.chData:
+		if !ok {
+			return io.EOF
+		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
 		s.cli.Handler.OnMessageDone(s.cli, msg)
-- 
2.43.0


From ddfd2b41cb33d51a3070f204bae145c0285950d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:42 +0000
Subject: [PATCH 14/48] fix: CloseSend closes the sending side before it
 returns

---
 stream.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stream.go b/stream.go
index 04c3919..3b12257 100644
--- a/stream.go
+++ b/stream.go
@@ -52,17 +52,23 @@ func (s *Stream) CloseRecvContext(ctx context.Context) {
 }
 
 func (s *Stream) CloseSend() {
-	go s.CloseSendContext(context.Background())
+	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
+		go s.sendEOF(context.Background())
+	}
 }
 
 func (s *Stream) CloseSendContext(ctx context.Context) {
 	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
-		eof := true
-		s.send(ctx, []byte{}, eof)
-		s.halfClose()
+		s.sendEOF(ctx)
 	}
 }
 
+func (s *Stream) sendEOF(ctx context.Context) {
+	eof := true
+	s.send(ctx, []byte{}, eof)
+	s.halfClose()
+}
+
 func (s *Stream) Recv(v interface{}) error {
 	if atomic.LoadInt32(&s.stateRecv) == 1 && len(s.chData) == 0 {
 		return io.EOF
-- 
2.43.0


From 8f867e111bddb155a60062a7841c39390591dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:17 +0000
Subject: [PATCH 15/48] fix: a client stopped before its receive loop runs or
 while redialing stays stopped

---
 client.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 1d82432..c2c879e 100644
--- a/client.go
+++ b/client.go
@@ -861,9 +861,10 @@ func (c *Client) recvLoop() {
 	} else {
 		go c.Handler.OnConnected(c)
 
-		for c.running {
+		// also clean up if stopped before the first Recv
+		{
 		RECV:
-			for {
+			for c.running {
 				msg, err = c.Handler.Recv(c)
 				if err != nil {
 					log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
@@ -887,7 +888,11 @@ func (c *Client) recvLoop() {
 				log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
 				conn, err := c.Dialer()
 				if err == nil {
-					c.Conn = conn
+					if !c.replaceConn(conn) {
+						// stopped while dialing
+						conn.Close()
+						break
+					}
 
 					c.initReader()
 
@@ -907,6 +912,16 @@ func (c *Client) recvLoop() {
 	}
 }
 
+// replaceConn sets the redialed conn unless the Client has been stopped.
+func (c *Client) replaceConn(conn net.Conn) bool {
+	c.mux.Lock()
+	defer c.mux.Unlock()
+	if c.running {
+		c.Conn = conn
+	}
+	return c.running
+}
+
 func (c *Client) sendLoop() {
 	addr := c.Conn.RemoteAddr().String()
 	log.Debug("%v\t%v\tsendLoop start", c.Handler.LogTag(), addr)
-- 
2.43.0


From b414a983f7966b22f89e570dd7b29877b65c3153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:53 +0000
Subject: [PATCH 16/48] fix: Stop releases what waits for the client, also a
 receive loop blocked on a full stream

---
 client.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c2c879e..9d8825e 100644
--- a/client.go
+++ b/client.go
@@ -519,18 +519,28 @@ func (c *Client) Restart() error {
 func (c *Client) Stop() {
 	c.mux.Lock()
 	c.running = false
+	c.closeChClose()
 	c.mux.Unlock()
 
 	c.Conn.Close()
 }
 
+// closeChClose closes chClose once, c.mux must be held.
+func (c *Client) closeChClose() {
+	select {
+	case <-c.chClose:
+	default:
+		close(c.chClose)
+	}
+}
+
 func (c *Client) closeAndClean() {
 	c.mux.Lock()
 	c.running = false
+	c.closeChClose()
 	c.mux.Unlock()
 
 	c.Conn.Close()
-	close(c.chClose)
 	if c.onStop != nil {
 		c.onStop(c)
 	}
-- 
2.43.0


From 50b9778adb39d5603bb8987f182a81f68ac8c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:42 +0000
Subject: [PATCH 17/48] fix: a connection that ended before it was registered
 is not kept by the server

---
 server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 77627e8..fc0fc9f 100644
--- a/server.go
+++ b/server.go
@@ -153,7 +153,10 @@ func (s *Server) subLoad() int64 {
 
 func (s *Server) addClient(c *Client) {
 	s.mux.Lock()
-	s.clients[c] = util.Empty{}
+	// the client may have been disconnected and deleted already
+	if c.running {
+		s.clients[c] = util.Empty{}
+	}
 	s.mux.Unlock()
 }
 
-- 
2.43.0


From eb0dc7365f0728158972e5dc518b03f40484d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:23 +0000
Subject: [PATCH 18/48] fix: a topic whose name length exceeds its bytes is
 refused with an error, not a panic

---
 extension/pubsub/topic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index db3ef5e..4fe1f90 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -51,6 +51,9 @@ func (tp *Topic) fromBytes(data []byte) error {
 	if nameLen == 0 || nameLen > MaxTopicNameLen {
 		return ErrInvalidTopicNameLength
 	}
+	if len(data) < nameLen+10 {
+		return ErrInvalidTopicBytes
+	}
 	tp.Timestamp = int64(binary.LittleEndian.Uint64(data[len(data)-8:]))
 	tp.Name = string(data[len(data)-nameLen-10 : len(data)-10])
 	tp.Data = data[:len(data)-nameLen-10]
-- 
2.43.0


From 0557d941dae8f430412963c8b89ac6f6d6b3aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:23 +0000
Subject: [PATCH 19/48] fix: publishing does not write into the publisher's
 spare slice capacity

---
 extension/pubsub/topic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 4fe1f90..d4edcc5 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -37,7 +37,7 @@ func (tp *Topic) toBytes() ([]byte, error) {
 	binary.LittleEndian.PutUint16(tail[nameLen:], nameLen)
 	binary.LittleEndian.PutUint64(tail[nameLen+2:], uint64(tp.Timestamp))
 	dataLen := len(tp.Data)
-	tp.Data = append(tp.Data, tail...)
+	tp.Data = append(tp.Data[:dataLen:dataLen], tail...)
 	tp.raw = tp.Data
 	tp.Data = tp.raw[:dataLen]
 	return tp.raw, nil
-- 
2.43.0


From b07bf8306730c31cf6d7700711278a8c279358f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:46 +0000
Subject: [PATCH 20/48] fix: authenticating again keeps the connection's
 subscriptions, so that they can still be removed

---
 extension/pubsub/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 94a2717..e52f622 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -250,6 +250,11 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 
 // addClient .
 func (s *Server) addClient(c *arpc.Client) {
+	s.psmux.Lock()
+	defer s.psmux.Unlock()
+	if _, ok := c.Get(userTopicKey); ok {
+		return
+	}
 	c.Set(userTopicKey, &clientTopics{
 		topicAgents: map[string]*TopicAgent{},
 	})
-- 
2.43.0


From 9c7f83c48f45c4bc5a1319f50313c29e7af93ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:46 +0000
Subject: [PATCH 21/48] fix: overlapping subscribe and unsubscribe requests
 leave the two tables consistent

---
 extension/pubsub/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index e52f622..0812bb7 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -119,8 +119,8 @@ func (s *Server) onSubscribe(ctx *arpc.Context) {
 		if !ok {
 			tp = s.getOrMakeTopic(topicName)
 			cts.topicAgents[topicName] = tp
-			cts.mux.Unlock()
 			tp.Add(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), topicName, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -158,8 +158,8 @@ func (s *Server) onUnsubscribe(ctx *arpc.Context) {
 		cts.mux.Lock()
 		if ta, ok := cts.topicAgents[topicName]; ok {
 			delete(cts.topicAgents, topicName)
-			cts.mux.Unlock()
 			ta.Delete(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Unsubscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), ta.Name, ctx.Client.Conn.RemoteAddr())
 		} else {
-- 
2.43.0


From 067d085d1fe9940a3187f4647c895c34d0c636e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:46 +0000
Subject: [PATCH 22/48] fix: a topic handler that panics does not leave the
 pub/sub client locked

---
 extension/pubsub/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index 400d781..043f8cc 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -181,11 +181,9 @@ func (c *Client) onPublish(ctx *arpc.Context) {
 
 	if c.onPublishHandler == nil {
 		c.psmux.Lock()
+		defer c.psmux.Unlock()
 		if h, ok := c.topicHandlerMap[topic.Name]; ok {
 			h(topic)
-			c.psmux.Unlock()
-		} else {
-			c.psmux.Unlock()
 		}
 	} else {
 		c.onPublishHandler(topic)
-- 
2.43.0


From 0e367a5a14648b362b09e30350fdcaebcdf2e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:34 +0000
Subject: [PATCH 23/48] fix: an appender value that cannot be converted leaves
 the message unflagged

---
 extension/middleware/coder/appender.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 5f94bc1..cd685eb 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -23,13 +23,13 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if !ok {
 		return msg
 	}
-	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
-		return msg
-	}
 	valueData, err := ap.valueToBytes(value)
 	if err != nil {
 		return msg
 	}
+	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
+		return msg
+	}
 	msg.Buffer = append(msg.Buffer, make([]byte, len(key)+len(valueData)+2)...)
 	appendData := msg.Buffer[len(msg.Buffer)-len(key)-len(valueData)-2:]
 	copy(appendData, key)
-- 
2.43.0


From 1ad5185515870c73979de86a0f995dc75ea4ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:34 +0000
Subject: [PATCH 24/48] fix: an appender value too long for the 16-bit trailer
 length is not attached

---
 extension/middleware/coder/appender.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index cd685eb..11cc6ce 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -1,6 +1,8 @@
 package coder
 
 import (
+	"math"
+
 	"github.com/lesismal/arpc"
 	"github.com/lesismal/arpc/util"
 )
@@ -27,6 +29,9 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if err != nil {
 		return msg
 	}
+	if len(key)+len(valueData)+2 > math.MaxUint16 {
+		return msg
+	}
 	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
 		return msg
 	}
-- 
2.43.0


From 065f4d15fecaffa3ff59392ef8e4e1ee737ffbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:53 +0000
Subject: [PATCH 25/48] fix: a queued response does not share its values map
 with the running handler

---
 context.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 85ba4a9..786393d 100644
--- a/context.go
+++ b/context.go
@@ -162,10 +162,22 @@ func (ctx *Context) write(v interface{}, isError bool, timeout time.Duration) er
 		ctx.responseErr = v
 	}
 
-	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
+	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.copyValues())
 	return cli.PushMsg(rsp, timeout)
 }
 
+// copyValues returns the values for a queued response, which is encoded while the handler may go on setting values.
+func (ctx *Context) copyValues() map[interface{}]interface{} {
+	if len(ctx.Message.values) == 0 {
+		return nil
+	}
+	values := make(map[interface{}]interface{}, len(ctx.Message.values))
+	for k, v := range ctx.Message.values {
+		values[k] = v
+	}
+	return values
+}
+
 func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 	cli := ctx.Client
 	req := ctx.Message
-- 
2.43.0


From 49b843ace282766f153784e806088049fe227ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:27 +0000
Subject: [PATCH 26/48] fix: broadcast and publish give each client its own
 message when coders are used

---
 extension/pubsub/topic.go | 14 ++++++++++++--
 server.go                 | 10 ++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index d4edcc5..579d780 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -97,9 +97,14 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
-	defer msg.Release()
+	defer func() { msg.Release() }()
 	t.mux.RLock()
 	for to := range t.clients {
+		if len(s.Handler.Coders()) > 0 {
+			// coders change the message, so that it can not be shared
+			msg.Release()
+			msg = s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+		}
 		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
@@ -121,9 +126,14 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 // PublishToOne .
 func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
-	defer msg.Release()
+	defer func() { msg.Release() }()
 	t.mux.RLock()
 	for to := range t.clients {
+		if len(s.Handler.Coders()) > 0 {
+			// coders change the message, so that it can not be shared
+			msg.Release()
+			msg = s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+		}
 		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
diff --git a/server.go b/server.go
index fc0fc9f..8d479c9 100644
--- a/server.go
+++ b/server.go
@@ -69,6 +69,11 @@ func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	}()
 
 	for c := range s.clients {
+		if len(s.Handler.Coders()) > 0 {
+			// coders change the message, so that it can not be shared
+			c.PushMsg(s.NewMessage(CmdNotify, method, v, args...), TimeZero)
+			continue
+		}
 		msg.Retain()
 		c.PushMsg(msg, TimeZero)
 	}
@@ -84,6 +89,11 @@ func (s *Server) BroadcastWithFilter(method string, v interface{}, filter func(*
 
 	for c := range s.clients {
 		if filter == nil || filter(c) {
+			if len(s.Handler.Coders()) > 0 {
+				// coders change the message, so that it can not be shared
+				c.PushMsg(s.NewMessage(CmdNotify, method, v, args...), TimeZero)
+				continue
+			}
 			msg.Retain()
 			c.PushMsg(msg, TimeZero)
 		}
-- 
2.43.0


From 37be20ca5b84411b49b13bd67ff3796d4e642c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:41 +0000
Subject: [PATCH 27/48] fix: a cloned handler's default reader uses its own
 receive buffer size

---
 handler.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/handler.go b/handler.go
index 0e19d0d..e5e52d8 100644
--- a/handler.go
+++ b/handler.go
@@ -285,7 +285,7 @@ type handler struct {
 	append     func([]byte, ...byte) []byte
 	free       func([]byte)
 
-	wrapReader func(conn net.Conn) io.Reader
+	wrapReader func(h *handler, conn net.Conn) io.Reader
 
 	routes  map[string]*routerHandler
 	streams map[string]*streamHandler
@@ -472,13 +472,17 @@ func (h *handler) SetAsyncResponse(async bool) {
 
 func (h *handler) WrapReader(conn net.Conn) io.Reader {
 	if h.wrapReader != nil {
-		return h.wrapReader(conn)
+		return h.wrapReader(h, conn)
 	}
 	return conn
 }
 
 func (h *handler) SetReaderWrapper(wrapper func(conn net.Conn) io.Reader) {
-	h.wrapReader = wrapper
+	if wrapper == nil {
+		h.wrapReader = nil
+		return
+	}
+	h.wrapReader = func(_ *handler, conn net.Conn) io.Reader { return wrapper(conn) }
 }
 
 func (h *handler) RecvBufferSize() int {
@@ -930,7 +934,7 @@ func NewHandler() Handler {
 		streamQueueSize: 4,
 		maxBodyLen:      DefaultMaxBodyLen,
 	}
-	h.wrapReader = func(conn net.Conn) io.Reader {
+	h.wrapReader = func(h *handler, conn net.Conn) io.Reader {
 		return bufio.NewReaderSize(conn, h.recvBufferSize)
 	}
 	h.HandleConnected(func(cli *Client) {
-- 
2.43.0


From aed57e08a7c3a2aa46c338581fa08ca355fcde94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:41 +0000
Subject: [PATCH 28/48] fix: overstock and drop callbacks of a cloned handler
 finish messages with its own done callback

---
 handler.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/handler.go b/handler.go
index e5e52d8..e13cbe6 100644
--- a/handler.go
+++ b/handler.go
@@ -273,9 +273,9 @@ type handler struct {
 
 	onConnected      func(*Client)
 	onDisConnected   func(*Client)
-	onOverstock      func(c *Client, m *Message)
+	onOverstock      func(h *handler, c *Client, m *Message)
 	onMessageDone    func(c *Client, m *Message)
-	onMessageDropped func(c *Client, m *Message)
+	onMessageDropped func(h *handler, c *Client, m *Message)
 	onSessionMiss    func(c *Client, m *Message)
 	onContextDone    func(ctx *Context)
 
@@ -370,7 +370,7 @@ func (h *handler) SetMaxReconnectTimes(n int) {
 }
 
 func (h *handler) HandleOverstock(onOverstock func(c *Client, m *Message)) {
-	h.onOverstock = func(c *Client, m *Message) {
+	h.onOverstock = func(h *handler, c *Client, m *Message) {
 		if onOverstock != nil {
 			onOverstock(c, m)
 		}
@@ -380,12 +380,12 @@ func (h *handler) HandleOverstock(onOverstock func(c *Client, m *Message)) {
 
 func (h *handler) OnOverstock(c *Client, m *Message) {
 	if h.onOverstock != nil {
-		h.onOverstock(c, m)
+		h.onOverstock(h, c, m)
 	}
 }
 
 func (h *handler) HandleMessageDropped(onMessageDropped func(c *Client, m *Message)) {
-	h.onMessageDropped = func(c *Client, m *Message) {
+	h.onMessageDropped = func(h *handler, c *Client, m *Message) {
 		if onMessageDropped != nil {
 			onMessageDropped(c, m)
 		}
@@ -395,7 +395,7 @@ func (h *handler) HandleMessageDropped(onMessageDropped func(c *Client, m *Messa
 
 func (h *handler) OnMessageDropped(c *Client, m *Message) {
 	if h.onMessageDropped != nil {
-		h.onMessageDropped(c, m)
+		h.onMessageDropped(h, c, m)
 	}
 }
 
-- 
2.43.0


From bf00ef6e889fce2662dedfbce0381b8831aef3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:07 +0000
Subject: [PATCH 29/48] fix: concurrent callers of ClientPool.Next get a usable
 client if there is one

---
 client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client.go b/client.go
index 9d8825e..6228ee0 100644
--- a/client.go
+++ b/client.go
@@ -1136,6 +1136,12 @@ func (pool *ClientPool) Next() *Client {
 			return client
 		}
 	}
+	// concurrent callers may have taken the turns of the usable clients
+	for _, c := range pool.clients {
+		if c.running && !c.reconnecting {
+			return c
+		}
+	}
 	return client
 }
 
-- 
2.43.0


From 862555f6ab2a367c1c7984f1c856ba7b4803a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 30/48] fix: adding a service node twice does not leave an
 unused connection open

---
 extension/micro/service.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index cfd0cc8..b197482 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -42,16 +42,17 @@ type serviceNodeList struct {
 	nodes []*ServiceNode
 }
 
-func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) {
+func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) bool {
 	list.mux.Lock()
 	defer list.mux.Unlock()
 	for _, v := range list.nodes {
 		// addr already added
 		if v.addr == addr {
-			return
+			return false
 		}
 	}
 	list.nodes = append(list.nodes, nodes...)
+	return true
 }
 
 func (list *serviceNodeList) update(node *ServiceNode) {
@@ -108,7 +109,7 @@ type serviceManager struct {
 	serviceList map[string]*serviceNodeList
 }
 
-func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) {
+func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) bool {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	if !ok {
@@ -116,7 +117,7 @@ func (s *serviceManager) setServiceNode(name string, addr string, nodes []*Servi
 		s.serviceList[name] = list
 	}
 	s.mux.Unlock()
-	list.addByAddr(addr, nodes)
+	return list.addByAddr(addr, nodes)
 }
 
 func (s *serviceManager) updateServiceNode(name string, node *ServiceNode) {
@@ -154,7 +155,12 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 	})
 	for i := 0; i < weight; i++ {
 		nodes[i].client = client
-		s.setServiceNode(name, addr, nodes)
+	}
+	if !s.setServiceNode(name, addr, nodes) {
+		if client != nil {
+			client.Stop()
+		}
+		return
 	}
 	if err == nil {
 		log.Info("AddServiceNodes: [%v, %v, %v, %v]", app, name, addr, weight)
-- 
2.43.0


From b88cb025ac2314dd8b0abc960591fb33c26fca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:01 +0000
Subject: [PATCH 31/48] fix: concurrent service lookups find a reachable node
 if there is one

---
 extension/micro/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index b197482..e6e1657 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -87,8 +87,8 @@ func (list *serviceNodeList) delete(addr string) {
 }
 
 func (list *serviceNodeList) next() (*arpc.Client, error) {
-	list.mux.RLock()
-	defer list.mux.RUnlock()
+	list.mux.Lock()
+	defer list.mux.Unlock()
 	l := len(list.nodes)
 	if l == 0 {
 		return nil, ErrServiceNotFound
-- 
2.43.0


From cf66f1406e1078cb97fc735bda9ddfc60414c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:59 +0000
Subject: [PATCH 32/48] fix: closing the split listener closes the connections
 nobody has accepted yet

---
 extension/listener/listener.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/extension/listener/listener.go b/extension/listener/listener.go
index 38e1f2e..f14a8b1 100644
--- a/extension/listener/listener.go
+++ b/extension/listener/listener.go
@@ -34,7 +34,15 @@ func (l *Listener) Close() error {
 	}
 	close(l.chEventA)
 	close(l.chEventB)
-	return l.listener.Close()
+	err := l.listener.Close()
+	// avoid conn leak when close
+	for e := range l.chEventA {
+		e.conn.Close()
+	}
+	for e := range l.chEventB {
+		e.conn.Close()
+	}
+	return err
 }
 
 // Addr returns the listener's network address.
-- 
2.43.0


From d33ae6f289027f876a0177e4d0d879aee1d4ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:41 +0000
Subject: [PATCH 33/48] fix: closing the websocket listener closes the
 connections nobody has accepted yet

---
 extension/protocol/websocket/websocket.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index 31a9ee4..0d35668 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -43,6 +43,9 @@ func (ln *Listener) Handler(w http.ResponseWriter, r *http.Request) {
 	wsc := &Conn{Conn: c, chHandler: make(chan func(), 1)}
 	select {
 	case ln.chAccept <- wsc:
+		if atomic.LoadUint32(&ln.closed) == 1 {
+			ln.closeUnaccepted()
+		}
 	case <-ln.chClose:
 		c.Close()
 	}
@@ -52,10 +55,23 @@ func (ln *Listener) Handler(w http.ResponseWriter, r *http.Request) {
 func (ln *Listener) Close() error {
 	if atomic.CompareAndSwapUint32(&ln.closed, 0, 1) {
 		close(ln.chClose)
+		ln.closeUnaccepted()
 	}
 	return nil
 }
 
+// closeUnaccepted closes the queued connections that nobody will accept after the listener is closed.
+func (ln *Listener) closeUnaccepted() {
+	for {
+		select {
+		case c := <-ln.chAccept:
+			c.Close()
+		default:
+			return
+		}
+	}
+}
+
 // Addr .
 func (ln *Listener) Addr() net.Addr {
 	return ln.addr
-- 
2.43.0


From 79c5369b61a6d694545d0d76f00a7c4d498392ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:30 +0000
Subject: [PATCH 34/48] fix: graceful shutdown skips the handler of a refused
 request and waits for every started one

---
 extension/middleware/router/graceful.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 4276dbd..bb559d7 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -13,6 +13,7 @@ var ErrShutdown = errors.New("shutting down")
 
 // Graceful represents a graceful middleware instance.
 type Graceful struct {
+	mux        sync.Mutex
 	shutdown   bool
 	gracefulWg sync.WaitGroup
 }
@@ -20,19 +21,32 @@ type Graceful struct {
 // Handler returns the graceful middleware handler.
 func (g *Graceful) Handler() arpc.HandlerFunc {
 	return func(ctx *arpc.Context) {
-		if !g.shutdown {
-			g.gracefulWg.Add(1)
+		if g.begin() {
 			defer g.gracefulWg.Done()
 			ctx.Next()
 		} else {
 			ctx.Error(ErrShutdown)
+			ctx.Abort()
 		}
 	}
 }
 
+// begin counts a request as running, unless shutting down.
+func (g *Graceful) begin() bool {
+	g.mux.Lock()
+	defer g.mux.Unlock()
+	if g.shutdown {
+		return false
+	}
+	g.gracefulWg.Add(1)
+	return true
+}
+
 // Shutdown stops handling new requests and waits for all current requests to be processed.
 func (g *Graceful) Shutdown() {
+	g.mux.Lock()
 	g.shutdown = true
+	g.mux.Unlock()
 	g.gracefulWg.Wait()
 	time.Sleep(time.Second / 10)
 }
-- 
2.43.0


From b02d2611f9159102410c0b718f010058a9f5d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:59 +0000
Subject: [PATCH 35/48] fix: the HTTP adapter writes the reply before the HTTP
 handler returns, whatever the handler's settings

---
 extension/arpchttp/handler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/extension/arpchttp/handler.go b/extension/arpchttp/handler.go
index c51afb6..c7b7578 100644
--- a/extension/arpchttp/handler.go
+++ b/extension/arpchttp/handler.go
@@ -61,8 +61,13 @@ func Handler(nh arpc.Handler, codec codec.Codec) http.HandlerFunc {
 			return
 		}
 
-		client := &arpc.Client{Conn: &Conn{w}, Codec: codec, Handler: nh}
-		msg := nh.NewMessageWithBuffer(body)
-		nh.OnMessage(client, msg)
+		// the reply must be written before the http handler returns
+		h := nh.Clone()
+		h.SetAsyncWrite(false)
+		h.SetAsyncExecutor(func(f func()) { f() })
+
+		client := &arpc.Client{Conn: &Conn{w}, Codec: codec, Handler: h}
+		msg := h.NewMessageWithBuffer(body)
+		h.OnMessage(client, msg)
 	}
 }
-- 
2.43.0


From e50aed710745136f8c8a5db3a728545edc1d6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:59 +0000
Subject: [PATCH 36/48] fix: stopping a client that was never connected does
 not panic

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 6228ee0..b1e8aa1 100644
--- a/client.go
+++ b/client.go
@@ -527,6 +527,9 @@ func (c *Client) Stop() {
 
 // closeChClose closes chClose once, c.mux must be held.
 func (c *Client) closeChClose() {
+	if c.chClose == nil { // a client that only answers, as the HTTP adapter's
+		return
+	}
 	select {
 	case <-c.chClose:
 	default:
-- 
2.43.0


From df2da26ca2598c9346ee92b583cc16970e32da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:26 +0000
Subject: [PATCH 37/48] fix: a panic in a timeout or connect callback does not
 end the process

The callback of a timed-out asynchronous call and the connect callbacks are
now run with util.Safe, as the other user code is.
---
 client.go | 6 +++---
 server.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index b1e8aa1..cb1818b 100644
--- a/client.go
+++ b/client.go
@@ -291,7 +291,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			if ah.timer != nil {
 				ah.timer.Stop()
 			}
-			ah.handler(nil, ErrTimeout)
+			util.Safe(func() { ah.handler(nil, ErrTimeout) })
 			putAsyncHandler(ah)
 		}
 		chTimer <- time.Now()
@@ -872,7 +872,7 @@ func (c *Client) recvLoop() {
 		}
 		c.closeAndClean()
 	} else {
-		go c.Handler.OnConnected(c)
+		go util.Safe(func() { c.Handler.OnConnected(c) })
 
 		// also clean up if stopped before the first Recv
 		{
@@ -913,7 +913,7 @@ func (c *Client) recvLoop() {
 
 					log.Info("%v\t%v\tReconnected", c.Handler.LogTag(), addr)
 
-					go c.Handler.OnConnected(c)
+					go util.Safe(func() { c.Handler.OnConnected(c) })
 
 					goto RECV
 				}
diff --git a/server.go b/server.go
index 8d479c9..6ac7fbd 100644
--- a/server.go
+++ b/server.go
@@ -209,7 +209,7 @@ func (s *Server) runLoop() error {
 					s.subLoad()
 				})
 				s.addClient(cli)
-				s.Handler.OnConnected(cli)
+				util.Safe(func() { s.Handler.OnConnected(cli) })
 			} else {
 				conn.Close()
 				s.subLoad()
-- 
2.43.0


From eec96faddf6bbb24b2175b26d61f4eb48dd0b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:54 +0000
Subject: [PATCH 38/48] fix: concurrent writes to a websocket connection do not
 panic

net.Conn allows several goroutines to write, and arpc does so (direct writes,
Ping, Pong), but a gorilla connection supports only one concurrent writer.
---
 extension/protocol/websocket/websocket.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index 0d35668..588a816 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"net"
 	"net/http"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -92,6 +93,7 @@ type Conn struct {
 	*websocket.Conn
 	chHandler chan func()
 	buffer    []byte
+	wmux      sync.Mutex
 }
 
 // HandleWebsocket .
@@ -127,7 +129,10 @@ func (c *Conn) Read(b []byte) (int, error) {
 
 // Write .
 func (c *Conn) Write(b []byte) (int, error) {
+	// a websocket.Conn supports only one concurrent writer
+	c.wmux.Lock()
 	err := c.WriteMessage(websocket.BinaryMessage, b)
+	c.wmux.Unlock()
 	if err == nil {
 		return len(b), nil
 	}
-- 
2.43.0


From 7512d7435b1f763308a2744662fb8fea95528ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:25 +0000
Subject: [PATCH 39/48] fix: send pings and pongs with the write timeout and
 the BeforeSend hook

Ping and Pong wrote to the connection directly: a deadline left behind by an
earlier send made them fail, a peer that stopped reading blocked them for ever,
and BeforeSend did not see them.
---
 client.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index cb1818b..d0ba7ce 100644
--- a/client.go
+++ b/client.go
@@ -112,12 +112,20 @@ func (c *Client) Delete(key interface{}) {
 
 // Ping .
 func (c *Client) Ping() {
-	c.Conn.Write(PingMessage.Buffer)
+	c.sendDirectly(PingMessage)
 }
 
 // Pong .
 func (c *Client) Pong() {
-	c.Conn.Write(PongMessage.Buffer)
+	c.sendDirectly(PongMessage)
+}
+
+// sendDirectly writes msg without queueing, with the write timeout and hook of the handler.
+func (c *Client) sendDirectly(msg *Message) {
+	conn := c.Conn
+	if _, err := c.Handler.Send(conn, msg.Buffer); err != nil {
+		conn.Close()
+	}
 }
 
 // Ping .
-- 
2.43.0


From ddcf92027010df146f482478eefa30dde4dd8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:25 +0000
Subject: [PATCH 40/48] fix: redis discovery keeps its services when a refresh
 fails

A failed HGetAll was taken for an empty registry: every node was deleted, and
NewDiscovery succeeded without having seen the registry.
---
 extension/micro/redis/discovery.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 7520020..9d6472b 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -31,6 +31,7 @@ func (ds *Discovery) updateServices() error {
 	err := ret.Err()
 	if err != nil {
 		log.Error("Discovery updateServices failed: %v", err)
+		return err
 	}
 
 	cache := map[string]struct{}{}
-- 
2.43.0


From d3da3bbeac0aca9409ae309fbc879cd12a452c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:25 +0000
Subject: [PATCH 41/48] fix: a stopped redis registration stays deleted

Stop deleted the entry but left keepalive running, which wrote it back at the
next tick, for ever.
---
 extension/micro/redis/register.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index e2d97bc..cde76c1 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	redis "github.com/go-redis/redis/v8"
@@ -17,13 +18,25 @@ type Register struct {
 	serviceAddr      string
 	weight           int
 	field            string
+	mux              sync.Mutex
+	stopped          bool
 	done             chan struct{}
 	interval         time.Duration
 	expire           time.Duration
 	client           *redis.Client
 }
 
-// Stop .
+// renew .
+func (s *Register) renew() {
+	s.mux.Lock()
+	defer s.mux.Unlock()
+	if s.stopped {
+		return
+	}
+	s.client.HSet(context.Background(), s.serviceNamespace, s.field, time.Now().Add(s.expire).Unix())
+}
+
+// keepalive .
 func (s *Register) keepalive() {
 	ticker := time.NewTicker(s.interval)
 	defer ticker.Stop()
@@ -33,13 +46,19 @@ func (s *Register) keepalive() {
 		case <-s.done:
 			return
 		case <-ticker.C:
-			s.client.HSet(context.Background(), s.serviceNamespace, s.field, time.Now().Add(s.expire).Unix())
+			s.renew()
 		}
 	}
 }
 
 // Stop .
 func (s *Register) Stop() error {
+	s.mux.Lock()
+	defer s.mux.Unlock()
+	if !s.stopped {
+		s.stopped = true
+		close(s.done)
+	}
 	ret := s.client.HDel(context.Background(), s.serviceNamespace, s.field)
 	err := ret.Err()
 	if err != nil {
-- 
2.43.0


From fee7b20fb162c5517c34ab7237a3d0e5bd5e7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:25 +0000
Subject: [PATCH 42/48] fix: redis registration refreshes an entry left by an
 earlier run

HSetNX left the old expiry in place, so the service vanished from discovery
until the first keepalive.
---
 extension/micro/redis/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index cde76c1..a386d02 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -85,10 +85,10 @@ func NewRegister(addr, serviceNamespace, serviceName, serviceAddr string, weight
 	})
 
 	field := fmt.Sprintf("%v/%v/%v", serviceName, serviceAddr, weight)
-	ret := client.HSetNX(context.Background(), serviceNamespace, field, time.Now().Add(expire).Unix())
+	ret := client.HSet(context.Background(), serviceNamespace, field, time.Now().Add(expire).Unix())
 	err := ret.Err()
 	if err != nil {
-		log.Error("NewRegister [%v, %v] client.HSetNX failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
+		log.Error("NewRegister [%v, %v] client.HSet failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
 		return nil, err
 	}
 
-- 
2.43.0


From 278b32b4db67029fa3f6a422388d4dede398743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:25 +0000
Subject: [PATCH 43/48] fix: registering an etcd key that exists is an error

NewRegister returned (nil, nil).
---
 extension/micro/etcd/register.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index 5f08d49..b72b7d4 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -2,6 +2,7 @@ package etcd
 
 import (
 	"context"
+	"fmt"
 	"time"
 
 	"github.com/lesismal/arpc/log"
@@ -80,7 +81,8 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 		return nil, err
 	}
 	if len(resGet.Kvs) > 0 {
-		log.Error("NewRegister [%v, %v] failed: already exists", key, value)
+		err = fmt.Errorf("key %v already exists", key)
+		log.Error("NewRegister [%v, %v] failed: %v", key, value, err)
 		return nil, err
 	}
 
-- 
2.43.0


From e0d779a4d05c05db2ce7b0945cd5de9465a5d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:25 +0000
Subject: [PATCH 44/48] fix: etcd discovery applies its first snapshot before
 the changes after it

The snapshot and the watch ran side by side, so a node whose delete was seen
first came back from the snapshot and stayed; and a failed snapshot went
unreported.
---
 extension/micro/etcd/discovery.go | 34 +++++++++++++------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/extension/micro/etcd/discovery.go b/extension/micro/etcd/discovery.go
index 12349d9..42f8e7a 100644
--- a/extension/micro/etcd/discovery.go
+++ b/extension/micro/etcd/discovery.go
@@ -17,22 +17,11 @@ type Discovery struct {
 	serviceManager micro.ServiceManager
 }
 
-func (ds *Discovery) init(done chan struct{}) {
-	doneWatch := make(chan struct{})
-	go util.Safe(func() {
-		ds.lazyInit(done, doneWatch)
-	})
-	ds.watch(doneWatch)
-}
-
-func (ds *Discovery) lazyInit(done, doneWatch chan struct{}) {
-	defer close(done)
-
-	<-doneWatch
-	time.Sleep(time.Second / 100)
+// init adds the nodes that exist and returns the revision of that snapshot.
+func (ds *Discovery) init() (int64, error) {
 	resp, err := ds.client.Get(context.Background(), ds.prefix, clientv3.WithPrefix())
 	if err != nil {
-		return
+		return 0, err
 	}
 
 	for _, ev := range resp.Kvs {
@@ -40,11 +29,12 @@ func (ds *Discovery) lazyInit(done, doneWatch chan struct{}) {
 			ds.serviceManager.AddServiceNodes(string(ev.Key), string(ev.Value))
 		}
 	}
+	return resp.Header.Revision, nil
 }
 
-func (ds *Discovery) watch(doneWatch chan struct{}) {
-	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix())
-	close(doneWatch)
+// watch follows every change after the revision.
+func (ds *Discovery) watch(revision int64) {
+	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix(), clientv3.WithRev(revision+1))
 	log.Info("Discovery watching: %s", ds.prefix)
 	for wresp := range rch {
 		for _, ev := range wresp.Events {
@@ -84,11 +74,15 @@ func NewDiscovery(endpoints []string, prefix string, serviceManager micro.Servic
 		serviceManager: serviceManager,
 	}
 
-	done := make(chan struct{})
+	revision, err := ds.init()
+	if err != nil {
+		log.Error("NewDiscovery [%v] init failed: %v", prefix, err)
+		client.Close()
+		return nil, err
+	}
 	go util.Safe(func() {
-		ds.init(done)
+		ds.watch(revision)
 	})
-	<-done
 
 	log.Info("NewDiscovery [%v] success", prefix)
 
-- 
2.43.0


From 58708159acecdb93098e0c5f31375c3e6edd2f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:23 +0000
Subject: [PATCH 45/48] fix: Restart waits its turn: the loops of the run it
 ends no longer touch the new one

Restart stopped the client and at once started new loops, while the old receive loop could still see the
client running again: it then closed or redialled the new connection, read from it next to the new loop,
read the rest of a message from the wrong connection, or stopped the restarted client. Calls, callbacks
and streams pending on the old connection could be dropped without an answer. Each run's loops now go by
the run's own channels, one receive loop reads at a time, and Restart fails what was pending.
---
 client.go  | 211 ++++++++++++++++++++++++++++++++---------------------
 handler.go |   5 +-
 2 files changed, 131 insertions(+), 85 deletions(-)

diff --git a/client.go b/client.go
index d0ba7ce..9b54667 100644
--- a/client.go
+++ b/client.go
@@ -64,6 +64,7 @@ type Client struct {
 	streamRemoteMap map[uint64]*Stream
 
 	chSend  chan *Message
+	chRecv  chan util.Empty // holds an item while a receive loop reads the conn
 	chClose chan util.Empty
 
 	onStop func(*Client)
@@ -165,7 +166,7 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 	msg := c.newRequestMessage(CmdRequest, method, req, false, false, args...)
 	seq := msg.Seq()
 	sess := newSession(seq)
-	c.addSession(seq, sess)
+	chClose := c.addSession(seq, sess)
 	defer func() {
 		timer.Stop()
 		c.deleteSession(seq)
@@ -178,7 +179,7 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 			// c.Handler.OnOverstock(c, msg)
 			c.Handler.OnMessageDone(c, msg)
 			return ErrClientTimeout
-		case <-c.chClose:
+		case <-chClose:
 			// c.Handler.OnOverstock(c, msg)
 			c.Handler.OnMessageDone(c, msg)
 			return ErrClientStopped
@@ -206,7 +207,7 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 	case msg = <-sess.done:
 	case <-timer.C:
 		return ErrClientTimeout
-	case <-c.chClose:
+	case <-chClose:
 		return ErrClientStopped
 	}
 
@@ -231,7 +232,7 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 	msg := c.newRequestMessage(CmdRequest, method, req, false, false, args...)
 	seq := msg.Seq()
 	sess := newSession(seq)
-	c.addSession(seq, sess)
+	chClose := c.addSession(seq, sess)
 	defer c.deleteSession(seq)
 
 	if c.Handler.AsyncWrite() {
@@ -241,7 +242,7 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 			// c.Handler.OnOverstock(c, msg)
 			c.Handler.OnMessageDone(c, msg)
 			return ErrClientTimeout
-		case <-c.chClose:
+		case <-chClose:
 			// c.Handler.OnOverstock(c, msg)
 			c.Handler.OnMessageDone(c, msg)
 			return ErrClientStopped
@@ -269,7 +270,7 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 	case msg = <-sess.done:
 	case <-ctx.Done():
 		return ErrClientTimeout
-	case <-c.chClose:
+	case <-chClose:
 		return ErrClientStopped
 	}
 
@@ -487,6 +488,10 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 // Restart stops and restarts a Client.
 func (c *Client) Restart() error {
 	c.Stop()
+	chClose := c.chClose
+	c.clearSession(chClose)
+	c.clearAsyncHandler(chClose)
+	c.clearStream(chClose)
 
 	c.mux.Lock()
 	defer c.mux.Unlock()
@@ -508,14 +513,9 @@ func (c *Client) Restart() error {
 		c.values = map[interface{}]interface{}{}
 
 		c.initReader()
-		if c.Handler.AsyncWrite() {
-			c.chSend = make(chan *Message, c.Handler.SendQueueSize())
-			go util.Safe(c.sendLoop)
-		}
-		go util.Safe(c.recvLoop)
-
 		c.running = true
 		c.reconnecting = false
+		c.startLoops()
 
 		log.Info("%v\t[%v] Restarted to [%v]", c.Handler.LogTag(), preConn.RemoteAddr(), conn.RemoteAddr())
 	}
@@ -528,9 +528,10 @@ func (c *Client) Stop() {
 	c.mux.Lock()
 	c.running = false
 	c.closeChClose()
+	conn := c.Conn
 	c.mux.Unlock()
 
-	c.Conn.Close()
+	conn.Close()
 }
 
 // closeChClose closes chClose once, c.mux must be held.
@@ -538,20 +539,24 @@ func (c *Client) closeChClose() {
 	if c.chClose == nil { // a client that only answers, as the HTTP adapter's
 		return
 	}
-	select {
-	case <-c.chClose:
-	default:
+	if !isClosed(c.chClose) {
 		close(c.chClose)
 	}
 }
 
-func (c *Client) closeAndClean() {
+func (c *Client) closeAndClean(chClose chan util.Empty) {
 	c.mux.Lock()
-	c.running = false
-	c.closeChClose()
+	conn := c.Conn
+	current := c.chClose == chClose
+	if current {
+		c.running = false
+		c.closeChClose()
+	}
 	c.mux.Unlock()
 
-	c.Conn.Close()
+	if current { // else restarted, which closed the conn
+		conn.Close()
+	}
 	if c.onStop != nil {
 		c.onStop(c)
 	}
@@ -680,12 +685,14 @@ func (c *Client) parseResponse(msg *Message, rsp interface{}) error {
 	return nil
 }
 
-func (c *Client) addSession(seq uint64, session *rpcSession) {
+// addSession returns the channel that is closed when the run of the Client the session belongs to ends.
+func (c *Client) addSession(seq uint64, session *rpcSession) chan util.Empty {
 	c.mux.Lock()
+	defer c.mux.Unlock()
 	if c.running {
 		c.sessionMap[seq] = session
 	}
-	c.mux.Unlock()
+	return c.chClose
 }
 
 func (c *Client) deleteSession(seq uint64) *rpcSession {
@@ -703,13 +710,16 @@ func (c *Client) getSession(seq uint64) (*rpcSession, bool) {
 	return session, ok
 }
 
-func (c *Client) clearSession() {
+func (c *Client) clearSession(chClose chan util.Empty) {
 	c.mux.Lock()
+	defer c.mux.Unlock()
+	if c.chClose != chClose {
+		return
+	}
 	for _, sess := range c.sessionMap {
 		close(sess.done)
 	}
 	c.sessionMap = make(map[uint64]*rpcSession)
-	c.mux.Unlock()
 }
 
 func (c *Client) dropMessage(msg *Message) {
@@ -772,8 +782,12 @@ func (c *Client) getAndDeleteAsyncHandler(seq uint64) (*asyncHandler, bool) {
 	return ah, ok
 }
 
-func (c *Client) clearAsyncHandler() {
+func (c *Client) clearAsyncHandler(chClose chan util.Empty) {
 	c.mux.Lock()
+	if c.chClose != chClose {
+		c.mux.Unlock()
+		return
+	}
 	handlers := c.asyncHandlerMap
 	c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 	c.mux.Unlock()
@@ -821,8 +835,12 @@ func (c *Client) getStreamAndPushMsg(id uint64, local, done bool) (stream *Strea
 	return stream, ok
 }
 
-func (c *Client) clearStream() {
+func (c *Client) clearStream(chClose chan util.Empty) {
 	c.mux.Lock()
+	if c.chClose != chClose {
+		c.mux.Unlock()
+		return
+	}
 	streamLocalMap := c.streamLocalMap
 	streamRemoteMap := c.streamRemoteMap
 	c.streamLocalMap = make(map[uint64]*Stream)
@@ -844,13 +862,20 @@ func (c *Client) run() {
 	if !c.running {
 		c.running = true
 		c.initReader()
-		if c.Handler.AsyncWrite() {
-			go util.Safe(c.sendLoop)
-		}
-		go util.Safe(c.recvLoop)
+		c.startLoops()
 	}
 }
 
+// startLoops starts the loops of a run of the Client, which ends when its chClose is closed:
+// Restart begins another one. c.mux must be held.
+func (c *Client) startLoops() {
+	chSend, chClose := c.chSend, c.chClose
+	if c.Handler.AsyncWrite() {
+		go util.Safe(func() { c.sendLoop(chSend, chClose) })
+	}
+	go util.Safe(func() { c.recvLoop(chClose) })
+}
+
 func (c *Client) initReader() {
 	if c.Handler.BatchRecv() {
 		c.Reader = c.Handler.WrapReader(c.Conn)
@@ -859,66 +884,70 @@ func (c *Client) initReader() {
 	}
 }
 
-func (c *Client) recvLoop() {
-	var (
-		err  error
-		msg  *Message
-		addr = c.Conn.RemoteAddr().String()
-	)
+// recvMessages handles messages until the conn is lost or the run ends; after a Restart
+// the loop of the new run takes over when the previous one has handled its last message.
+func (c *Client) recvMessages(chClose chan util.Empty, addr string) {
+	select {
+	case c.chRecv <- util.Empty{}:
+		defer func() { <-c.chRecv }()
+	case <-chClose:
+		return
+	}
+	for c.running && !isClosed(chClose) {
+		msg, err := c.Handler.Recv(c)
+		if err != nil {
+			log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
+			return
+		}
+		c.Handler.OnMessage(c, msg)
+	}
+}
+
+func isClosed(ch chan util.Empty) bool {
+	select {
+	case <-ch:
+		return true
+	default:
+		return false
+	}
+}
+
+func (c *Client) recvLoop(chClose chan util.Empty) {
+	addr := c.Conn.RemoteAddr().String()
 
 	log.Debug("%v\t%v\trecvLoop start", c.Handler.LogTag(), addr)
 	defer log.Debug("%v\t%v\trecvLoop stop", c.Handler.LogTag(), addr)
 
 	if c.Dialer == nil {
-		for c.running {
-			msg, err = c.Handler.Recv(c)
-			if err != nil {
-				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-				break
-			}
-			c.Handler.OnMessage(c, msg)
-		}
-		c.closeAndClean()
+		c.recvMessages(chClose, addr)
+		c.closeAndClean(chClose)
 	} else {
 		go util.Safe(func() { c.Handler.OnConnected(c) })
 
 		// also clean up if stopped before the first Recv
 		{
 		RECV:
-			for c.running {
-				msg, err = c.Handler.Recv(c)
-				if err != nil {
-					log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-					break
-				}
-				c.Handler.OnMessage(c, msg)
-			}
-
-			c.reconnecting = true
+			c.recvMessages(chClose, addr)
 
-			c.Conn.Close()
-			c.clearSession()
-			c.clearAsyncHandler()
-			c.clearStream()
+			c.setReconnecting(chClose)
+			c.clearSession(chClose)
+			c.clearAsyncHandler(chClose)
+			c.clearStream(chClose)
 
 			// if c.running {
 			// 	log.Info("%v\t%v\tReconnect Start", c.Handler.LogTag(), addr)
 			// }
 			maxReconnectTimes := c.Handler.MaxReconnectTimes()
-			for i := 0; c.running && ((maxReconnectTimes <= 0) || (i < maxReconnectTimes)); i++ {
+			for i := 0; c.running && !isClosed(chClose) && ((maxReconnectTimes <= 0) || (i < maxReconnectTimes)); i++ {
 				log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
 				conn, err := c.Dialer()
 				if err == nil {
-					if !c.replaceConn(conn) {
+					if !c.replaceConn(conn, chClose) {
 						// stopped while dialing
 						conn.Close()
 						break
 					}
 
-					c.initReader()
-
-					c.reconnecting = false
-
 					log.Info("%v\t%v\tReconnected", c.Handler.LogTag(), addr)
 
 					go util.Safe(func() { c.Handler.OnConnected(c) })
@@ -928,39 +957,53 @@ func (c *Client) recvLoop() {
 
 				time.Sleep(time.Second)
 			}
-			c.closeAndClean()
+			c.closeAndClean(chClose)
 		}
 	}
 }
 
+// setReconnecting closes the lost conn; the functions that end or renew a run do nothing
+// once the Client has been restarted, which gave it another chClose.
+func (c *Client) setReconnecting(chClose chan util.Empty) {
+	c.mux.Lock()
+	defer c.mux.Unlock()
+	if c.chClose == chClose {
+		c.reconnecting = true
+		c.Conn.Close()
+	}
+}
+
 // replaceConn sets the redialed conn unless the Client has been stopped.
-func (c *Client) replaceConn(conn net.Conn) bool {
+func (c *Client) replaceConn(conn net.Conn, chClose chan util.Empty) bool {
 	c.mux.Lock()
 	defer c.mux.Unlock()
-	if c.running {
-		c.Conn = conn
+	if !c.running || c.chClose != chClose {
+		return false
 	}
-	return c.running
+	c.Conn = conn
+	c.initReader()
+	c.reconnecting = false
+	return true
 }
 
-func (c *Client) sendLoop() {
+func (c *Client) sendLoop(chSend chan *Message, chClose chan util.Empty) {
 	addr := c.Conn.RemoteAddr().String()
 	log.Debug("%v\t%v\tsendLoop start", c.Handler.LogTag(), addr)
 	defer log.Debug("%v\t%v\tsendLoop stop", c.Handler.LogTag(), addr)
 
 	if c.Handler.BatchSend() {
-		c.batchSendLoop()
+		c.batchSendLoop(chSend, chClose)
 	} else {
-		c.normalSendLoop()
+		c.normalSendLoop(chSend, chClose)
 	}
 }
 
-func (c *Client) normalSendLoop() {
+func (c *Client) normalSendLoop(chSend chan *Message, chClose chan util.Empty) {
 	var msg *Message
 	var coders []MessageCoder
 	for {
 		select {
-		case msg = <-c.chSend:
+		case msg = <-chSend:
 			if !c.reconnecting {
 				coders = c.Handler.Coders()
 				for j := 0; j < len(coders); j++ {
@@ -974,11 +1017,11 @@ func (c *Client) normalSendLoop() {
 			} else {
 				c.dropMessage(msg)
 			}
-		case <-c.chClose:
+		case <-chClose:
 			// clear msg in send queue
 			for {
 				select {
-				case msg := <-c.chSend:
+				case msg := <-chSend:
 					c.Handler.OnMessageDone(c, msg)
 				default:
 					return
@@ -988,7 +1031,7 @@ func (c *Client) normalSendLoop() {
 	}
 }
 
-func (c *Client) batchSendLoop() {
+func (c *Client) batchSendLoop(chSend chan *Message, chClose chan util.Empty) {
 	var msg *Message
 	var chLen int
 	var coders []MessageCoder
@@ -999,12 +1042,12 @@ func (c *Client) batchSendLoop() {
 
 	for {
 		select {
-		case msg = <-c.chSend:
-		case <-c.chClose:
+		case msg = <-chSend:
+		case <-chClose:
 			// clear msg in send queue
 			for {
 				select {
-				case msg := <-c.chSend:
+				case msg := <-chSend:
 					c.Handler.OnMessageDone(c, msg)
 				default:
 					return
@@ -1012,7 +1055,7 @@ func (c *Client) batchSendLoop() {
 			}
 		}
 		if !c.reconnecting {
-			chLen = len(c.chSend)
+			chLen = len(chSend)
 			coders = c.Handler.Coders()
 			for i := 0; i < chLen && len(buffer) < sendBufferSize; i++ {
 				if len(buffer) == 0 {
@@ -1022,7 +1065,7 @@ func (c *Client) batchSendLoop() {
 					buffer = c.Handler.Append(buffer, msg.Buffer...)
 					c.Handler.OnMessageDone(c, msg)
 				}
-				msg = <-c.chSend
+				msg = <-chSend
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
@@ -1062,6 +1105,7 @@ func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop
 		Handler:         handler,
 		Head:            make([]byte, 4),
 		chClose:         make(chan util.Empty),
+		chRecv:          make(chan util.Empty, 1),
 		sessionMap:      make(map[uint64]*rpcSession),
 		asyncHandlerMap: make(map[uint64]*asyncHandler),
 		streamLocalMap:  make(map[uint64]*Stream),
@@ -1102,6 +1146,7 @@ func NewClient(dialer DialerFunc, args ...interface{}) (*Client, error) {
 		Dialer:          dialer,
 		Head:            make([]byte, 4),
 		chClose:         make(chan util.Empty),
+		chRecv:          make(chan util.Empty, 1),
 		sessionMap:      make(map[uint64]*rpcSession),
 		asyncHandlerMap: make(map[uint64]*asyncHandler),
 		streamLocalMap:  make(map[uint64]*Stream),
diff --git a/handler.go b/handler.go
index e13cbe6..a1f0d17 100644
--- a/handler.go
+++ b/handler.go
@@ -654,6 +654,7 @@ func (h *handler) Recv(c *Client) (*Message, error) {
 	var (
 		err     error
 		message *Message
+		reader  = c.Reader // the whole message, also if the Client is restarted
 	)
 
 	if h.beforeRecv != nil {
@@ -665,7 +666,7 @@ func (h *handler) Recv(c *Client) (*Message, error) {
 		c.Conn.SetReadDeadline(time.Now().Add(h.readTimeout))
 	}
 
-	_, err = io.ReadFull(c.Reader, c.Head[:])
+	_, err = io.ReadFull(reader, c.Head[:])
 	if err != nil {
 		return nil, err
 	}
@@ -676,7 +677,7 @@ func (h *handler) Recv(c *Client) (*Message, error) {
 	}
 
 	if message.Len() >= HeadLen {
-		_, err = io.ReadFull(c.Reader, message.Buffer[HeaderIndexBodyLenEnd:])
+		_, err = io.ReadFull(reader, message.Buffer[HeaderIndexBodyLenEnd:])
 	}
 
 	return message, err
-- 
2.43.0


From 2f63b9efafa1c2272aae43e88b702e59d25e9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:28 +0000
Subject: [PATCH 46/48] fix: a quic connection that opens no stream keeps no
 other from being accepted

---
 extension/protocol/quic/quic.go | 47 ++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index ceb19e1..dda58b1 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -16,21 +16,48 @@ import (
 // Listener wraps quick.Listener to net.Listener
 type Listener struct {
 	*quic.Listener
+	chAccept chan net.Conn
+	chClose  chan struct{}
+	err      error
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (ln *Listener) Accept() (net.Conn, error) {
-	conn, err := ln.Listener.Accept(context.Background())
-	if err != nil {
-		return nil, err
+	select {
+	case conn := <-ln.chAccept:
+		return conn, nil
+	case <-ln.chClose:
+		return nil, ln.err
 	}
+}
 
-	stream, err := conn.AcceptStream(context.Background())
+func (ln *Listener) run() {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+	for {
+		conn, err := ln.Listener.Accept(ctx)
+		if err != nil {
+			ln.err = err
+			close(ln.chClose)
+			return
+		}
+		// the stream is there when the peer first writes, others do not wait for it
+		go ln.acceptStream(ctx, conn)
+	}
+}
+
+func (ln *Listener) acceptStream(ctx context.Context, conn quic.Connection) {
+	stream, err := conn.AcceptStream(ctx)
 	if err != nil {
-		return nil, err
+		conn.CloseWithError(0, "")
+		return
 	}
 
-	return &Conn{conn, stream}, err
+	select {
+	case ln.chAccept <- &Conn{conn, stream}:
+	case <-ln.chClose:
+		conn.CloseWithError(0, "")
+	}
 }
 
 // Conn wraps quick.Session to net.Conn
@@ -45,7 +72,13 @@ func Listen(addr string, config *tls.Config) (net.Listener, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Listener{ln}, err
+	l := &Listener{
+		Listener: ln,
+		chAccept: make(chan net.Conn),
+		chClose:  make(chan struct{}),
+	}
+	go l.run()
+	return l, err
 }
 
 // Dial wraps quic dial
-- 
2.43.0


From caa0c64730cb77e4038a639103dbfcb5fad0bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:28 +0000
Subject: [PATCH 47/48] fix: closing a quic connection ends its blocked reads
 and writes

---
 extension/protocol/quic/quic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index dda58b1..ee05393 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -66,6 +66,13 @@ type Conn struct {
 	quic.Stream
 }
 
+// Close closes the connection: what was written is still delivered, blocked reads and writes end.
+func (c *Conn) Close() error {
+	c.Stream.CancelRead(0)
+	c.Stream.SetWriteDeadline(time.Now())
+	return c.Stream.Close()
+}
+
 // Listen wraps quic listen
 func Listen(addr string, config *tls.Config) (net.Listener, error) {
 	ln, err := quic.ListenAddr(addr, config, nil)
-- 
2.43.0


From 00eb57e73d655cb7d4b557ac2e735f7f0b30f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:28 +0000
Subject: [PATCH 48/48] fix: a quic dial that opens no stream closes its
 connection

---
 extension/protocol/quic/quic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index ee05393..1be7081 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -106,6 +106,7 @@ func Dial(addr string, tlsConf *tls.Config, quicConf *quic.Config, timeout time.
 
 	stream, err := session.OpenStreamSync(ctx)
 	if err != nil {
+		session.CloseWithError(0, "")
 		return nil, err
 	}
 
-- 
2.43.0

