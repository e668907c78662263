From bd17c8c8bbd0bd2d292b1e7344bc2c154eb1d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 01/28] fix: readUntil counts the bytes a reader returns
 together with an error

io.Reader may return n>0 along with io.EOF. The bytes of such a read were
dropped, so the last message of a stream was lost.
---
 packx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index a94f46c..4535eb9 100644
--- a/packx.go
+++ b/packx.go
@@ -495,16 +495,16 @@ func readUntil(reader io.Reader, buf []byte) error {
 	var offset int
 	for {
 		n, e := reader.Read(buf[offset:])
+		offset += n
+		if offset >= len(buf) {
+			break
+		}
 		if e != nil {
 			if e == io.EOF {
 				return e
 			}
 			return errorx.Wrap(e)
 		}
-		offset += n
-		if offset >= len(buf) {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 6003cb8adb18fe0d6f89cb65217be4d636fe2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 02/28] fix: a length field with its top bit set is an error,
 not a panic

UnpackToBlockFromReader and its limited variant passed the negative length on
to make().
---
 packx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packx.go b/packx.go
index 4535eb9..4103924 100644
--- a/packx.go
+++ b/packx.go
@@ -445,6 +445,9 @@ func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("bad message length %d", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
@@ -477,6 +480,9 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
 	}
 
+	if length < 0 {
+		return nil, errorx.NewFromStringf("bad message length %d", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
-- 
2.43.0


From c3e0969dd84b1cfb0b8d19e85a3a978bd826374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 03/28] fix: HeaderBytesOf and BodyBytesOf reject negative
 section lengths

They sliced out of range (panic) on a block whose header or body length field
has its top bit set.
---
 packx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packx.go b/packx.go
index 4103924..8ff0252 100644
--- a/packx.go
+++ b/packx.go
@@ -219,6 +219,9 @@ func HeaderBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 {
+		return nil, errors.New(fmt.Sprintf("bad header length %d", headerLen))
+	}
 	if len(stream) < 16+int(headerLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)))
 	}
@@ -260,6 +263,9 @@ func BodyBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 || bodyLen < 0 {
+		return nil, errors.New(fmt.Sprintf("bad header length %d or body length %d", headerLen, bodyLen))
+	}
 	if len(stream) < 16+int(headerLen)+int(bodyLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
 	}
-- 
2.43.0


From 22d8bd821dc6e85703649032bdfe609a62d73b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 04/28] fix: UnpackWithMarshaller returns an error for
 inconsistent length fields

It sliced out of range (panic) on short streams and on length fields that do
not fit the stream.
---
 packx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packx.go b/packx.go
index 8ff0252..f0965a0 100644
--- a/packx.go
+++ b/packx.go
@@ -367,7 +367,13 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 	}
 	var e error
 	// 包长
+	if len(stream) < 16 {
+		return Message{}, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16))
+	}
 	length := binary.BigEndian.Uint32(stream[0:4])
+	if length < 12 || uint64(len(stream)) < uint64(length)+4 {
+		return Message{}, errors.New(fmt.Sprintf("bad message length %d in a stream of %d bytes", length, len(stream)))
+	}
 	stream = stream[0 : length+4]
 	// messageID
 	messageID := binary.BigEndian.Uint32(stream[4:8])
@@ -375,6 +381,9 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 	headerLength := binary.BigEndian.Uint32(stream[8:12])
 	// body长度
 	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	if uint64(length) < 12+uint64(headerLength)+uint64(bodyLength) {
+		return Message{}, errors.New(fmt.Sprintf("header length %d and body length %d exceed message length %d", headerLength, bodyLength, length))
+	}
 	// header
 	var header map[string]interface{}
 	if headerLength != 0 {
-- 
2.43.0


From b872aa65940055ae01e2e6ddb8c8ef4ebc427135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:40 +0000
Subject: [PATCH 05/28] fix: a broken pipe batch must not crash the server

A batch cut short (connection closed, or a message over the byte limit) left nil
contexts behind on which handlePipe panicked in a goroutine without recover; a
count <= 0 panicked, and a huge count allocated up front. After a read error
inside a batch the loop also went on reading in the middle of a message.
---
 tcpx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index aa3e907..8a1fa43 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -582,8 +582,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 				if isPipe {
 					// fmt.Println("recv pipe", isPipe, restN)
-					ctxs := make([]*Context, restN+1)
-					ctxs[0] = tmpContext
+					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
 						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
@@ -594,10 +593,13 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 							break
 						}
 						tmpContext := copyContext(*ctx)
-						ctxs[i] = tmpContext
+						ctxs = append(ctxs, tmpContext)
 					}
 
 					go handlePipe(ctxs, tcpx)
+					if e != nil {
+						break
+					}
 				} else {
 					go handleMiddleware(tmpContext, tcpx)
 				}
-- 
2.43.0


From 7a377643af0b9dc205f3ecfedb94db96e9da9165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:41 +0000
Subject: [PATCH 06/28] fix: each request gets its own PerRequestContext

copyContext handed out the connection's map as the request's, so request keys
(and the cached router type) leaked into every other request of the connection.
---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 3c656df..d5e045e 100644
--- a/context.go
+++ b/context.go
@@ -89,7 +89,7 @@ func copyContext(ctx Context) *Context {
 		Addr:       ctx.Addr,
 		//UDPSession:           ctx.UDPSession,
 		PerConnectionContext: ctx.PerConnectionContext,
-		PerRequestContext:    ctx.PerConnectionContext,
+		PerRequestContext:    &sync.Map{},
 		Packx:                ctx.Packx,
 		Stream:               ctx.Stream,
 		offset:               ctx.offset,
-- 
2.43.0


From 5554224ad5285bc0f9223764a7687944d5c4c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:41 +0000
Subject: [PATCH 07/28] fix: Use() of an unused middleware key takes effect
 again

Only the anchor map was updated, routing reads the anchor slice.
---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 8a1fa43..86630ed 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -281,7 +281,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
-			tcpx.Mux.MiddlewareAnchorMap[middlewareKey] = middlewareAnchor
+			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
 			var middlewareAnchor MiddlewareAnchor
 			middlewareAnchor.Middleware = middleware
-- 
2.43.0


From b977a6635b569715fec922a6702044621e0fe61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:41 +0000
Subject: [PATCH 08/28] fix: Any() with several handlers registered each of
 them twice

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 86630ed..893ac03 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -347,9 +347,6 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.urlMux.AddURLPatternHandler(urlPattern, handlers...)
-	}
 
 	//f := handlers[len(handlers)-1]
 	//if tcpx.Mux == nil {
-- 
2.43.0


From bf36756e97c5105ad035979565c831bbea779bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:42 +0000
Subject: [PATCH 09/28] fix: a closing connection only removes its own pool
 entry

When a user reconnected, the old connection's close removed the new
connection's entry. A handler going online while its connection is being closed
left a dead entry behind for ever.
---
 client-pool.go |  9 +++++++++
 context.go     | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index 9fd3efd..eab674b 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -48,6 +48,15 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// Remove username from pool only if it still refers to the connection of ctx.
+func (cp *ClientPool) offlineContext(username string, ctx *Context) {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if c := cp.Clients[username]; c != nil && c.userState == ctx.userState {
+		delete(cp.Clients, username)
+	}
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/context.go b/context.go
index d5e045e..4029eb9 100644
--- a/context.go
+++ b/context.go
@@ -137,6 +137,11 @@ func (ctx *Context) Online(username string) error {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
 	ctx.poolRef.Online(username, ctx)
+	// the connection may have been closed meanwhile, don't leave it in the pool
+	if ctx.IsOffline() {
+		ctx.poolRef.offlineContext(username, ctx)
+		return errors.New("connection is closed")
+	}
 	return nil
 }
 
@@ -168,7 +173,7 @@ func (ctx *Context) Offline() error {
 	if !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	ctx.poolRef.Offline(username)
+	ctx.poolRef.offlineContext(username, ctx)
 	return nil
 }
 
@@ -281,13 +286,13 @@ func (ctx *Context) CloseConn() error {
 				close(ctx.recvEnd)
 			})
 		}
+		ctx.L.Lock()
+		*(ctx.userState) = CONTEXT_OFFLINE
+		ctx.L.Unlock()
+
 		if ctx.poolRef != nil {
 			ctx.Offline()
 		}
-
-		ctx.L.Lock()
-		defer ctx.L.Unlock()
-		*(ctx.userState) = CONTEXT_OFFLINE
 	}()
 
 	switch ctx.ConnectionProtocolType() {
-- 
2.43.0


From 6bc7fee722aef962397de135bdf06287cbe1ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:30 +0000
Subject: [PATCH 10/28] fix: Stop(true) closes every connection and survives a
 restart

Without broadcast signals only pooled connections were closed, by a goroutine
that deadlocked on the pool's lock at the first one. With them, the closed
channel was used again after Start(): new connections were closed at once and
the next Stop(true) panicked.
---
 tcpx.go | 75 ++++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 893ac03..87dd523 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -86,6 +86,10 @@ type TcpX struct {
 	withSignals    bool
 	closeAllSignal chan int // used to close all connection's spying goroutines, srv instance controls it
 
+	// living connections, used to close them all. Guarded by pLock
+	conns     map[*Context]struct{}
+	connEpoch int // grows each time all connections are closed
+
 	// external for handle any stream
 	// only support tcp/kcp
 	HandleRaw func(c *Context)
@@ -430,7 +434,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	tcpx.fillProperty(network, addr, listener)
 
 	defer listener.Close()
-	tcpx.openState()
+	epoch := tcpx.openState()
 	for {
 
 		if tcpx.State() == STATE_STOP {
@@ -453,6 +457,11 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			ctx.poolRef = tcpx.pool
 		}
 
+		if !tcpx.addConn(ctx, epoch) {
+			conn.Close()
+			continue
+		}
+
 		if tcpx.OnConnect != nil {
 			tcpx.OnConnect(ctx)
 		}
@@ -468,6 +477,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 				}
 			}()
 			//defer ctx.Conn.Close()
+			defer tcpx.removeConn(ctx)
 			defer ctx.CloseConn()
 			if tcpx.OnClose != nil {
 				defer tcpx.OnClose(ctx)
@@ -508,7 +518,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	tcpx.fillProperty(network, addr, listener)
 
 	defer listener.Close()
-	tcpx.openState()
+	epoch := tcpx.openState()
 	for {
 
 		if tcpx.State() == STATE_STOP {
@@ -531,6 +541,11 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			ctx.poolRef = tcpx.pool
 		}
 
+		if !tcpx.addConn(ctx, epoch) {
+			conn.Close()
+			continue
+		}
+
 		if tcpx.OnConnect != nil {
 			tcpx.OnConnect(ctx)
 		}
@@ -554,6 +569,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 				}
 			}()
 			//defer ctx.Conn.Close()
+			defer tcpx.removeConn(ctx)
 			defer ctx.CloseConn()
 			if tcpx.OnClose != nil {
 				defer tcpx.OnClose(ctx)
@@ -607,11 +623,32 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	return nil
 }
 
-// set srv state running
-func (tcpx *TcpX) openState() {
+// set srv state running, returns the epoch its connections belong to
+func (tcpx *TcpX) openState() int {
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
 	tcpx.state = 1
+	return tcpx.connEpoch
+}
+
+// remember a living connection, returns false if all connections of its epoch have been closed by srv.Stop(true)
+func (tcpx *TcpX) addConn(ctx *Context, epoch int) bool {
+	tcpx.pLock.Lock()
+	defer tcpx.pLock.Unlock()
+	if epoch != tcpx.connEpoch {
+		return false
+	}
+	if tcpx.conns == nil {
+		tcpx.conns = make(map[*Context]struct{})
+	}
+	tcpx.conns[ctx] = struct{}{}
+	return true
+}
+
+func (tcpx *TcpX) removeConn(ctx *Context) {
+	tcpx.pLock.Lock()
+	defer tcpx.pLock.Unlock()
+	delete(tcpx.conns, ctx)
 }
 
 // set srv state stopped
@@ -1166,22 +1203,22 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 }
 
 func (tcpx *TcpX) closeAllConnection() {
-	if tcpx.withSignals == true {
-		close(tcpx.closeAllSignal)
-	} else {
-		if tcpx.pool != nil {
-			oldPool := tcpx.pool
-			go func() {
-				oldPool.m.Lock()
-				defer oldPool.m.Unlock()
-
-				for k, _ := range oldPool.Clients {
-					oldPool.Clients[k].CloseConn()
-					delete(oldPool.Clients, k)
-				}
-			}()
+	tcpx.pLock.Lock()
+	conns := tcpx.conns
+	tcpx.conns = nil
+	tcpx.connEpoch++
+	tcpx.pLock.Unlock()
+
+	// closing a connection ends its spying goroutines too
+	for ctx := range conns {
+		ctx.CloseConn()
+	}
 
-			tcpx.pool = NewClientPool()
+	if tcpx.pool != nil {
+		tcpx.pool.m.Lock()
+		defer tcpx.pool.m.Unlock()
+		for k, _ := range tcpx.pool.Clients {
+			delete(tcpx.pool.Clients, k)
 		}
 	}
 }
-- 
2.43.0


From 62fa23ef21db98f02a5d91db692e9d69c5e174ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 11/28] fix: Stop(false) keeps connections alive when heartbeat
 is on

The heartbeat watcher closed its connection as soon as the server was stopped,
though older connections are to remain.
---
 tcpx.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 87dd523..8e9b631 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1073,10 +1073,6 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 			var times int
 		L:
 			for {
-				if tcpx.State() == STATE_STOP {
-					ctx.CloseConn()
-					break L
-				}
 				select {
 				case <-ctx.HeartBeatChan():
 					times = 0
-- 
2.43.0


From ba63c20018687febc080290b09dad7274ce19569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 12/28] fix: Start() serves every endpoint again, the way it
 was served before

All goroutines shared the loop variable, so with several endpoints only the last
one came back, and raw endpoints and udp buffer sizes were forgotten. The
endpoint list was read without its lock.
---
 tcpx.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 8e9b631..24630dc 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -106,6 +106,9 @@ type PropertyCache struct {
 	// only when network is 'tcp','kcp', Listener can assert to net.Listener.
 	// when network is 'udp', it can assert to net.PackConn
 	Listener interface{}
+
+	// serves again the way this endpoint was served first, used by srv.Start()
+	serve func() error
 }
 
 // new an tcpx srv instance
@@ -394,7 +397,7 @@ func (tcpx *TcpX) checkPrepare() {
 	}
 }
 
-func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
+func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}, serve func() error) {
 
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
@@ -407,6 +410,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 	for i, v := range tcpx.properties {
 		if v.Network == network && v.Port == addr {
 			tcpx.properties[i].Listener = listener
+			tcpx.properties[i].serve = serve
 			return
 		}
 	}
@@ -414,6 +418,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 		Network:  network,
 		Port:     addr,
 		Listener: listener,
+		serve:    serve,
 	}
 	tcpx.properties = append(tcpx.properties, prop)
 }
@@ -431,7 +436,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeRaw(network, addr) })
 
 	defer listener.Close()
 	epoch := tcpx.openState()
@@ -515,7 +520,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServe(network, addr) })
 
 	defer listener.Close()
 	epoch := tcpx.openState()
@@ -677,7 +682,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
-	tcpx.fillProperty(network, addr, conn)
+	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
 	tcpx.openState()
 
@@ -1225,19 +1230,23 @@ func (tcpx *TcpX) Start() error {
 		return errors.New("already running")
 	}
 
-	for _, v := range tcpx.properties {
-		go func() {
+	tcpx.pLock.RLock()
+	properties := append([]*PropertyCache{}, tcpx.properties...)
+	tcpx.pLock.RUnlock()
+
+	for _, v := range properties {
+		go func(network, port string, serve func() error) {
 			defer func() {
 				if e := recover(); e != nil {
 					Logger.Println(fmt.Sprintf("panic from '%v' \n %s", e, debug.Stack()))
 				}
 			}()
-			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
-			e := tcpx.ListenAndServe(v.Network, v.Port)
+			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", network, port))
+			e := serve()
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-		}()
+		}(v.Network, v.Port, v.serve)
 	}
 	return nil
 }
-- 
2.43.0


From 5415ae5c76cfe60c02d21ac88be1e229c453aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 13/28] fix: Stop() closes tcp4/tcp6/unix/udp4/udp6/unixgram
 listeners too

Only networks named exactly tcp, kcp or udp were closed.
---
 tcpx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 24630dc..26d859d 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1186,12 +1186,12 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	func() {
 		tcpx.pLock.Lock()
 		defer tcpx.pLock.Unlock()
-		for i, v := range tcpx.properties {
-			switch v.Network {
-			case "kcp", "tcp":
-				tcpx.properties[i].Listener.(net.Listener).Close()
-			case "udp":
-				tcpx.properties[i].Listener.(net.PacketConn).Close()
+		for _, v := range tcpx.properties {
+			switch listener := v.Listener.(type) {
+			case net.Listener:
+				listener.Close()
+			case net.PacketConn:
+				listener.Close()
 			}
 		}
 	}()
-- 
2.43.0


From 41acaf9eb26524bf4aebf01d83c20dff35af4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 14/28] fix: RecvHeartBeat, RecvAuthPass and RecvAuthDeny never
 block their handler

Once nobody receives from the channel (watcher gone, or never started), the
second call blocked its goroutine for ever.
---
 context.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 4029eb9..f477123 100644
--- a/context.go
+++ b/context.go
@@ -642,7 +642,11 @@ func (ctx *Context) HeartBeatChan() chan int {
 
 // RecvHeartBeat
 func (ctx *Context) RecvHeartBeat() {
-	ctx.HeartBeatChan() <- 1
+	select {
+	case ctx.HeartBeatChan() <- 1:
+	default:
+		// a former heartbeat has not been consumed yet
+	}
 }
 
 // Send to another conn index via username.
@@ -676,11 +680,19 @@ func (ctx *Context) AuthChan() <-chan int {
 
 func (ctx *Context) RecvAuthPass() {
 	const PASS = 1
-	ctx.recvAuth <- PASS
+	ctx.sendAuth(PASS)
 }
 func (ctx *Context) RecvAuthDeny() {
 	const DENY = -1
-	ctx.recvAuth <- DENY
+	ctx.sendAuth(DENY)
+}
+
+// only the first result counts, later ones must not block its handler
+func (ctx *Context) sendAuth(result int) {
+	select {
+	case ctx.recvAuth <- result:
+	default:
+	}
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-- 
2.43.0


From 439243cad3001dc32ab62890b92c8b21160c49cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 15/28] fix: the heartbeat channel is created once per
 connection

The watcher and a handler could each create one, and the heartbeat was lost.
---
 context.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index f477123..e763294 100644
--- a/context.go
+++ b/context.go
@@ -626,8 +626,12 @@ func (ctx *Context) RawStream() ([]byte, error) {
 func (ctx *Context) HeartBeatChan() chan int {
 	channel, ok := ctx.GetCtxPerConn("tcpx-heart-beat-channel")
 	if !ok {
-		channel = make(chan int, 1)
-		ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
+		kv := ctx.PerConnectionContext
+		if ctx.ConnectionProtocolType() == "udp" {
+			kv = ctx.PerRequestContext
+		}
+		// watcher and handler may both get here first, they must share one channel
+		channel, _ = kv.LoadOrStore("tcpx-heart-beat-channel", make(chan int, 1))
 		return channel.(chan int)
 	} else {
 		tmp, ok := channel.(chan int)
-- 
2.43.0


From 72120d359024590f7934f9b48cf41858fda073e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:19 +0000
Subject: [PATCH 16/28] fix: SetDeadline takes effect without read and write
 deadlines

The unset (zero) read and write deadlines were applied after it and cleared it.
---
 tcpx.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 26d859d..37b9bd6 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -174,6 +174,21 @@ func (tcpx *TcpX) SetWriteDeadline(t time.Time) {
 	tcpx.writeDeadLine = t
 }
 
+// Apply well-set deadlines to a connection. A zero read/write deadline must not clear the common one.
+func (tcpx *TcpX) initDeadline(conn interface {
+	SetDeadline(t time.Time) error
+	SetReadDeadline(t time.Time) error
+	SetWriteDeadline(t time.Time) error
+}) {
+	conn.SetDeadline(tcpx.deadLine)
+	if !tcpx.readDeadLine.IsZero() {
+		conn.SetReadDeadline(tcpx.readDeadLine)
+	}
+	if !tcpx.writeDeadLine.IsZero() {
+		conn.SetWriteDeadline(tcpx.writeDeadLine)
+	}
+}
+
 // Whether using signal-broadcast.
 // Used for these situations:
 // closeAllSignal - close all connection and remove them from the built-in pool
@@ -452,9 +467,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.initDeadline(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -536,9 +549,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.initDeadline(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -686,9 +697,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	tcpx.openState()
 
-	conn.SetDeadline(tcpx.deadLine)
-	conn.SetReadDeadline(tcpx.readDeadLine)
-	conn.SetWriteDeadline(tcpx.writeDeadLine)
+	tcpx.initDeadline(conn)
 
 	// listen to incoming udp packets
 	go func(conn net.PacketConn, tcpx *TcpX) {
-- 
2.43.0


From ea28d863a1c76d8301f226ceac8727544cbb6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:19 +0000
Subject: [PATCH 17/28] fix: udp datagrams don't start connection watchers

Each datagram's heartbeat watcher closed the shared server socket after three
intervals, and its signal watcher never ended.
---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 37b9bd6..61ddc2f 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -731,9 +731,6 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 			}
 			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
 
-			go broadcastSignalWatch(ctx, tcpx)
-
-			go heartBeatWatch(ctx, tcpx)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
-- 
2.43.0


From 71f394016353983a678f27f7c4ac8565e4ca7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:20 +0000
Subject: [PATCH 18/28] fix: ListenAndServeUDP ends when the server is stopped

It never returned, and after a restart the old read loop went on spinning on
the closed socket.
---
 tcpx.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 61ddc2f..38a6e66 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -700,7 +700,9 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	tcpx.initDeadline(conn)
 
 	// listen to incoming udp packets
+	done := make(chan struct{})
 	go func(conn net.PacketConn, tcpx *TcpX) {
+		defer close(done)
 		defer func() {
 			if e := recover(); e != nil {
 				Logger.Println(fmt.Sprintf("recover from panic %v", e))
@@ -722,6 +724,10 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 					break
 				}
 				Logger.Println(e.Error())
+				// closed by srv.Stop()
+				if strings.Contains(e.Error(), "use of closed network connection") {
+					break
+				}
 				continue
 				//conn.Close()
 				//conn, err = net.ListenPacket(network, addr)
@@ -753,9 +759,8 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 		}
 	}(conn, tcpx)
 
-	select {}
-
-	//return nil
+	<-done
+	return nil
 }
 
 func ReadAllUDP(conn net.PacketConn, maxBufferSize ...int) ([]byte, net.Addr, error) {
-- 
2.43.0


From 7a1a6e19a101e4b1ef0b7e92a270e688609c0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:20 +0000
Subject: [PATCH 19/28] fix: data race between the heartbeat watcher and the
 read loop

The watcher copied the connection's context, including Stream, while the read
loop was writing it.
---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 38a6e66..9640fa9 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -485,7 +485,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		}
 
 		go broadcastSignalWatch(ctx, tcpx)
-		go heartBeatWatch(ctx, tcpx)
+		go heartBeatWatch(copyContext(*ctx), tcpx)
 
 		go func(ctx *Context, tcpx *TcpX) {
 			defer func() {
@@ -571,7 +571,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		}
 
 		if tcpx.HeartBeatOn {
-			go heartBeatWatch(ctx, tcpx)
+			go heartBeatWatch(copyContext(*ctx), tcpx)
 		}
 		if tcpx.auth {
 			go authWatch(ctx, tcpx)
-- 
2.43.0


From 74cf005a8dd403e0c8091b63b35f81f2a7773e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:20 +0000
Subject: [PATCH 20/28] fix: WriteConn resumes after a partial write

It sent the whole buffer again.
---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a44053..0d52080 100644
--- a/utils.go
+++ b/utils.go
@@ -99,7 +99,7 @@ func MD5(rawMsg string) string {
 func WriteConn(buf []byte, conn net.Conn) error {
 	var sum = 0
 	for {
-		n, e := conn.Write(buf)
+		n, e := conn.Write(buf[sum:])
 
 		if e != nil {
 			if e == io.EOF {
-- 
2.43.0


From 3bb78ad174c92e209af1d819760d212141651a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:21 +0000
Subject: [PATCH 21/28] fix: messageID 0 goes through middlewares

With heartbeat or auth off their messageID is 0, and the handler of messageID 0
was called directly, skipping every middleware.
---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 9640fa9..735c57b 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -951,12 +951,12 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 		Logger.Println(fmt.Sprintf("messageID %d handler not found", messageID))
 		return
 	}
-	if messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
+	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
 		handler(ctx)
 		return
 	}
 
-	if messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
+	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
 		handler(ctx)
 		return
 	}
-- 
2.43.0


From 3591846a69f6e939cc4e4b781e74ab40a8eeb63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:21 +0000
Subject: [PATCH 22/28] fix: BeforeExit doesn't miss a signal

The handler was registered some time after BeforeExit returned, with an
unbuffered channel.
---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 735c57b..fae1a0d 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1165,14 +1165,14 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 
 // Before exist do ending jobs
 func (tcpx *TcpX) BeforeExit(f ...func()) {
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 	go func() {
 		defer func() {
 			if e := recover(); e != nil {
 				fmt.Println(fmt.Sprintf("panic from %v", e))
 			}
 		}()
-		ch := make(chan os.Signal)
-		signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 		fmt.Println("receive signal:", <-ch)
 		fmt.Println("prepare to stop server")
 		for _, handler := range f {
-- 
2.43.0


From 3574cc2b775c5fee489b3901f401eca74376e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 23/28] fix: python client unpacks a message without body

---
 all-language-clients/python/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/all-language-clients/python/protocol.py b/all-language-clients/python/protocol.py
index 16143b2..23bbc11 100644
--- a/all-language-clients/python/protocol.py
+++ b/all-language-clients/python/protocol.py
@@ -47,7 +47,7 @@ class TCPXProtocol(object):
 
         _body = data[16+_header_length:16+_header_length+_body_length]
         if self.serializer == 'json':
-            response = json.loads(_body.decode('utf-8'))
+            response = json.loads(_body.decode('utf-8')) if _body else None
             message.body = response
         elif self.serializer == "protobuf":
             response.ParseFromString(_body)
-- 
2.43.0


From a10a114d6b61b394008c513fa45e8f389994a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:56 +0000
Subject: [PATCH 24/28] fix: long middleware chains run to their end

---
 context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index e763294..ff1e6ad 100644
--- a/context.go
+++ b/context.go
@@ -14,7 +14,8 @@ import (
 
 const CONTEXT_ONLINE = 1
 const CONTEXT_OFFLINE = 2
-const ABORT = 2019
+// must exceed the length of any middleware chain
+const ABORT = 1 << 30
 
 // Context has two concurrently safe context:
 // PerConnectionContext is used for connection, once the connection is built ,this is connection scope.
-- 
2.43.0


From 110d722bd5de2c47503c96e7aa3d5560e240cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:57 +0000
Subject: [PATCH 25/28] fix: ClientIP of an ipv6 client is its own address

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index ff1e6ad..a02c5e3 100644
--- a/context.go
+++ b/context.go
@@ -547,11 +547,11 @@ func (ctx Context) ClientIP() string {
 		return arr[0]
 	}
 	// [::1] localhost
-	if strings.Contains(clientAddr, "[") && strings.Contains(clientAddr, "]") {
+	if strings.HasPrefix(clientAddr, "[::1]") {
 		return "127.0.0.1"
 	}
 	// ivp6
-	return strings.Join(arr[:len(arr)-1], ":")
+	return strings.Trim(strings.Join(arr[:len(arr)-1], ":"), "[]")
 }
 
 // stop middleware chain
-- 
2.43.0


From feff5f43d96f4548978f964009de25a30fe601f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:57 +0000
Subject: [PATCH 26/28] fix: PipeJSON reports a nil messageID as an error

---
 utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 0d52080..9acd976 100644
--- a/utils.go
+++ b/utils.go
@@ -8,7 +8,6 @@ import (
 	"github.com/BurntSushi/toml"
 	"io"
 	"net"
-	"reflect"
 	"strings"
 
 	"github.com/fwhezfwhez/errorx"
@@ -160,7 +159,7 @@ func PipeJSON(conn net.Conn, args ...interface{}) error {
 	for i := 0; i < len(args)-1; i += 2 {
 		messageID, ok := args[i].(int)
 		if !ok {
-			return errorx.NewFromStringf("wrong type, args[%d] should be a int type messageID but got %s", i, reflect.TypeOf(args[i]).Name())
+			return errorx.NewFromStringf("wrong type, args[%d] should be a int type messageID but got %T", i, args[i])
 		}
 		message := args[i+1]
 
-- 
2.43.0


From 139168baa0eabd81b4b46f220f780a827df59081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:55 +0000
Subject: [PATCH 27/28] fix: free all user names of a connection when it logs
 out or ends

---
 context.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/context.go b/context.go
index a02c5e3..27c37c3 100644
--- a/context.go
+++ b/context.go
@@ -49,6 +49,8 @@ type Context struct {
 	// `ctx.Online(username)`
 	// `ctx.Offline()`
 	poolRef *ClientPool
+	// all names this connection has been put online with, shared among request context
+	usernames *sync.Map
 
 	// signal end, after called `ctx.CloseConn()`, it can broadcast all routine related  to this connection.
 	// It will ensure all related goroutine to die.
@@ -96,6 +98,7 @@ func copyContext(ctx Context) *Context {
 		offset:               ctx.offset,
 		handlers:             copyHandlers,
 		poolRef:              ctx.poolRef,
+		usernames:            ctx.usernames,
 		recvEnd:              ctx.recvEnd,
 		recvAuth:             ctx.recvAuth,
 		userState:            ctx.userState,
@@ -138,6 +141,7 @@ func (ctx *Context) Online(username string) error {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
 	ctx.poolRef.Online(username, ctx)
+	ctx.usernames.Store(username, nil)
 	// the connection may have been closed meanwhile, don't leave it in the pool
 	if ctx.IsOffline() {
 		ctx.poolRef.offlineContext(username, ctx)
@@ -175,6 +179,12 @@ func (ctx *Context) Offline() error {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
 	ctx.poolRef.offlineContext(username, ctx)
+	// former names of this connection
+	ctx.usernames.Range(func(k, _ interface{}) bool {
+		ctx.usernames.Delete(k)
+		ctx.poolRef.offlineContext(k.(string), ctx)
+		return true
+	})
 	return nil
 }
 
@@ -195,6 +205,7 @@ func NewContext(conn net.Conn, marshaller Marshaller) *Context {
 
 		L:         &sync.RWMutex{},
 		userState: &online,
+		usernames: &sync.Map{},
 	}
 }
 
@@ -222,6 +233,7 @@ func NewUDPContext(conn net.PacketConn, addr net.Addr, marshaller Marshaller) *C
 
 		L:         &sync.RWMutex{},
 		userState: &online,
+		usernames: &sync.Map{},
 	}
 }
 
-- 
2.43.0


From 9b2e09317401276af29481b3d8f856f6238ab699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:55 +0000
Subject: [PATCH 28/28] fix: ListenAndServeUDP returns the error when the
 address cannot be bound

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index fae1a0d..59eba27 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -689,7 +689,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	conn, err := net.ListenPacket(network, addr)
 	if err != nil {
-		panic(err)
+		return errorx.Wrap(err)
 	}
 	defer conn.Close()
 
-- 
2.43.0

