From 6ede62963d769b6acd94626ffc5b49d03a9b637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:06 +0000
Subject: [PATCH 01/49] fix: keep the server-wide session count exact when
 connections are refused or admitted concurrently

---
 msc_server/server/on_close.go | 13 +++++++------
 msc_server/server/on_open.go  |  4 ++--
 msc_server/server/server.go   | 15 +++++++++++++++
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index c4c334e..576715d 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -14,6 +14,11 @@ var logDb = msc.New("CounterDB")
 func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 	msg := fmt.Sprintf("[%s] OnClose ===", s.name)
 	sc := Session(c)
+	if sc == nil {
+		// 因达到连接数阈值而被拒绝的连接，从未创建过会话
+		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})...)
+		return
+	}
 	defer deferFunc(c, s, sc)
 
 	fields := FlatMapLog(sc.LogSession(), s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})
@@ -25,11 +30,7 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
 	sc.closeResource() // 关闭通道，释放线程池
-	s.sessionPool.Delete(sc.Id())
-	s.activeSessions -= 1
+	s.removeSession(sc)
 	c.SetContext(nil)
-	if sc != nil {
-		sc.conn = nil
-		sc = nil
-	}
+	sc.conn = nil
 }
diff --git a/msc_server/server/on_open.go b/msc_server/server/on_open.go
index fc3e0c0..1fb5eed 100644
--- a/msc_server/server/on_open.go
+++ b/msc_server/server/on_open.go
@@ -12,12 +12,12 @@ import (
 func (s *Server) OnOpen(c gnet.Conn) (out []byte, action gnet.Action) {
 	var msg = fmt.Sprintf("[%s] OnOpen ===", s.name)
 
-	if s.ActiveSessions() >= s.sessionPoolCap {
+	sc := s.CreateSession(c)
+	if sc == nil {
 		// 已达到连接数阈值时，拒绝新的连接
 		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpFlowControl.Field(), SErrField(msc.ErrorsSessionThreshReached)})...)
 		return nil, gnet.Close
 	} else {
-		sc := s.CreateSession(c)
 		log.Info(msg, FlatMapLog(sc.LogSession(), s.LogCounter())...)
 		return
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 11a63c5..75c438a 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -78,9 +78,13 @@ func New(name string) *Server {
 	}
 }
 
+// CreateSession 创建会话，阈值检查与计数在同一把锁内完成，达到连接数阈值时返回 nil
 func (s *Server) CreateSession(c gnet.Conn) *session {
 	s.Lock()
 	defer s.Unlock()
+	if s.activeSessions >= s.sessionPoolCap {
+		return nil
+	}
 	sc := NewSession(c)
 	sc.serverName = s.name
 	c.SetContext(sc)
@@ -102,7 +106,18 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	return
 }
 
+// removeSession 移除会话，并归还其占用的会话数
+func (s *Server) removeSession(sc *session) {
+	s.Lock()
+	defer s.Unlock()
+	if _, ok := s.sessionPool.LoadAndDelete(sc.id); ok {
+		s.activeSessions -= 1
+	}
+}
+
 func (s *Server) ActiveSessions() int {
+	s.Lock()
+	defer s.Unlock()
 	return s.activeSessions
 }
 
-- 
2.43.0


From ebc9f8db83569f3b22e946803f2e779b2dc4b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:27 +0000
Subject: [PATCH 02/49] fix: reserve an account's session slot atomically at
 login and never revive a closed session

---
 msc_server/my_errors.go           |  1 +
 msc_server/server/cmpp_connect.go | 11 +++++++----
 msc_server/server/on_close.go     |  3 +++
 msc_server/server/server.go       | 18 ++++++++++++++++++
 msc_server/server/session.go      | 16 ++++++++++++++++
 msc_server/server/sgip_bind.go    | 11 +++++++----
 msc_server/server/smgp_login.go   | 11 +++++++----
 7 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/msc_server/my_errors.go b/msc_server/my_errors.go
index db2aab7..7306414 100644
--- a/msc_server/my_errors.go
+++ b/msc_server/my_errors.go
@@ -5,6 +5,7 @@ const (
 	ErrorsNoEffectiveAction      = "No effective action more than %v"
 	ErrorsNoneActiveTestResponse = "None response active test more than 3 times"
 	ErrorsDecodePacketBody       = "Decode packet body error"
+	ErrorsRepeatedLogin          = "Repeated login"
 	ErrorsIllegalPacketLength    = "Illegal packet length %d"
 	ErrorsIllegalCommand         = "Illegal command %0x"
 	ErrorsSubmitFlowControl      = "Submit message flow control"
diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 9cf83d1..3f8f2e5 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -17,6 +17,12 @@ var cmppConnect TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 	login := &cmpp.Connect{}
 	sc := Session(c)
+	if !sc.startLogin() {
+		// 同一连接仅允许登录一次
+		log.Error(fmt.Sprintf("[%s] OnTraffic %s", sc.ServerName(), RC),
+			FlatMapLog(sc.LogSession(), []log.Field{OpConnectionClose.Field(), SErrField(msc.ErrorsRepeatedLogin)})...)
+		return false, gnet.Close
+	}
 	err := login.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
@@ -50,8 +56,7 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	if code == cmpp.ConnStatusOK {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.reserveSession(sc, cli.ClientId, cli.MaxConns) {
 			code = cmpp.ConnStatusOthers
 		}
 	}
@@ -61,8 +66,6 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == cmpp.ConnStatusOK {
 			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index 576715d..5da66dc 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -29,6 +29,9 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 }
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
+	sc.Lock()
+	sc.stat = StatClosing
+	sc.Unlock()
 	sc.closeResource() // 关闭通道，释放线程池
 	s.removeSession(sc)
 	c.SetContext(nil)
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 75c438a..9fd13a9 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -115,6 +115,24 @@ func (s *Server) removeSession(sc *session) {
 	}
 }
 
+// reserveSession 为客户端占用一个会话名额，检查与占用在同一把锁内完成，名额在会话关闭时归还
+func (s *Server) reserveSession(sc *session, clientId string, maxConns int) bool {
+	s.Lock()
+	defer s.Unlock()
+	counter := 0
+	s.sessionPool.Range(func(key, value any) bool {
+		if other, ok := value.(*session); ok && other.clientId == clientId {
+			counter += 1
+		}
+		return true
+	})
+	if counter >= maxConns {
+		return false
+	}
+	sc.clientId = clientId
+	return true
+}
+
 func (s *Server) ActiveSessions() int {
 	s.Lock()
 	defer s.Unlock()
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 9232444..543e6b7 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -29,6 +29,7 @@ type session struct {
 	window      chan struct{}   // 流控所需通道，登录成功后需设置此值，否则消息不能正常收发
 	pool        *goroutine.Pool // 会话级别的线程池，登录成功后需设置此值，否则消息不能正常收发
 	limiter     *rate.Limiter   // 限速器
+	logging     bool            // 是否已收到登录请求
 	counter                     // mt, dly, report 计数器
 }
 
@@ -69,10 +70,25 @@ func createSessionSidePool(size int) *goroutine.Pool {
 	return pool
 }
 
+// startLogin 标记会话已收到登录请求，重复登录返回 false
+func (s *session) startLogin() bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.logging {
+		return false
+	}
+	s.logging = true
+	return true
+}
+
 func (s *session) completeLogin(ac *codec.AuthConf) {
 	// 设置会话信息及会话级别资源，此代码非常重要！！！
 	s.Lock()
 	defer s.Unlock()
+	if s.stat != StatConnect {
+		// 登录完成前连接已关闭
+		return
+	}
 	s.stat = StatLogin
 	s.ver = ac.Version
 	s.clientId = ac.ClientId
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 1d747d9..64c2f12 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -17,6 +17,12 @@ var sgipBind TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 
 	login := &sgip.Bind{}
 	sc := Session(c)
+	if !sc.startLogin() {
+		// 同一连接仅允许登录一次
+		log.Error(fmt.Sprintf("[%s] OnTraffic %s", sc.ServerName(), RC),
+			FlatMapLog(sc.LogSession(), []log.Field{OpConnectionClose.Field(), SErrField(msc.ErrorsRepeatedLogin)})...)
+		return false, gnet.Close
+	}
 	err := login.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
@@ -50,8 +56,7 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	if code == sgip.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(ac.ClientId)
-		if activeSession >= ac.MaxConns {
+		if !s.reserveSession(sc, ac.ClientId, ac.MaxConns) {
 			code = sgip.Status(3)
 		}
 	}
@@ -61,8 +66,6 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == sgip.Status(0) {
 			sc.completeLogin(ac)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 47613d9..aa308ad 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -17,6 +17,12 @@ var smgpLogin TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 
 	login := &smgp.Login{}
 	sc := Session(c)
+	if !sc.startLogin() {
+		// 同一连接仅允许登录一次
+		log.Error(fmt.Sprintf("[%s] OnTraffic %s", sc.ServerName(), RC),
+			FlatMapLog(sc.LogSession(), []log.Field{OpConnectionClose.Field(), SErrField(msc.ErrorsRepeatedLogin)})...)
+		return false, gnet.Close
+	}
 	err := login.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
@@ -50,8 +56,7 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	if code == smgp.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.reserveSession(sc, cli.ClientId, cli.MaxConns) {
 			code = smgp.Status(2)
 		}
 	}
@@ -61,8 +66,6 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == smgp.Status(0) {
 			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
-- 
2.43.0


From 05de49d6c24080ca1156ab098d98567063789398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 03/49] fix: process every complete packet of a read, including
 packets without a body

---
 msc_server/server/on_traffic.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 0bc76ad..702cde4 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -17,18 +17,24 @@ import (
 )
 
 func (s *Server) OnTraffic(c gnet.Conn) (action gnet.Action) {
-	cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
-	if ok {
+	// 一次可读事件可能包含多个完整的数据包，需全部处理
+	for {
+		cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
+		if !ok {
+			return action
+		}
 		switch s.name {
 		case CMPP:
-			return ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
 		case SGIP:
-			return ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
 		case SMGP:
-			return ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+		}
+		if action != gnet.None {
+			return action
 		}
 	}
-	return action
 }
 
 // TrafficHandler Don't Read From gnet.Conn.
@@ -90,16 +96,14 @@ func DecodeAndCheckHeader(s *Server, c gnet.Conn) (cmd uint32, seq uint32, buff
 	if int(pkl) > c.InboundBuffered() {
 		return 0, 0, nil, gnet.None, false
 	}
-	// 消息体通过长度检查后,跳过消息头的前8字节
-	_, _ = c.Discard(12)
-
-	// 读取消息体
-	buff, _ = c.Peek(int(pkl - 12))
-	_, _ = c.Discard(int(pkl - 12))
+	// 读取整个数据包（消息体可能为空）
+	buff, _ = c.Peek(int(pkl))
+	buff = buff[12:]
 	// buff returned by Peek() is not allowed to be passed to a new goroutine, as this []byte will be reused within event-loop.
 	// If you have to use buf in a new goroutine, then you need to make a copy of buf and pass this copy to that new goroutine.
 	newBuff := make([]byte, len(buff))
 	copy(newBuff, buff)
+	_, _ = c.Discard(int(pkl))
 	log.Debug(msg, FlatMapLog(sc.LogSession(), []log.Field{op.OpLog(), Packet2HexLogStr(newBuff)})...)
 
 	return cmd, seq, newBuff, gnet.None, true
-- 
2.43.0


From e2ae1579e8f6e74504adb5dc36d41f0cc1a79333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 04/49] fix: reject packets whose body is shorter than its
 fields instead of panicking

---
 codec/cmpp/connect.go  |  6 ++++++
 codec/cmpp/delivery.go | 15 +++++++++++++++
 codec/cmpp/report.go   |  3 +++
 codec/cmpp/submit.go   | 25 +++++++++++++++++++++++--
 codec/packer.go        |  4 ++++
 codec/sgip/bind.go     |  6 ++++++
 codec/sgip/deliver.go  |  9 +++++++++
 codec/sgip/report.go   |  6 ++++++
 codec/sgip/submit.go   | 11 ++++++++++-
 codec/sgip/unbind.go   |  6 ++++++
 codec/smgp/deliver.go  |  8 +++++++-
 codec/smgp/login.go    |  6 ++++++
 codec/smgp/report.go   |  5 +++++
 codec/smgp/submit.go   | 12 +++++++++++-
 14 files changed, 117 insertions(+), 5 deletions(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index 1ea9cbc..ef216ac 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -68,6 +68,9 @@ func (c *Connect) Encode() []byte {
 }
 
 func (c *Connect) Decode(seq uint32, frame []byte) error {
+	if len(frame) < ConnectPktLen-12 {
+		return codec.ErrPacketTooShort
+	}
 	c.TotalLength = ConnectPktLen
 	c.CommandId = CMPP_CONNECT
 	c.SequenceId = seq
@@ -174,6 +177,9 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 	}
 	r.CommandId = CMPP_CONNECT_RESP
 	r.SequenceId = seq
+	if len(frame)+12 < int(r.TotalLength) {
+		return codec.ErrPacketTooShort
+	}
 
 	var index int
 	if V30.MajorMatchV(r.Version) {
diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 9ac61e5..9bbbc57 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -102,6 +102,14 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.TotalLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = CMPP_DELIVER
 	d.SequenceId = seq
+	// 固定部分的长度（到msgLength为止），及消息内容之后的长度
+	fixLen, tailLen := 65, 0
+	if V30.MajorMatchV(d.Version) {
+		fixLen, tailLen = 77, 20
+	}
+	if len(frame) < fixLen || len(frame) < fixLen+int(frame[fixLen-1])+tailLen {
+		return codec.ErrPacketTooShort
+	}
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
 	d.destId = utils.TrimStr(frame[29:39])
@@ -285,6 +293,13 @@ func (r *DeliveryRsp) Decode(seq uint32, frame []byte) error {
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_DELIVER_RESP
 	r.SequenceId = seq
+	respLen := 9
+	if V30.MajorMatchV(r.Version) {
+		respLen = 12
+	}
+	if len(frame) < respLen {
+		return codec.ErrPacketTooShort
+	}
 	r.msgId = binary.BigEndian.Uint64(frame[0:8])
 	if V30.MajorMatchV(r.Version) {
 		r.result = DlyResult(binary.BigEndian.Uint32(frame[8:12]))
diff --git a/codec/cmpp/report.go b/codec/cmpp/report.go
index 57c2d2b..64cd779 100644
--- a/codec/cmpp/report.go
+++ b/codec/cmpp/report.go
@@ -64,6 +64,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < 60 {
+		return codec.ErrPacketTooShort
+	}
 	rt.msgId = binary.BigEndian.Uint64(frame[0:8])
 	rt.stat = utils.TrimStr(frame[8:15])
 	rt.submitTime = utils.TrimStr(frame[15:25])
diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 5d131a6..d67ee29 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -164,6 +164,14 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.TotalLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = CMPP_SUBMIT
 	s.SequenceId = seq
+	// 固定部分的长度（到destUsrTl为止），及消息内容之后的长度
+	fixLen, tailLen := 117, 0
+	if V30.MajorMatchV(s.Version) {
+		fixLen, tailLen = 129, 20
+	}
+	if len(frame) < fixLen {
+		return codec.ErrPacketTooShort
+	}
 	// msgId uint64
 	index := 8
 	s.pkTotal = frame[index]
@@ -207,10 +215,13 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destUsrTl = frame[index]
 	index++
-	l := int(s.destUsrTl * 21)
+	l := int(s.destUsrTl) * 21
 	if V30.MajorMatchV(s.Version) {
 		l = int(s.destUsrTl) << 5
 	}
+	if len(frame) < index+l+2 {
+		return codec.ErrPacketTooShort
+	}
 	s.termIds = frame[index : index+l]
 	index += l
 	if V30.MajorMatchV(s.Version) {
@@ -221,9 +232,12 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.destTerminalId = utils.TrimStr(s.termIds)
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < index+int(s.msgLength)+tailLen {
+		return codec.ErrPacketTooShort
+	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.msgContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -297,6 +311,13 @@ func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_SUBMIT_RESP
 	r.SequenceId = seq
+	respLen := 9
+	if V30.MajorMatchV(r.Version) {
+		respLen = 12
+	}
+	if len(frame) < respLen {
+		return codec.ErrPacketTooShort
+	}
 	r.msgId = binary.BigEndian.Uint64(frame[0:8])
 	if V30.MajorMatchV(r.Version) {
 		r.result = MtResult(binary.BigEndian.Uint32(frame[8:12]))
diff --git a/codec/packer.go b/codec/packer.go
index 35bf4ff..7398287 100644
--- a/codec/packer.go
+++ b/codec/packer.go
@@ -2,6 +2,7 @@ package codec
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/hrygo/log"
 )
@@ -14,6 +15,9 @@ const (
 	PacketMax        = 5120
 )
 
+// ErrPacketTooShort 消息体长度不足
+var ErrPacketTooShort = errors.New("packet body too short")
+
 type Operation interface {
 	ToInt() uint32
 	OpLog() log.Field
diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index 7639e50..c24be7d 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -46,6 +46,9 @@ func (b *Bind) Encode() []byte {
 }
 
 func (b *Bind) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8+1+16+16 {
+		return codec.ErrPacketTooShort
+	}
 	b.PacketLength = codec.HeadLen + uint32(len(frame))
 	b.CommandId = SGIP_BIND
 	b.SequenceNumber = make([]uint32, 3)
@@ -104,6 +107,9 @@ func (r *BindRsp) Encode() []byte {
 }
 
 func (r *BindRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_BIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index a8c26c4..8653535 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -78,6 +78,9 @@ func (d *Deliver) Encode() []byte {
 }
 
 func (d *Deliver) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 57 {
+		return codec.ErrPacketTooShort
+	}
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = SGIP_DELIVER
 	d.SequenceNumber = make([]uint32, 3)
@@ -99,6 +102,9 @@ func (d *Deliver) Decode(cid uint32, frame []byte) error {
 	index++
 	d.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint64(len(frame)) < uint64(index)+uint64(d.MessageLength) {
+		return codec.ErrPacketTooShort
+	}
 	d.MessageContent = frame[index : index+int(d.MessageLength)]
 	index += int(d.MessageLength)
 	d.Reserve = ""
@@ -140,6 +146,9 @@ func (d *Deliver) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *DeliverRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_DELIVER_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 36ed683..dc2fe97 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -54,6 +54,9 @@ func (r *Report) Encode() []byte {
 }
 
 func (r *Report) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 44 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT
 	r.SequenceNumber = make([]uint32, 3)
@@ -109,6 +112,9 @@ func (r *Report) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *ReportRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 9c3ddf6..fa068f2 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -148,6 +148,9 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 51 || len(frame) < 51+21*int(frame[50])+72 {
+		return codec.ErrPacketTooShort
+	}
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = SGIP_SUBMIT
 	s.SequenceNumber = make([]uint32, 3)
@@ -200,9 +203,12 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index++
 	s.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint64(len(frame)) < uint64(index)+uint64(s.MessageLength) {
+		return codec.ErrPacketTooShort
+	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -300,6 +306,9 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *SubmitRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_SUBMIT_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/unbind.go b/codec/sgip/unbind.go
index b625bf9..def4657 100644
--- a/codec/sgip/unbind.go
+++ b/codec/sgip/unbind.go
@@ -21,6 +21,9 @@ func (u *Unbind) Encode() []byte {
 }
 
 func (u *Unbind) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8 {
+		return codec.ErrPacketTooShort
+	}
 	u.PacketLength = codec.HeadLen + 8
 	u.CommandId = SGIP_UNBIND
 	u.SequenceNumber = make([]uint32, 3)
@@ -51,6 +54,9 @@ func (r *UnbindRsp) Encode() []byte {
 }
 
 func (r *UnbindRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + 8
 	r.CommandId = SGIP_UNBIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 3040ca7..9e00ac0 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -112,6 +112,9 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.RequestId = SMGP_DELIVER
 	d.SequenceId = seq
+	if len(frame) < 69 || len(frame) < 69+int(frame[68]) {
+		return codec.ErrPacketTooShort
+	}
 	var index int
 	d.msgId = frame[index : index+10]
 	index += 10
@@ -129,7 +132,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	index += 1
 	if d.IsReport() {
 		d.report = &Report{}
-		err := d.report.Decode(frame[index : index+RptLen])
+		err := d.report.Decode(frame[index:])
 		if err != nil {
 			return err
 		}
@@ -212,6 +215,9 @@ func (r *DeliverRsp) Encode() []byte {
 }
 
 func (r *DeliverRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 14 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_DELIVER_RESP
 	r.SequenceId = seq
diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 8fa8b9e..6baacdc 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -70,6 +70,9 @@ func (l *Login) Encode() []byte {
 }
 
 func (l *Login) Decode(seq uint32, frame []byte) error {
+	if len(frame) < LoginLen-12 {
+		return codec.ErrPacketTooShort
+	}
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
@@ -164,6 +167,9 @@ func (r *LoginRsp) Encode() []byte {
 }
 
 func (r *LoginRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < LoginRespLen-12 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_LOGIN_RESP
 	r.SequenceId = seq
diff --git a/codec/smgp/report.go b/codec/smgp/report.go
index 863f387..b3b8c90 100644
--- a/codec/smgp/report.go
+++ b/codec/smgp/report.go
@@ -3,6 +3,8 @@ package smgp
 import (
 	"fmt"
 	"time"
+
+	"github.com/hrygo/gosms/codec"
 )
 
 type Report struct {
@@ -83,6 +85,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < RptLen-20 {
+		return codec.ErrPacketTooShort
+	}
 	index := 3 // skip "id:"
 	rt.id = frame[index : index+10]
 	index += 10
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 4883506..6161963 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -147,6 +147,10 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.RequestId = SMGP_SUBMIT
 	s.SequenceId = seq
+	// 消息内容之外的长度：到destTermIDCount为止105字节，msgLength 1字节，reserve 8字节
+	if len(frame) < 105 || len(frame) < 105+21*int(frame[104])+1 {
+		return codec.ErrPacketTooShort
+	}
 
 	var index int
 	s.msgType = frame[index]
@@ -181,8 +185,11 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	}
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < index+int(s.msgLength)+8 {
+		return codec.ErrPacketTooShort
+	}
 	content := frame[index : index+int(s.msgLength)]
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 	}
 	index += int(s.msgLength)
@@ -232,6 +239,9 @@ func (r *SubmitRsp) Encode() []byte {
 }
 
 func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 14 {
+		return codec.ErrPacketTooShort
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_SUBMIT_RESP
 	r.SequenceId = seq
-- 
2.43.0


From 01cfe4972f45bee9fa27c6af8863c8cd9d5a5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 05/49] fix: RandNum no longer panics when both bounds are
 equal

---
 utils/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index 9867d88..8a2423f 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -224,6 +224,9 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 }
 
 func RandNum(min, max int) int {
+	if max <= min {
+		return min
+	}
 	return rand.Intn(max-min) + min
 }
 
-- 
2.43.0


From d6089c9385144547a0f8a65ba96a2a15ab038c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 06/49] fix: an SMGP client id shorter than eight octets can
 log in

---
 codec/smgp/login.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 6baacdc..bad5052 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -76,7 +76,7 @@ func (l *Login) Decode(seq uint32, frame []byte) error {
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
-	l.clientID = string(frame[0:8])
+	l.clientID = utils.TrimStr(frame[0:8])
 	l.authenticatorClient = frame[8:24]
 	l.loginMode = frame[24]
 	l.timestamp = binary.BigEndian.Uint32(frame[25:29])
-- 
2.43.0


From 79c6df547eb5b8c4ffd0e6370dbd53b8c053dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 07/49] fix: the 32-bit sequence uses its own configured data
 centre and worker

---
 msc_client/bootstrap.go | 4 ++--
 msc_server/bootstrap.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_client/bootstrap.go b/msc_client/bootstrap.go
index 8553c5b..01a43cf 100644
--- a/msc_client/bootstrap.go
+++ b/msc_client/bootstrap.go
@@ -120,8 +120,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
diff --git a/msc_server/bootstrap.go b/msc_server/bootstrap.go
index 938ac38..781b61f 100644
--- a/msc_server/bootstrap.go
+++ b/msc_server/bootstrap.go
@@ -112,8 +112,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
-- 
2.43.0


From ea5cbef7269c1a85c0ceaca59ae0876d8313398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 08/49] fix: CycleSequence shifts node bits right above its
 26-bit counter

---
 utils/cycle_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cycle_sequence.go b/utils/cycle_sequence.go
index 66d1294..de2581b 100644
--- a/utils/cycle_sequence.go
+++ b/utils/cycle_sequence.go
@@ -18,7 +18,7 @@ type CycleSequence struct {
 const (
 	sequenceMask    = int32(0x03ffffff)         // 最大值为26个1
 	workerBits      = uint(3)                   // 机器id所占位数
-	sequenceBits    = uint(28)                  // 序列所占的位数
+	sequenceBits    = uint(26)                  // 序列所占的位数
 	workerShift     = sequenceBits              // 机器id左移位数
 	datacenterShift = sequenceBits + workerBits // 数据中心id左移位数
 )
-- 
2.43.0


From b49e04db1272816a82f69dcaea86105b06098e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 09/49] fix: long messages are split without losing or
 repeating content

---
 utils/utils.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 8a2423f..b01029b 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -189,35 +189,30 @@ func MsgSlices(fmt uint8, content string) (slices [][]byte) {
 // 纯ASCII内容的拆分 pkgLen = 160
 // 含中文内容的拆分   pkgLen = 140
 func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
-	if len(content) < pkgLen {
+	if len(content) <= pkgLen {
 		return [][]byte{content}
 	}
 
 	headLen := 6
 	bodyLen := pkgLen - headLen
 	parts := len(content) / bodyLen
-	tailLen := len(content) % bodyLen
-	if tailLen != 0 {
+	if len(content)%bodyLen != 0 {
 		parts++
 	}
 	// 分片消息组的标识，用于收集组装消息
 	groupId := byte(time.Now().UnixNano() & 0xff)
 	var part []byte
 	for i := 0; i < parts; i++ {
-		if i != parts-1 {
-			part = make([]byte, pkgLen)
-		} else {
-			// 最后一片
-			part = make([]byte, 6+tailLen)
+		body := content[bodyLen*i:]
+		// 最后一片可能不足bodyLen
+		if len(body) > bodyLen {
+			body = body[:bodyLen]
 		}
+		part = make([]byte, headLen+len(body))
 		part[0], part[1], part[2] = 0x05, 0x00, 0x03
 		part[3] = groupId
 		part[4], part[5] = byte(parts), byte(i+1)
-		if i != parts-1 {
-			copy(part[6:pkgLen], content[bodyLen*i:bodyLen*(i+1)])
-		} else {
-			copy(part[6:], content[0:tailLen])
-		}
+		copy(part[headLen:], body)
 		rt = append(rt, part)
 	}
 	return rt
-- 
2.43.0


From 40c3ea7b42901240ed2e4854b96ed268e8999c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 10/49] fix: decode a part of a long message by its own format,
 and only if it has a user data header

---
 codec/cmpp/submit.go | 8 +++++---
 codec/sgip/submit.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index d67ee29..8ca9f5e 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -237,9 +237,11 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
-		content = content[6:]
-		s.msgContent, _ = utils.Ucs2ToUtf8(content)
+	if s.tpUdhi == 1 && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+		s.msgContent = content[6:]
+		if s.msgFmt == 8 {
+			s.msgContent, _ = utils.Ucs2ToUtf8(content[6:])
+		}
 	}
 	index += int(s.msgLength)
 	if V30.MajorMatchV(s.Version) {
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index fa068f2..755a419 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -208,9 +208,11 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
-		content = content[6:]
-		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+	if s.TpUdhi == 1 && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+		s.MessageContent = content[6:]
+		if s.MessageCoding == 8 {
+			s.MessageContent, _ = utils.Ucs2ToUtf8(content[6:])
+		}
 	}
 	s.Reserve = ""
 	return nil
-- 
2.43.0


From bea0ea9a1edd787b2f5644551dc23daecca6f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 11/49] fix: CMPP deliver keeps destination number and service
 id apart

---
 codec/cmpp/delivery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 9bbbc57..68bea3d 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -112,7 +112,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	}
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
-	d.destId = utils.TrimStr(frame[29:39])
+	d.serviceId = utils.TrimStr(frame[29:39])
 	d.tpPid = frame[39]
 	d.tpUdhi = frame[40]
 	d.msgFmt = frame[41]
-- 
2.43.0


From 5d0dc104435939a88b06348277923da7885f3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 12/49] fix: the text of a CMPP deliver survives encoding and
 decoding

---
 codec/cmpp/delivery.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 68bea3d..e8a3fb6 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -139,7 +139,14 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 		}
 		d.report = rpt
 	} else {
-		d.msgContent = utils.TrimStr(frame[index : index+l])
+		d.msgContent = string(frame[index : index+l])
+		if d.msgFmt == 8 {
+			content, err := utils.Ucs2ToUtf8(frame[index : index+l])
+			if err != nil {
+				return err
+			}
+			d.msgContent = string(content)
+		}
 	}
 	index += l
 	if V30.MajorMatchV(d.Version) {
@@ -167,12 +174,18 @@ func setMsgContent(dly *Delivery, msg string) {
 	dly.msgFmt = utils.MsgFmt(msg)
 	var l int
 	if dly.msgFmt == 8 {
-		l = 2 * len([]rune(msg))
-		if l > 140 {
-			// 只取前70个字符
-			rs := []rune(msg)
-			msg = string(rs[:70])
-			l = 140
+		// 只取前70个字符（辅助平面的字符占2个）
+		rs := []rune(msg)
+		for i, r := range rs {
+			n := 2
+			if r > 0xffff {
+				n = 4
+			}
+			if l+n > 140 {
+				msg = string(rs[:i])
+				break
+			}
+			l += n
 		}
 	} else {
 		l = len(msg)
-- 
2.43.0


From 44bcae82f6fffe1c63665e500de7b42d6bafe2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 13/49] fix: WithMtOptions applies the given options

---
 codec/options_mt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/options_mt.go b/codec/options_mt.go
index cb002a8..5a88492 100644
--- a/codec/options_mt.go
+++ b/codec/options_mt.go
@@ -37,7 +37,7 @@ type MtOptions struct {
 // WithMtOptions 设置配置项
 func WithMtOptions(opt *MtOptions) OptionFunc {
 	return func(mtOps *MtOptions) {
-		mtOps = opt
+		*mtOps = *opt
 	}
 }
 
-- 
2.43.0


From ef365c64c005a2dc5f35b21a99f7e3de34bc06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 14/49] fix: SMGP submit takes each option given and the
 account's default otherwise

---
 codec/smgp/submit.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 6161963..5961df9 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -376,14 +376,12 @@ func (r *SubmitRsp) Status() Status {
 
 func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 	s.needReport = ac.NeedReport
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.NeedReport != 0 {
+	if options.NeedReport != uint8(0xf) {
 		s.needReport = options.NeedReport
 	}
 
 	s.priority = ac.DefaultMsgLevel
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.MsgLevel != 0 {
+	if options.MsgLevel != uint8(0xf) {
 		s.priority = options.MsgLevel
 	}
 
@@ -396,13 +394,11 @@ func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 		s.atTime = options.AtTime
 	}
 
-	vt := time.Now()
 	if options.ValidTime != "" {
 		s.validTime = options.ValidTime
 	} else {
-		vt.Add(ac.MtValidDuration)
+		s.validTime = utils.FormatTime(time.Now().Add(ac.MtValidDuration))
 	}
-	s.validTime = utils.FormatTime(vt)
 
 	s.srcTermID = ac.SmsDisplayNo
 	if options.SpSubNo != "" {
-- 
2.43.0


From 9000eec7bf313fb4f68b75b1f0af4f0c6825ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 15/49] fix: SMGP parts of a long message are numbered from one

---
 codec/smgp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 5961df9..8e19de0 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -95,7 +95,7 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 			l += 5
 			sub.tlvList.Add(PkTotal, []byte{byte(len(slices))})
 			l += 5
-			sub.tlvList.Add(PkNumber, []byte{byte(i)})
+			sub.tlvList.Add(PkNumber, []byte{byte(i + 1)})
 			l += 5
 			sub.PacketLength = uint32(MtBaseLen + len(sub.destTermID)*21 + int(sub.msgLength) + l)
 			messages = append(messages, sub)
-- 
2.43.0


From ed22108cfe9e427d6b77a460d2bb88ad2ec7b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 16/49] fix: an SMGP deliver response carries the deliver's
 message id

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 9e00ac0..931a053 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -153,7 +153,7 @@ func (d *Delivery) ToResponse(code uint32) codec.Pdu {
 	resp.PacketLength = 26
 	resp.SequenceId = d.SequenceId
 	resp.status = Status(code)
-	resp.msgId = codec.BcdSeq.NextVal()
+	resp.msgId = d.msgId
 	return resp
 }
 
-- 
2.43.0


From ff3d96974f584cf43aef4adb2fae2c276a309f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 17/49] fix: an SMGP report's length field is the length of its
 content

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 931a053..c58bf6f 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -75,7 +75,7 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.SequenceId = seq
 	dlv.msgId = codec.BcdSeq.NextVal()
 	dlv.report = NewReport(msgId)
-	dlv.msgLength = 115
+	dlv.msgLength = byte(RptLen)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-- 
2.43.0


From ca34cf5cf9a7b6a46eadaefe235657b90aba8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 18/49] fix: an SGIP report is sent as a report

---
 codec/sgip/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index dc2fe97..e1dd16f 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -25,7 +25,7 @@ const DlvPackLen = 64
 func NewReport(phone string, mtSequence []uint32, status Status, code byte) codec.RequestPdu {
 	dlv := &Report{}
 	dlv.PacketLength = DlvPackLen
-	dlv.CommandId = SGIP_DELIVER
+	dlv.CommandId = SGIP_REPORT
 	dlv.SequenceNumber = Sequencer.NextVal()
 	dlv.MtSequence = mtSequence
 	dlv.UserNumber = phone
-- 
2.43.0


From 0c53f2f575d27ba498b315cb195b79983f07c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:14 +0000
Subject: [PATCH 19/49] fix: an SGIP string longer than its field no longer
 spills into the next one

---
 codec/sgip/deliver.go |  4 ++--
 codec/sgip/report.go  |  2 +-
 codec/sgip/submit.go  | 18 +++++++++---------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index 8653535..9e4e1e1 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -59,9 +59,9 @@ func NewDeliver(ac *codec.AuthConf, phone, content, destNo string) codec.Request
 func (d *Deliver) Encode() []byte {
 	frame := d.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], d.UserNumber)
+	copy(frame[index:index+21], d.UserNumber)
 	index += 21
-	copy(frame[index:], d.SPNumber)
+	copy(frame[index:index+21], d.SPNumber)
 	index += 21
 	frame[index] = d.TpPid
 	index++
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index e1dd16f..700daae 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -43,7 +43,7 @@ func (r *Report) Encode() []byte {
 	}
 	frame[index] = r.ReportType
 	index++
-	copy(frame[index:], r.UserNumber)
+	copy(frame[index:index+21], r.UserNumber)
 	index += 21
 	frame[index] = byte(r.State)
 	index++
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 755a419..833616c 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -99,25 +99,25 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, options ...c
 func (s *Submit) Encode() []byte {
 	frame := s.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], s.SPNumber)
+	copy(frame[index:index+21], s.SPNumber)
 	index += 21
-	copy(frame[index:], s.ChargeNumber)
+	copy(frame[index:index+21], s.ChargeNumber)
 	index += 21
 	frame[index] = s.UserCount
 	index++
 	for _, p := range s.UserNumber {
-		copy(frame[index:], p)
+		copy(frame[index:index+21], p)
 		index += 21
 	}
-	copy(frame[index:], s.CorpId)
+	copy(frame[index:index+5], s.CorpId)
 	index += 5
-	copy(frame[index:], s.ServiceType)
+	copy(frame[index:index+10], s.ServiceType)
 	index += 10
 	frame[index] = s.FeeType
 	index++
-	copy(frame[index:], s.FeeValue)
+	copy(frame[index:index+6], s.FeeValue)
 	index += 6
-	copy(frame[index:], s.GivenValue)
+	copy(frame[index:index+6], s.GivenValue)
 	index += 6
 	frame[index] = s.AgentFlag
 	index++
@@ -125,9 +125,9 @@ func (s *Submit) Encode() []byte {
 	index++
 	frame[index] = s.Priority
 	index++
-	copy(frame[index:], s.ExpireTime)
+	copy(frame[index:index+16], s.ExpireTime)
 	index += 16
-	copy(frame[index:], s.ScheduleTime)
+	copy(frame[index:index+16], s.ScheduleTime)
 	index += 16
 	frame[index] = s.ReportFlag
 	index++
-- 
2.43.0


From 6a24b2363d87b4b9dbc1b2b4807f3ea1e26720c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:14 +0000
Subject: [PATCH 20/49] fix: a truncated optional parameter is reported as an
 error

---
 utils/tlv.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/utils/tlv.go b/utils/tlv.go
index 82059d5..4adb9e2 100644
--- a/utils/tlv.go
+++ b/utils/tlv.go
@@ -105,16 +105,13 @@ func ReadObject(r io.Reader) (TLV, error) {
 	var length uint16
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
-		return nil, err
+		return nil, ErrTLVRead
 	}
 	tlv.len = length
 
 	tlv.val = make([]byte, tlv.Length())
-	l, err := r.Read(tlv.val)
-	if err != nil {
-		return nil, err
-	} else if uint16(l) != tlv.Length() {
-		return tlv, ErrTLVRead
+	if _, err = io.ReadFull(r, tlv.val); err != nil {
+		return nil, ErrTLVRead
 	}
 
 	return tlv, nil
-- 
2.43.0


From 4f6200558dd9bf4404f12d1c4e752da18c5e37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:37 +0000
Subject: [PATCH 21/49] fix: 64-bit ids stay unique and increasing when the
 clock is set back

---
 utils/snowflake/snowflake.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils/snowflake/snowflake.go b/utils/snowflake/snowflake.go
index fb92cc3..0b0d8aa 100644
--- a/utils/snowflake/snowflake.go
+++ b/utils/snowflake/snowflake.go
@@ -36,10 +36,18 @@ func (s *Snowflake) NextVal() int64 {
 	s.Lock()
 	defer s.Unlock()
 	now := time.Now().UnixNano() / 1000000 // 转毫秒
+	back := now < s.timestamp
+	if back {
+		// 时钟回拨时沿用上次的时间戳，保证序号不重复且递增
+		now = s.timestamp
+	}
 	if s.timestamp == now {
 		// 当同一时间戳（精度：毫秒）下多次生成id会增加序列号
 		s.sequence = (s.sequence + 1) & sequenceMask
-		if s.sequence == 0 {
+		if s.sequence == 0 && back {
+			// 时钟回拨期间序列用尽，不等待时钟追上，直接借用下一毫秒
+			now = s.timestamp + 1
+		} else if s.sequence == 0 {
 			// 如果当前序列超出12bit长度，则需要等待下一毫秒
 			// 下一毫秒将使用sequence:0
 			for now <= s.timestamp {
-- 
2.43.0


From 5af96ba1f01fa84adfc9eca5a512a41b0a9bc25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:37 +0000
Subject: [PATCH 22/49] fix: 32-bit snowflake ids stay unique when the clock is
 set back or a day ends

---
 utils/snowflake32/snowflake32.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/utils/snowflake32/snowflake32.go b/utils/snowflake32/snowflake32.go
index 1e8c2f9..dcaad31 100644
--- a/utils/snowflake32/snowflake32.go
+++ b/utils/snowflake32/snowflake32.go
@@ -26,6 +26,7 @@ const (
 	workerShift     = sequenceBits                               // 机器id左移位数
 	datacenterShift = sequenceBits + workerBits                  // 数据中心id左移位数
 	timestampShift  = sequenceBits + workerBits + datacenterBits // 时间戳左移位数
+	daySeconds      = int32(24 * 3600)                           // 一天的秒数
 )
 
 // NewSnowflake d for datacenter-id, w for worker-id
@@ -37,13 +38,21 @@ func (s *Snowflake) NextVal() int32 {
 	s.Lock()
 	defer s.Unlock()
 	now := passedSeconds() // 获得当前秒
+	back := isBefore(now, s.seconds)
+	if back {
+		// 时钟回拨时沿用上次的时间戳，保证序号不重复且递增
+		now = s.seconds
+	}
 	if s.seconds == now {
 		// 当同一时间戳（精度：秒）下次生成id会增加序列号
 		s.sequence = (s.sequence + 1) & sequenceMask
-		if s.sequence == 0 {
+		if s.sequence == 0 && back {
+			// 时钟回拨期间序列用尽，不等待时钟追上，直接借用下一秒
+			now = (s.seconds + 1) % daySeconds
+		} else if s.sequence == 0 {
 			// 如果当前序列超出9bit长度，则需要等待下一秒
 			// 下一秒将使用sequence:0
-			for now <= s.seconds {
+			for now == s.seconds || isBefore(now, s.seconds) {
 				time.Sleep(time.Microsecond)
 				now = passedSeconds()
 			}
@@ -86,6 +95,11 @@ func (s *Snowflake) Sequence() int32 {
 	return s.sequence
 }
 
+// isBefore 判断a是否早于b，相差超过半天的视为跨越了午夜
+func isBefore(a, b int32) bool {
+	return (a < b && b-a < daySeconds/2) || (a > b && a-b > daySeconds/2)
+}
+
 func passedSeconds() int32 {
 	t := time.Now()
 	return int32(t.Hour()*3600 + t.Minute()*60 + t.Second())
-- 
2.43.0


From 1bb64d2bfe15a317f3dd4c8d7b933dd8282842b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 23/49] fix: closing a busy session no longer blocks or panics
 its requests in progress

---
 msc_server/server/on_close.go |  4 ++--
 msc_server/server/session.go  | 15 +++++----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index 5da66dc..04bf234 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -32,8 +32,8 @@ func deferFunc(c gnet.Conn, s *Server, sc *session) {
 	sc.Lock()
 	sc.stat = StatClosing
 	sc.Unlock()
-	sc.closeResource() // 关闭通道，释放线程池
+	sc.closeResource() // 释放线程池
 	s.removeSession(sc)
 	c.SetContext(nil)
-	sc.conn = nil
+	// 处理中的请求、定时任务仍会使用 sc.conn，不能置空
 }
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 543e6b7..f4d00f5 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -93,7 +93,6 @@ func (s *session) completeLogin(ac *codec.AuthConf) {
 	s.ver = ac.Version
 	s.clientId = ac.ClientId
 	s.lastUseTime = time.Now()
-	s.closeResource()
 	s.window = make(chan struct{}, ac.MtWindowSize)
 	s.pool = createSessionSidePool(ac.MtWindowSize * 2)
 	s.setupLimiter(ac)
@@ -110,21 +109,16 @@ func (s *session) setupLimiter(ac *codec.AuthConf) {
 	s.limiter = rate.NewLimiter(limit, cap(s.window))
 }
 
-// 关闭通道和线程池
+// 关闭线程池
 func (s *session) closeResource() {
 	if s == nil {
 		return
 	}
 
-	if s.window != nil {
-		close(s.window)
-		s.window = nil
-	}
+	// 仍在处理中的请求会继续使用窗口通道，故不关闭通道也不置空，处理完后由GC回收
 	if s.pool != nil {
 		s.pool.Release()
-		s.pool = nil
 	}
-	s.limiter = nil
 }
 
 func (s *session) Window() chan struct{} {
@@ -189,8 +183,9 @@ func (s *session) LogSession(size ...int) []log.Field {
 		cliName = "not login"
 	}
 	remote := "closed"
-	if s.conn != nil {
-		remote = s.conn.RemoteAddr().String()
+	// 连接关闭后 RemoteAddr 返回 nil
+	if addr := s.conn.RemoteAddr(); addr != nil {
+		remote = addr.String()
 	}
 	return append(ret,
 		log.String(SrvName, s.serverName),
-- 
2.43.0


From f3fbd825e1278a1854bf7c8ad3eeb99f02a4fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:27 +0000
Subject: [PATCH 24/49] fix: sessions of an account removed after login keep
 being answered

---
 msc_server/server/cmpp_submit.go | 4 ++++
 msc_server/server/sgip_submit.go | 4 ++++
 msc_server/server/smgp_submit.go | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index e446a4d..f5348e5 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -92,6 +92,10 @@ func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 func cmppSubmitPacketCheck(s *session, mt *cmpp.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	if cli == nil {
+		// 登录后账号被移除，已建立的会话不受影响
+		return 0, nil
+	}
 	check := strings.HasPrefix(mt.SrcId(), cli.SmsDisplayNo)
 	if check {
 		check = mt.MsgLevel() < 10
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index ce53561..e3032c6 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -88,6 +88,10 @@ func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 func sgipSubmitPacketCheck(s *session, mt *sgip.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	if cli == nil {
+		// 登录后账号被移除，已建立的会话不受影响
+		return 0, nil
+	}
 	check := strings.HasPrefix(mt.SPNumber, cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority < 10
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index 29e8bba..b3fe452 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -93,6 +93,10 @@ func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 func smgpSubmitPacketCheck(s *session, mt *smgp.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	if cli == nil {
+		// 登录后账号被移除，已建立的会话不受影响
+		return 0, nil
+	}
 	check := strings.HasPrefix(mt.SrcTermID(), cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority() < 4
@@ -110,6 +114,10 @@ func mockSendSmgpReport(sc *session, sub *smgp.Submit, msgId []byte) {
 	msg := fmt.Sprintf("[%s] OnTraffic %s", sc.serverName, SD)
 
 	cli := msc.FindAuthConf(sc.serverName, sc.clientId)
+	if cli == nil {
+		// 登录后账号被移除，已建立的会话不受影响
+		cli = &codec.AuthConf{ClientId: sc.clientId, Version: sc.ver}
+	}
 	dly := smgp.NewDeliveryReport(cli, sub, uint32(codec.B32Seq.NextVal()), msgId)
 	// 模拟状态报告发送前的耗时
 	ms := msc.ConfigYml.GetInt("Server.Mock.FixReportRespMs")
-- 
2.43.0


From ca6cc94711e31db37223974c794f63484a7f73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 25/49] fix: heartbeats, terminates and deliveries of a tick
 are not dropped and do not block the event loop

---
 msc_server/server/on_tick.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index 45e6dc6..b7127e5 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -72,7 +72,7 @@ func closeCheck(s *Server, sc *session) bool {
 }
 
 func activeTest(s *Server, sc *session) {
-	_ = s.goPool.Submit(func() {
+	go func() {
 		// 如果使用时间在1分钟前则发送心跳
 		if sc.lastUseTime.Add(time.Minute).Before(time.Now()) {
 			msg := fmt.Sprintf("[%s] OnTick %s", s.name, SD)
@@ -104,7 +104,7 @@ func activeTest(s *Server, sc *session) {
 				log.Error(msg, FlatMapLog(sc.LogSession(), []log.Field{SErrField(err.Error())})...)
 			}
 		}
-	})
+	}()
 }
 
 // 模拟发送随机上行短信
@@ -136,7 +136,7 @@ func mockDelivery(s *Server, sc *session) {
 	}
 	subNo := csl[0]
 	text := csl[1]
-	_ = s.goPool.Submit(func() {
+	go func() {
 		msg := fmt.Sprintf("[%s] OnTick %s", s.name, SD)
 		var dly codec.RequestPdu
 		var seq = uint32(codec.B32Seq.NextVal())
@@ -161,11 +161,11 @@ func mockDelivery(s *Server, sc *session) {
 		} else {
 			log.Error(msg, FlatMapLog(sc.LogSession(), []log.Field{SErrField(err.Error())})...)
 		}
-	})
+	}()
 }
 
 func sendTerminate(s *Server, sc *session) {
-	_ = s.goPool.Submit(func() {
+	go func() {
 		msg := fmt.Sprintf("[%s] OnTick %s", s.name, SD)
 		var term codec.RequestPdu
 		var seq = uint32(codec.B32Seq.NextVal())
@@ -180,9 +180,8 @@ func sendTerminate(s *Server, sc *session) {
 		pack := term.Encode()
 		err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 			_ = sc.Conn().Flush()
-			// 给对方预留1秒钟响应连接关闭事件
-			time.Sleep(time.Second)
-			_ = sc.Conn().Close()
+			// 给对方预留1秒钟响应连接关闭事件，此处不能阻塞 event-loop
+			time.AfterFunc(time.Second, func() { _ = sc.Conn().Close() })
 			return nil
 		})
 		if err == nil {
@@ -190,5 +189,5 @@ func sendTerminate(s *Server, sc *session) {
 		} else {
 			log.Error(msg, FlatMapLog(sc.LogSession(), []log.Field{SErrField(err.Error())})...)
 		}
-	})
+	}()
 }
-- 
2.43.0


From 4d644852206e4807a91591d1a420fb020ef6a286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 26/49] fix: decode CMPP deliver responses with the session's
 protocol version

---
 msc_server/server/cmpp_delivery_resp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 8eb9df6..5e2d689 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -20,7 +20,7 @@ var cmppDeliveryResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.
 		return false, gnet.Close
 	}
 
-	pdu := &cmpp.DeliveryRsp{}
+	pdu := &cmpp.DeliveryRsp{Version: cmpp.Version(sc.ver)}
 	err := pdu.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
-- 
2.43.0


From 0502617a604cd67f35a70897add470ffd90243e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:49 +0000
Subject: [PATCH 27/49] fix: quote the BCD gateway code, which YAML read as an
 octal number

---
 msc_client/config/config.yaml | 2 +-
 msc_server/config/config.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/config/config.yaml b/msc_client/config/config.yaml
index 9a6df02..0a1f8c4 100644
--- a/msc_client/config/config.yaml
+++ b/msc_client/config/config.yaml
@@ -57,7 +57,7 @@ Snowflake: # 类雪花算法序号生成器配置
   B32:
     DC: 0         # 2bits 0-3
     Worker: 7     # 3bits 0-7
-  BCD: 010203     # 3字节（BCD 码，取值 6位十进制数）
+  BCD: "010203"   # 3字节（BCD 码，取值 6位十进制数）
   SGIP: 3037196688 # SP的编号规则:3AAAAQQQQQ，其中, AAAA表示四位长途区号(不足四位的长途区号，左对齐，右补零),QQQQQ表示5位企业代码。
 
 Logs:
diff --git a/msc_server/config/config.yaml b/msc_server/config/config.yaml
index b8f7b92..6292af8 100644
--- a/msc_server/config/config.yaml
+++ b/msc_server/config/config.yaml
@@ -52,7 +52,7 @@ Snowflake: # 类雪花算法序号生成器配置
   B32:
     DC: 0         # 2bits 0-3
     Worker: 7     # 3bits 0-7
-  BCD: 010203     # 3字节（BCD 码，取值 6位十进制数）
+  BCD: "010203"   # 3字节（BCD 码，取值 6位十进制数）
   SGIP: 3037196688
 
 Logs:
-- 
2.43.0


From 160e98da092544f8fb7ce201d0dc1ccfadd2babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 28/49] fix: a CMPP connect response's four-octet status is
 read completely

---
 codec/cmpp/connect.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index ef216ac..ae5a7d4 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -183,10 +183,12 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 
 	var index int
 	if V30.MajorMatchV(r.Version) {
-		index += 3
+		r.status = ConnStatus(binary.BigEndian.Uint32(frame[0:4]))
+		index += 4
+	} else {
+		r.status = ConnStatus(frame[0])
+		index += 1
 	}
-	r.status = ConnStatus(frame[index])
-	index += 1
 	r.authenticatorISMG = frame[index : index+16]
 	index += 16
 	r.Version = Version(frame[index])
@@ -224,7 +226,7 @@ func (r *ConnectResp) Status() ConnStatus {
 	return r.status
 }
 
-type ConnStatus byte
+type ConnStatus uint32
 
 const (
 	ConnStatusOK ConnStatus = iota
-- 
2.43.0


From edbfad491f39b883732448d866132bcb65adf9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 29/49] fix: printing a decoded SMGP submit part shorter than
 six octets panicked

---
 codec/smgp/submit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 8e19de0..ee6ca01 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -216,8 +216,8 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 
 func (s *Submit) String() string {
 	bts := s.msgContent
-	if s.msgLength > 6 {
-		bts = s.msgContent[:6]
+	if len(bts) > 6 {
+		bts = bts[:6]
 	}
 	return fmt.Sprintf("{ header: %s, msgType: %v, NeedReport: %v, LruPriority: %v, ServiceID: %v, "+
 		"feeType: %v, feeCode: %v, fixedFee: %v, msgFormat: %v, validTime: %v, AtTime: %v, SrcTermID: %v, "+
-- 
2.43.0


From a9c7e0be04937ab4510492f012f77f7cea94071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 30/49] fix: an SGIP bind response decoded with its reserve
 lost its status when encoded

---
 codec/sgip/bind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index c24be7d..fb2fae9 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -100,7 +100,7 @@ type BindRsp struct {
 
 func (r *BindRsp) Encode() []byte {
 	frame := r.MessageHeader.Encode()
-	if len(frame) == BindRspPkgLen && r.PacketLength == BindRspPkgLen {
+	if len(frame) >= BindRspPkgLen {
 		frame[20] = byte(r.Status)
 	}
 	return frame
-- 
2.43.0


From d164a27450f3c70c1897594cc7f85c4881b57590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 31/49] fix: concurrent registrations of one event key could
 all succeed

---
 event_manager/event_manage.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 1133ec7..0356f52 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -62,13 +62,12 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if !strings.HasPrefix(key, m.prefix) {
 		key = m.prefix + key
 	}
-	// 判断key下是否已有事件
-	if _, exists := m.Get(key); exists == false {
-		sMap.Store(key, func(args ...any) {
-			for _, fn := range events {
-				fn()
-			}
-		})
+	// 判断key下是否已有事件，判断与保存必须是原子的
+	if _, exists := sMap.LoadOrStore(key, func(args ...any) {
+		for _, fn := range events {
+			fn()
+		}
+	}); exists == false {
 		return true
 	} else {
 		log.Info(ErrorsFuncEventAlreadyExists + " , 相关键名：" + key)
-- 
2.43.0


From 10d6e974113d2a2d6ffd7b5ebc77447ea22fc7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 32/49] fix: event handlers receive the arguments of the call

---
 event_manager/event_manage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 0356f52..1b1a565 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -65,7 +65,7 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	// 判断key下是否已有事件，判断与保存必须是原子的
 	if _, exists := sMap.LoadOrStore(key, func(args ...any) {
 		for _, fn := range events {
-			fn()
+			fn(args...)
 		}
 	}); exists == false {
 		return true
@@ -94,7 +94,7 @@ func (m *eventManage) Call(key string, args ...interface{}) {
 	}
 	if fn, exists := m.Get(key); exists {
 		log.Infof("Call: %#v, Key: %s", fn, key)
-		fn(args)
+		fn(args...)
 		log.Infof("Done: %#v, Key: %s", fn, key)
 
 	} else {
-- 
2.43.0


From 5600ff3202ccbd9d360dc4592f5a770acf7029d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 33/49] fix: a second graceful shutdown blocked when a cancel
 signal was not taken yet

---
 event_manager/event_manage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 1b1a565..e9fa5e2 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -39,7 +39,10 @@ func RegisterShutdownHooker(key string, hookers ...Event) bool {
 func RegisterShutdownHookerAddChan(key string, events ...Event) <-chan bool {
 	cancel := make(chan bool, 1)
 	events = append(events, func(args ...any) {
-		cancel <- true
+		select {
+		case cancel <- true:
+		default: // 信号尚未被取走，无需重复发送
+		}
 	})
 	ok := RegisterShutdownHooker(key, events...)
 	if !ok {
-- 
2.43.0


From e34ced75d9ef912d36343fceed2d0728936352f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 34/49] fix: account files are found by their id's own letter
 case, and a stray file does not panic the loader

---
 auth/yaml_store.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index 5701994..d08f092 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -37,15 +37,19 @@ func (y *YamlStore) Load() {
 		if strings.HasSuffix(f.Name(), ".yml") {
 			key = f.Name()[:len(f.Name())-4]
 		}
-		if "" == key {
+		// 名称由协议标识和客户端ID组成，其他文件不是客户端配置，协议标识不区分大小写
+		sep := strings.Index(key, "_")
+		if sep < 1 {
+			log.Warnf("Not a client config file, skip: %s", f.Name())
 			continue
 		}
+		key = strings.ToLower(key[:sep]) + key[sep:]
 		data, err := ioutil.ReadFile(dir + f.Name())
 		if err != nil {
 			log.Fatalf("Config file init error: %v", err)
 		}
 
-		unmarshal(data, strings.ToLower(key), y)
+		unmarshal(data, key, y)
 	}
 }
 
@@ -65,7 +69,7 @@ func unmarshal(data []byte, id string, y *YamlStore) {
 	if err != nil {
 		log.Errorf("Config file init error: %v", err)
 	} else {
-		cli.ISP = id[0:4]
+		cli.ISP = id[:strings.Index(id, "_")]
 		y.Cache[id] = cli
 	}
 }
-- 
2.43.0


From 2f0ea0f5b34cd6d5bc94b374dfc68055596b3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 35/49] fix: a file or directory that cannot be read during a
 reload no longer ends the process

---
 auth/yaml_store.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index d08f092..10db8a7 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -21,6 +21,11 @@ func (y *YamlStore) Load() {
 	dir = y.Config.BasePath() + dir
 	fs, err := ioutil.ReadDir(dir)
 	if err != nil {
+		if len(y.Cache) > 0 {
+			// 重新加载失败时，保留已加载的配置
+			log.Errorf("Config file reload error: %v", err)
+			return
+		}
 		log.Fatalf("Config file init error: %v", err)
 	}
 
@@ -46,7 +51,8 @@ func (y *YamlStore) Load() {
 		key = strings.ToLower(key[:sep]) + key[sep:]
 		data, err := ioutil.ReadFile(dir + f.Name())
 		if err != nil {
-			log.Fatalf("Config file init error: %v", err)
+			log.Errorf("Config file init error: %v", err)
+			continue
 		}
 
 		unmarshal(data, key, y)
-- 
2.43.0


From 77cce8c7decfad1b79a1e97266a6459bea157f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 36/49] fix: accounts whose file was removed stay valid after a
 reload, and a reload is seen half done

---
 auth/yaml_store.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index 10db8a7..78193ef 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -2,6 +2,7 @@ package auth
 
 import (
 	"io/ioutil"
+	"os"
 	"strings"
 
 	"github.com/hrygo/log"
@@ -20,8 +21,11 @@ func (y *YamlStore) Load() {
 	}
 	dir = y.Config.BasePath() + dir
 	fs, err := ioutil.ReadDir(dir)
+	y.Lock()
+	old := y.Cache
+	y.Unlock()
 	if err != nil {
-		if len(y.Cache) > 0 {
+		if len(old) > 0 {
 			// 重新加载失败时，保留已加载的配置
 			log.Errorf("Config file reload error: %v", err)
 			return
@@ -29,6 +33,8 @@ func (y *YamlStore) Load() {
 		log.Fatalf("Config file init error: %v", err)
 	}
 
+	// 全部加载完成后再整体替换，已删除的客户端不再有效
+	cache := make(map[string]*Client, len(fs))
 	for _, f := range fs {
 		f := f
 		if f.IsDir() {
@@ -52,11 +58,23 @@ func (y *YamlStore) Load() {
 		data, err := ioutil.ReadFile(dir + f.Name())
 		if err != nil {
 			log.Errorf("Config file init error: %v", err)
+			if cli := old[key]; cli != nil && !os.IsNotExist(err) {
+				cache[key] = cli
+			}
 			continue
 		}
 
-		unmarshal(data, key, y)
+		if cli := unmarshal(data, key); cli != nil {
+			cache[key] = cli
+		} else if cli = old[key]; cli != nil {
+			// 内容有误时，沿用上一次加载的配置
+			cache[key] = cli
+		}
 	}
+
+	y.Lock()
+	defer y.Unlock()
+	y.Cache = cache
 }
 
 func (y *YamlStore) FindByCid(isp string, cid string) *Client {
@@ -66,16 +84,13 @@ func (y *YamlStore) FindByCid(isp string, cid string) *Client {
 	return client
 }
 
-func unmarshal(data []byte, id string, y *YamlStore) {
-	y.Lock()
-	defer y.Unlock()
-
+func unmarshal(data []byte, id string) *Client {
 	cli := &Client{}
 	err := yaml.Unmarshal(data, cli)
 	if err != nil {
 		log.Errorf("Config file init error: %v", err)
-	} else {
-		cli.ISP = id[:strings.Index(id, "_")]
-		y.Cache[id] = cli
+		return nil
 	}
+	cli.ISP = id[:strings.Index(id, "_")]
+	return cli
 }
-- 
2.43.0


From 3b3cad3ce018e9fcafd646cc298fd20a679c574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 37/49] fix: the client's login reads its whole answer and
 closes the connection when it fails

---
 msc_client/session/session.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 00ff0bd..32295d5 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"sync"
 	"time"
@@ -49,6 +50,7 @@ func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 	err := sc.login()
 	if err != nil {
 		log.Error("create session error: " + err.Error())
+		_ = con.Close()
 		return nil
 	}
 	sc.cancel = make(chan struct{}, 1)
@@ -196,14 +198,22 @@ func (s *Session) login() error {
 	log.Info(fmt.Sprintf("[%s] Send login to %v.", s.serverName, s.con.RemoteAddr()), pdu.Log()...)
 
 	data := make([]byte, respLen)
-	n, err := s.con.Read(data[:])
-	if err != nil || n != respLen {
+	_, err = io.ReadFull(s.con, data[:12])
+	if err != nil {
 		return err
 	}
 
 	var pkl = binary.BigEndian.Uint32(data[:4])
-	if pkl != uint32(n) {
-		return errors.New(fmt.Sprintf("[%s] Packet length error: expect %d, got %d", s.serverName, n, pkl))
+	if s.serverName == SGIP && pkl == uint32(respLen)+8 {
+		// 带8字节保留字段的应答
+		data = append(data, make([]byte, 8)...)
+	}
+	if pkl != uint32(len(data)) {
+		return errors.New(fmt.Sprintf("[%s] Packet length error: expect %d, got %d", s.serverName, len(data), pkl))
+	}
+	_, err = io.ReadFull(s.con, data[12:])
+	if err != nil {
+		return err
 	}
 	var cmd = binary.BigEndian.Uint32(data[4:8])
 	var seq = binary.BigEndian.Uint32(data[8:12])
-- 
2.43.0


From 6f0ea1c9825abf3724593af05d9124ebe4e2cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 38/49] fix: the client's receiver reassembles packets that
 arrive in several segments

---
 msc_client/session/session.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 32295d5..a3e1567 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -119,8 +119,8 @@ func (s *Session) startReceiver() {
 						return
 					}
 					head := make([]byte, 12)
-					n, err := s.con.Read(head)
-					if n != 12 || err != nil {
+					_, err := io.ReadFull(s.con, head)
+					if err != nil {
 						log.Errorf("[%s] Read Packet Head error: %v. Session closing...", s.serverName, err)
 						s.Close()
 						return
@@ -139,8 +139,8 @@ func (s *Session) startReceiver() {
 					var bodyLen = int(pkl) - 12
 					if bodyLen > 0 {
 						buff = make([]byte, bodyLen)
-						n, err = s.con.Read(buff)
-						if n != bodyLen || err != nil {
+						_, err = io.ReadFull(s.con, buff)
+						if err != nil {
 							log.Errorf("[%s] Read Packet Body error: %v. Session closing...", s.serverName, err)
 							s.Close()
 							return
-- 
2.43.0


From 2d77d9c0b8fee5e48a69bb48073f90b2adaefd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 39/49] fix: closing a client session from several threads
 neither blocks nor panics, also while it is in use

---
 msc_client/session/on_traffic_cmpp.go |  2 +-
 msc_client/session/on_traffic_sgip.go |  2 +-
 msc_client/session/on_traffic_smgp.go |  2 +-
 msc_client/session/session.go         | 39 ++++++++++++++++++++-------
 4 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 0eabd81..8c13d26 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -34,7 +34,7 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index e1163d1..953ee61 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -34,7 +34,7 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 
 func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index dffad5a..d2ca170 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -34,7 +34,7 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index a3e1567..0ffae4b 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -46,21 +46,22 @@ const (
 
 // NewSession 创建一个新会话并登录，且启动定时器和接收服务
 func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
-	sc := &Session{con: con, authConf: ac, serverName: isp, stat: StatConnect}
+	sc := &Session{con: con, authConf: ac, serverName: isp, stat: StatConnect, cancel: make(chan struct{}, 1)}
 	err := sc.login()
 	if err != nil {
 		log.Error("create session error: " + err.Error())
 		_ = con.Close()
 		return nil
 	}
-	sc.cancel = make(chan struct{}, 1)
-	sc.startReceiver()
 	sc.createTime = time.Now()
-	sc.activeTime = time.Now()
+	sc.activeTime = sc.createTime
+	sc.startReceiver()
 	return sc
 }
 
 func (s *Session) ResetCounter() {
+	s.Lock()
+	defer s.Unlock()
 	s.periodCounter = 0
 }
 
@@ -82,24 +83,35 @@ func (s *Session) LruPriority() uint64 {
 	if !s.HealthCheck() {
 		return 0
 	}
+	s.Lock()
+	defer s.Unlock()
 	return 1e10 - s.periodCounter
 }
 
+// Close 关闭会话，可由任意协程重复调用
 func (s *Session) Close() {
-	if s == nil || s.stat == StatClosing {
+	if s == nil {
 		return
 	}
 
 	s.Lock()
 	defer s.Unlock()
+	if s.stat == StatClosing {
+		return
+	}
 
 	// 关闭连接
 	s.stat = StatClosing
 	_ = s.con.Close()
 	// 发送取消信号
 	s.cancel <- struct{}{}
-	s.con = nil
-	s.authConf = nil
+}
+
+// touch 更新活跃时间
+func (s *Session) touch() {
+	s.Lock()
+	defer s.Unlock()
+	s.activeTime = time.Now()
 }
 
 // startReceiver 启动接收服务
@@ -271,10 +283,16 @@ func (s *Session) login() error {
 }
 
 func (s *Session) HealthCheck() bool {
-	ok := s != nil && s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
+	if s == nil {
+		return false
+	}
+	s.Lock()
+	ok := s.stat == StatLogin
+	idle := s.activeTime.Add(time.Minute).Before(time.Now())
+	s.Unlock()
 
 	// 活跃状态为1分钟前，则发送心跳验证
-	if ok && s.activeTime.Add(time.Minute).Before(time.Now()) {
+	if ok && idle {
 		err := s.ActiveTest()
 		if err != nil {
 			return false
@@ -303,7 +321,8 @@ func (s *Session) ActiveTest() error {
 		log.Info(msg, active.Log()...)
 	} else {
 		log.Error(msg + err.Error())
-		return nil
+		s.Close()
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From b4e46ab52c5e4358dddeed0fb8492482b7f2148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 40/49] fix: a malformed answer from the gateway no longer
 panics the client

---
 msc_client/session/on_traffic_cmpp.go |  6 +++++-
 msc_client/session/on_traffic_sgip.go | 26 +++++++++++++++++++++-----
 msc_client/session/on_traffic_smgp.go |  6 +++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 8c13d26..bdd7a21 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -43,9 +43,12 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		resp := &cmpp.ConnectResp{Version: cmpp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
 		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != cmpp.ConnStatusOK {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+		} else if resp.Status() != cmpp.ConnStatusOK {
+			log.Errorf("[%s] Login error with return \"%s\"", s.serverName, resp.Status().String())
+			s.Close()
 		}
 	case cmpp.CMPP_ACTIVE_TEST:
 		act := &cmpp.ActiveTest{}
@@ -82,6 +85,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
 		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
 		if ok {
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 953ee61..07eb279 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -42,14 +42,24 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 	case sgip.SGIP_BIND_RESP:
 		resp := &sgip.BindRsp{}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status != sgip.Status(0) {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status != sgip.Status(0) {
+			log.Errorf("[%s] Login error with return \"%s\"", s.serverName, resp.Status.String())
+			s.Close()
 		}
 	case sgip.SGIP_UNBIND:
 		term := &sgip.Unbind{}
-		_ = term.Decode(seq, buff)
+		err := term.Decode(seq, buff)
+		if err != nil {
+			log.Error(err.Error())
+			s.Close()
+			return
+		}
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
 		_, _ = s.con.Write(resp.Encode())
@@ -57,17 +67,23 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		s.Close()
 	case sgip.SGIP_UNBIND_RESP:
 		term := &sgip.UnbindRsp{}
-		_ = term.Decode(seq, buff)
+		err := term.Decode(seq, buff)
+		if err != nil {
+			log.Error(err.Error())
+			s.Close()
+			return
+		}
 		log.Info(receive, term.Log()...)
 		s.Close()
 	case sgip.SGIP_SUBMIT_RESP:
 		sub := &sgip.SubmitRsp{}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
 			mtr := result.(*Result)
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index d2ca170..e712821 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -43,9 +43,12 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		resp := &smgp.LoginRsp{Version: smgp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
 		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != smgp.Status(0) {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+		} else if resp.Status() != smgp.Status(0) {
+			log.Errorf("[%s] Login error with return \"%s\"", s.serverName, resp.Status().String())
+			s.Close()
 		}
 	case smgp.SMGP_ACTIVE_TEST:
 		act := &smgp.ActiveTest{}
@@ -82,6 +85,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
 		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
 		if ok {
-- 
2.43.0


From ac651bc38384cf4b7549563e3ce122c0a97ec030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 41/49] fix: answers and reports reach the result of their own
 part, in whatever order they arrive

---
 msc_client/session/on_traffic_cmpp.go | 34 +++++--------
 msc_client/session/on_traffic_sgip.go | 26 ++++------
 msc_client/session/on_traffic_smgp.go | 34 +++++--------
 msc_client/session/send_sms.go        | 69 +++++++++++++++++++++++++++
 4 files changed, 101 insertions(+), 62 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index bdd7a21..9e32bad 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -15,20 +15,22 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := cmpp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*cmpp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 响应可能在Write返回前到达，因此先行登记
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			return
 		}
-		mtt := mt.(*cmpp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
@@ -87,15 +89,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			s.Close()
 			return
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
-		if ok {
-			mtr := result.(*Result)
-			mtr.Result = sub.Result()
-			mtr.MsgId = utils.Uint64HexString(sub.MsgId())
-			mtr.ResponseTime = time.Now()
-			// 已msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
-		}
+		answered(uint64(sub.SequenceId), sub.Result(), utils.Uint64HexString(sub.MsgId()))
 	case cmpp.CMPP_DELIVER:
 		dly := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
@@ -118,13 +112,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			if rpt == nil {
 				return
 			}
-			key := utils.Uint64HexString(rpt.MsgId())
-			val, ok := MsgIdResultCacheMap.Load(key)
-			if ok {
-				mtr := val.(*Result)
-				mtr.Report = rpt.Stat()
-				mtr.ReportTime = time.Now()
-			}
+			reported(utils.Uint64HexString(rpt.MsgId()), rpt.Stat())
 		}
 	}
 }
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 07eb279..4f22de7 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -14,20 +14,22 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := sgip.NewSubmit(s.authConf, []string{phone}, message, options...)
 	for _, mt := range mts {
+		mtt := mt.(*sgip.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = mtt.Sequence2Uint64()
+		r.Phone = phone
+		// 响应可能在Write返回前到达，因此先行登记
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			return
 		}
-		mtt := mt.(*sgip.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = mtt.Sequence2Uint64()
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
@@ -84,14 +86,6 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 			return
 		}
 		log.Debug(receive, sub.Log()...)
-		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
-		if ok {
-			mtr := result.(*Result)
-			mtr.Result = uint32(sub.Status)
-			mtr.MsgId = sub.Sequence2String()
-			mtr.ResponseTime = time.Now()
-			// 以msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
-		}
+		answered(sub.Sequence2Uint64(), uint32(sub.Status), sub.Sequence2String())
 	}
 }
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index e712821..1e55d62 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -15,20 +15,22 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := smgp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*smgp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 响应可能在Write返回前到达，因此先行登记
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			return
 		}
-		mtt := mt.(*smgp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
@@ -87,15 +89,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			s.Close()
 			return
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
-		if ok {
-			mtr := result.(*Result)
-			mtr.Result = uint32(sub.Status())
-			mtr.MsgId = hex.EncodeToString(sub.MsgId())
-			mtr.ResponseTime = time.Now()
-			// 已msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
-		}
+		answered(uint64(sub.SequenceId), uint32(sub.Status()), hex.EncodeToString(sub.MsgId()))
 	case smgp.SMGP_DELIVER:
 		dly := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
@@ -118,13 +112,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			if rpt == nil {
 				return
 			}
-			key := hex.EncodeToString(rpt.Id())
-			val, ok := MsgIdResultCacheMap.Load(key)
-			if ok {
-				mtr := val.(*Result)
-				mtr.Report = rpt.Stat()
-				mtr.ReportTime = time.Now()
-			}
+			reported(hex.EncodeToString(rpt.Id()), rpt.Stat())
 		}
 	}
 }
diff --git a/msc_client/session/send_sms.go b/msc_client/session/send_sms.go
index 2b72355..9200b30 100644
--- a/msc_client/session/send_sms.go
+++ b/msc_client/session/send_sms.go
@@ -25,6 +25,75 @@ var SequenceIdResultCacheMap sync.Map
 // MsgIdResultCacheMap 临时存储短信发送的返回结果数据，Key为msgId,value为*Result，后续采用数据库存储
 var MsgIdResultCacheMap sync.Map
 
+// resultLock 发送结果由发送、接收与查询的协程共用，读写其内容时需持有此锁
+var resultLock sync.Mutex
+
+// earlyReports 先于网关响应到达的状态报告，Key为msgId
+var earlyReports = make(map[string]earlyReport)
+
+type earlyReport struct {
+	stat string
+	time time.Time
+}
+
+// answered 记录网关对一次发送的响应
+func answered(sequenceId uint64, status uint32, msgId string) {
+	resultLock.Lock()
+	defer resultLock.Unlock()
+	value, ok := SequenceIdResultCacheMap.Load(sequenceId)
+	if !ok {
+		return
+	}
+	r := value.(*Result)
+	r.Result = status
+	r.MsgId = msgId
+	r.ResponseTime = time.Now()
+	// 以msgId为Key存储到内存缓存
+	MsgIdResultCacheMap.Store(msgId, r)
+	if rpt, ok := earlyReports[msgId]; ok {
+		delete(earlyReports, msgId)
+		r.Report = rpt.stat
+		r.ReportTime = rpt.time
+	}
+}
+
+// reported 记录一条状态报告，它可能先于网关响应到达
+func reported(msgId string, stat string) {
+	resultLock.Lock()
+	defer resultLock.Unlock()
+	value, ok := MsgIdResultCacheMap.Load(msgId)
+	if !ok {
+		earlyReports[msgId] = earlyReport{stat: stat, time: time.Now()}
+		return
+	}
+	r := value.(*Result)
+	r.Report = stat
+	r.ReportTime = time.Now()
+}
+
+// ExpireReports 清理到达时间早于 before 且没有对应发送的状态报告
+func ExpireReports(before time.Time) {
+	resultLock.Lock()
+	defer resultLock.Unlock()
+	for key, rpt := range earlyReports {
+		if rpt.time.Before(before) {
+			delete(earlyReports, key)
+		}
+	}
+}
+
+// Snapshot 返回发送结果当前内容的副本
+func Snapshot(results []any) []any {
+	resultLock.Lock()
+	defer resultLock.Unlock()
+	ret := make([]any, 0, len(results))
+	for _, a := range results {
+		r := *a.(*Result)
+		ret = append(ret, &r)
+	}
+	return ret
+}
+
 // Send 发送短信
 func (s *Session) Send(phone string, message string, options ...codec.OptionFunc) []any {
 	switch s.serverName {
-- 
2.43.0


From bdf74cc66363a512acb224e1e28b0961341a3fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 42/49] fix: querying an empty send result no longer panics,
 and results are read consistently

---
 msc_client/api.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/msc_client/api.go b/msc_client/api.go
index a8da77c..90119b1 100644
--- a/msc_client/api.go
+++ b/msc_client/api.go
@@ -42,12 +42,9 @@ func SendN(message string, phones []string, options ...codec.OptionFunc) (queryI
 func Query(queryId int64) []any {
 	value, ok := resultQueryCacheMap.Load(queryId)
 	if ok {
-		result, ok := value.([]any)
-		if ok {
-			_, ok := result[0].(*session.Result)
-			if ok {
-				return result
-			}
+		results, ok := value.([]any)
+		if ok && len(results) > 0 {
+			return session.Snapshot(results)
 		}
 	}
 	return nil
-- 
2.43.0


From 8e9e0466c7d4867bc1eb8c25717e63305a1f1952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 43/49] fix: pending answers and reports leave the client's
 tables when they expire

---
 msc_client/session_factory.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 05e184b..09c992b 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -222,7 +222,7 @@ func cleanQueryCacheMap(asyncHandler func([]any)) {
 }
 
 func cleanRequestIdCacheMap() {
-	expiredKeys := make([]uint64, 0, 32)
+	expiredKeys := make([]any, 0, 32)
 	session.SequenceIdResultCacheMap.Range(func(key, value any) bool {
 		d := ConfigYml.GetDuration("Cache.expire-time")
 		if d == 0 {
@@ -230,7 +230,7 @@ func cleanRequestIdCacheMap() {
 		}
 		result := value.(*session.Result)
 		if result.SendTime.Add(d).Before(time.Now()) {
-			expiredKeys = append(expiredKeys, result.SequenceId)
+			expiredKeys = append(expiredKeys, key)
 		}
 		return true
 	})
@@ -241,15 +241,15 @@ func cleanRequestIdCacheMap() {
 }
 
 func cleanMsgIdCacheMap() {
-	expiredKeys := make([]string, 0, 32)
+	expiredKeys := make([]any, 0, 32)
+	d := ConfigYml.GetDuration("Cache.expire-time")
+	if d == 0 {
+		d = time.Minute
+	}
 	session.MsgIdResultCacheMap.Range(func(key, value any) bool {
-		d := ConfigYml.GetDuration("Cache.expire-time")
-		if d == 0 {
-			d = time.Minute
-		}
 		result := value.(*session.Result)
 		if result.SendTime.Add(d).Before(time.Now()) {
-			expiredKeys = append(expiredKeys, result.MsgId)
+			expiredKeys = append(expiredKeys, key)
 		}
 		return true
 	})
@@ -257,6 +257,8 @@ func cleanMsgIdCacheMap() {
 		key := key
 		session.MsgIdResultCacheMap.Delete(key)
 	}
+	// 找不到对应发送的状态报告也不再保留
+	session.ExpireReports(time.Now().Add(-d))
 }
 
 func (f *SessionFactory) startLruSortTicker() {
-- 
2.43.0


From 1b6cd225793ec7b6ea90666047b957531ad9050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 44/49] fix: no client session stays open or is opened after
 shutdown

---
 msc_client/session_factory.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 09c992b..331945c 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -38,6 +38,7 @@ type SessionFactory struct {
 	serverAddr string
 	authConf   *codec.AuthConf
 	sessions   []*session.Session
+	closed     bool // 已停机，不再创建会话
 	window     chan struct{}
 	limiter    *rate.Limiter
 	regex      *regexp.Regexp
@@ -302,7 +303,7 @@ func (f *SessionFactory) lruSort(cancel <-chan bool) {
 	f.sessions = newSlice
 	f.Unlock()
 
-	for len(f.sessions) < maxConns {
+	for f.isOpen() && len(f.sessions) < maxConns {
 		select {
 		case <-cancel:
 			log.Info("Receive signal and stop create new connects.")
@@ -340,16 +341,32 @@ func (f *SessionFactory) newConnect() {
 		sc := session.NewSession(f.srvName, f.authConf, c)
 		if sc != nil {
 			f.Lock()
+			defer f.Unlock()
+			if f.closed {
+				sc.Close()
+				return
+			}
 			f.sessions = append(f.sessions, sc)
-			f.Unlock()
 		}
 	} else {
 		log.Error(err.Error())
 	}
 }
 
+func (f *SessionFactory) isOpen() bool {
+	f.Lock()
+	defer f.Unlock()
+	return !f.closed
+}
+
 func (f *SessionFactory) RegCloseSessionsHooker() {
 	event_manager.RegisterShutdownHooker(fmt.Sprintf("CloseSessionHooker_%p", f), func(args ...any) {
+		f.Lock()
+		defer f.Unlock()
+		if f.closed {
+			return
+		}
+		f.closed = true
 		close(f.window)
 		for _, sc := range f.sessions {
 			sc.Close()
-- 
2.43.0


From 82d3c5cdb6d0e8ec6b0239ea023c705ac3a1108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 45/49] fix: a message goes out on a healthy session although
 the first of the pool was closed

---
 msc_client/session_factory.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 331945c..0729b27 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -147,18 +147,25 @@ func (f *SessionFactory) PeekSession() *session.Session {
 		return nil
 	}
 
-	if len(f.sessions) > 0 && f.sessions[0] == nil && f.sessions[0].HealthCheck() {
-		return f.sessions[0]
+	for f.isOpen() {
+		if sc := f.firstHealthy(); sc != nil {
+			return sc
+		}
+		time.Sleep(time.Millisecond)
 	}
+	return nil
+}
 
-	var ret *session.Session
-	for ret == nil || !ret.HealthCheck() {
-		time.Sleep(time.Millisecond)
-		if len(f.sessions) > 0 {
-			ret = f.sessions[0]
+// firstHealthy 排序最靠前的正常会话
+func (f *SessionFactory) firstHealthy() *session.Session {
+	f.Lock()
+	defer f.Unlock()
+	for _, sc := range f.sessions {
+		if sc.HealthCheck() {
+			return sc
 		}
 	}
-	return ret
+	return nil
 }
 
 // StartCacheExpireTicker 过期数据定期检查器
-- 
2.43.0


From 95fc52c511c5b9a3dabeafaf10f2227e76dd4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 46/49] fix: without a configured window size the client uses
 the default one instead of dropping every message

---
 msc_client/session_factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 0729b27..b0f7c39 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -119,7 +119,7 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	}
 
 	winSize := ConfigYml.GetInt(isp + ".mt-window-size")
-	if maxConns > 0 {
+	if winSize > 0 {
 		factory.window = make(chan struct{}, winSize)
 	} else {
 		factory.window = make(chan struct{}, 16)
-- 
2.43.0


From 717aea3c4b6015404a5ae3df093fcf80a17ab20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 47/49] fix: concurrent callers create one session pool per
 operator

---
 msc_client/session_factory.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index b0f7c39..c6e4e50 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -50,7 +50,7 @@ func SelectSession(phone string) *session.Session {
 	var fa *SessionFactory
 	for i, factory := range factories {
 		if factory == nil {
-			factory = CreateSessionFactory(ISPS[i])
+			factory = createSessionFactory(ISPS[i])
 			if factory == nil {
 				continue
 			}
@@ -70,6 +70,12 @@ func SelectSession(phone string) *session.Session {
 
 // CreateSessionFactory 创建或获取由isp指定的factory，isp需与sms.yml配置文件对应，否则会引起程序崩溃
 func CreateSessionFactory(isp string) *SessionFactory {
+	mu.Lock()
+	defer mu.Unlock()
+	return createSessionFactory(isp)
+}
+
+func createSessionFactory(isp string) *SessionFactory {
 	isp = strings.ToLower(isp)
 	saved := factories[ISP(isp).Int()]
 	if saved != nil {
-- 
2.43.0


From 35fc7b092f295a1539ede86a26fefe12e4050f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 48/49] fix: a status report too short to decode no longer
 panics when it is logged

---
 codec/cmpp/delivery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index e8a3fb6..60d3c1a 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -225,7 +225,7 @@ func (d *Delivery) Log() []log.Field {
 	if l > 6 {
 		l = 6
 	}
-	if d.registeredDelivery == 1 {
+	if d.registeredDelivery == 1 && d.report != nil {
 		csl = log.String("msgContent", d.report.String())
 	} else {
 		csl = log.String("msgContent", hex.EncodeToString(bs[:l])+"...")
-- 
2.43.0


From 46aa4544b1ec24d1eb85c0f6695b1eda7a12a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:20 +0000
Subject: [PATCH 49/49] fix: 32-bit snowflake ids carry the wrong time all
 afternoon after a start, and after half a day without one

---
 utils/snowflake32/snowflake32.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/utils/snowflake32/snowflake32.go b/utils/snowflake32/snowflake32.go
index dcaad31..bdbf1bf 100644
--- a/utils/snowflake32/snowflake32.go
+++ b/utils/snowflake32/snowflake32.go
@@ -16,6 +16,7 @@ type Snowflake struct {
 	datacenter int32 // 数据中心机房id, 取值范围范围：0-4
 	worker     int32 // 工作节点, 取值范围范围：0-8
 	sequence   int32 // 序列号
+	drawn      int64 // 取号时见过的最晚时刻，秒
 }
 
 const (
@@ -37,8 +38,13 @@ func NewSnowflake(d int32, w int32) *Snowflake {
 func (s *Snowflake) NextVal() int32 {
 	s.Lock()
 	defer s.Unlock()
-	now := passedSeconds() // 获得当前秒
-	back := isBefore(now, s.seconds)
+	t := time.Now()
+	now := secondsOf(t) // 获得当前秒
+	// 首次取号，或者距上次取号已超过半天，都不是时钟回拨
+	back := isBefore(now, s.seconds) && t.Unix()-s.drawn < int64(daySeconds/2)
+	if t.Unix() > s.drawn {
+		s.drawn = t.Unix()
+	}
 	if back {
 		// 时钟回拨时沿用上次的时间戳，保证序号不重复且递增
 		now = s.seconds
@@ -54,7 +60,7 @@ func (s *Snowflake) NextVal() int32 {
 			// 下一秒将使用sequence:0
 			for now == s.seconds || isBefore(now, s.seconds) {
 				time.Sleep(time.Microsecond)
-				now = passedSeconds()
+				now = secondsOf(time.Now())
 			}
 		}
 	} else {
@@ -100,7 +106,6 @@ func isBefore(a, b int32) bool {
 	return (a < b && b-a < daySeconds/2) || (a > b && a-b > daySeconds/2)
 }
 
-func passedSeconds() int32 {
-	t := time.Now()
+func secondsOf(t time.Time) int32 {
 	return int32(t.Hour()*3600 + t.Minute()*60 + t.Second())
 }
-- 
2.43.0

