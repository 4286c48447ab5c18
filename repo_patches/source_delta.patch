From 4cb5b6eeafa1b65d72a128b40fa984709864da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:15 +0000
Subject: [PATCH 01/34] fix: resynchronise on a doubled frame delimiter instead
 of delivering an empty frame

---
 internal/protocol/frame_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/frame_handler.go b/internal/protocol/frame_handler.go
index 9c0e710..60e5627 100644
--- a/internal/protocol/frame_handler.go
+++ b/internal/protocol/frame_handler.go
@@ -54,6 +54,9 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			return nil, errors.Wrap(err, "Fail to read stream to framePayload")
 		}
 		if readBuf[0] == 0x7e {
+			if inMessage && len(buf) == 1 {
+				continue // 连续的标识位，视为下一帧的开始
+			}
 			buf = append(buf, readBuf[0])
 			if inMessage {
 				// end bit
-- 
2.43.0


From 4017c55b9a217e478591c4e585e28142ba8288c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:16 +0000
Subject: [PATCH 02/34] fix: refuse a message body that does not fit the 10-bit
 length field

---
 internal/protocol/model/msg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/model/msg.go b/internal/protocol/model/msg.go
index 760a373..753b4f5 100644
--- a/internal/protocol/model/msg.go
+++ b/internal/protocol/model/msg.go
@@ -25,6 +25,9 @@ type JT808Msg interface {
 }
 
 func writeHeader(m JT808Msg, pkt []byte) ([]byte, error) {
+	if len(pkt) > int(bodyLengthBit) { // 消息体长度字段只有10位
+		return nil, ErrEncodeMsg
+	}
 	m.GetHeader().Attr.BodyLength = uint16(len(pkt))
 	headerPkt, err := m.GetHeader().Encode()
 	if err != nil {
-- 
2.43.0


From ad0b5d9e8b701aa42ef9af2b76788f2116f3f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:17 +0000
Subject: [PATCH 03/34] fix: encode latitude and longitude type into the status
 bits they are decoded from

---
 internal/protocol/model/device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index c2af7cb..280b475 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -196,8 +196,8 @@ func (g *GeoMeta) Encode() uint32 {
 	var bitNum uint32
 	bitNum += uint32(g.ACCStatus)
 	bitNum += uint32(g.LocationStatus) << 1
-	bitNum += uint32(g.LongitudeType) << 2
-	bitNum += uint32(g.LatitudeType) << 3
+	bitNum += uint32(g.LatitudeType) << 2
+	bitNum += uint32(g.LongitudeType) << 3
 	bitNum += uint32(g.OperatingStatus) << 4
 	bitNum += uint32(g.GeoEncryptionStatus) << 5
 	bitNum += uint32(g.LoadStatus) << 8
-- 
2.43.0


From 390affa2b32524b0e8a881054c6f5ae1e8a7d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:18 +0000
Subject: [PATCH 04/34] fix: platform messages to 2019 terminals carry the
 protocol version byte

---
 internal/protocol/model/header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index e9c5669..9801d22 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -213,6 +213,7 @@ func GenMsgHeader(d *Device, msgID, serialNumber uint16) *MsgHeader {
 			PacketFragmented: 0,
 			VersionSign:      versionDecode(d.VersionDesc),
 			Extra:            0,
+			VersionDesc:      d.VersionDesc,
 		},
 		ProtocolVersion: d.ProtocolVersion,
 		PhoneNumber:     d.Phone,
-- 
2.43.0


From 74fa2b3c9a8cadedf8cfb757e234e21b8ee098d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:19 +0000
Subject: [PATCH 05/34] fix: ring buffer latest element after the writer
 wrapped around

---
 pkg/container/ring_buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index 350ddbf..ff6c6d9 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -51,10 +51,7 @@ func (r *RingBuffer) Read() any {
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
-	if r.Writer == 0 {
-		return nil
-	}
-	return r.Container[(atomic.LoadInt32(&r.Writer)-1)%r.Size]
+	return r.Container[(atomic.LoadInt32(&r.Writer)-1+r.Size)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
-- 
2.43.0


From d510a2ba1f52bdf8ba8ba7af1404ae7a6c3b8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:20 +0000
Subject: [PATCH 06/34] fix: serial numbers wrap around without a race that
 repeats numbers

---
 internal/protocol/model/session.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 7a3f0cc..024e1cd 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -1,7 +1,6 @@
 package model
 
 import (
-	"math"
 	"net"
 	"sync/atomic"
 )
@@ -43,12 +42,7 @@ func (s *Session) GetTransProto() TransportProtocol {
 }
 
 func (s *Session) GetNextSerialNum() uint16 {
-	next := atomic.AddUint32(&s.serialNumber, 1)
-	if next <= math.MaxUint16 {
-		return uint16(next)
-	}
-	atomic.StoreUint32(&s.serialNumber, 0)
-	return uint16(s.serialNumber)
+	return uint16(atomic.AddUint32(&s.serialNumber, 1)) // 溢出后自然回绕
 }
 
 // 定义Packet Data结构
-- 
2.43.0


From 55ac982bf62c2886ae575f3cd65e9d5b2df890ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:21 +0000
Subject: [PATCH 07/34] fix: record the 2011 version detected while decoding a
 registration

---
 internal/protocol/model/msg_0100.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/model/msg_0100.go b/internal/protocol/model/msg_0100.go
index cbeff1c..8cd4d16 100644
--- a/internal/protocol/model/msg_0100.go
+++ b/internal/protocol/model/msg_0100.go
@@ -43,7 +43,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 			modeLen = 20
 		} else {
 			modeLen = 8
-			ver = &[]VersionType{Version2011}[0]
+			*ver = Version2011
 		}
 	} else {
 		return ErrDecodeMsg
-- 
2.43.0


From 90c5053222fcaf0e1722f3e4faeda784de858e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:22 +0000
Subject: [PATCH 08/34] fix: length of the simulated audio/video channel
 parameter

---
 internal/protocol/msg_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9969bc7..8d579d2 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -474,7 +474,7 @@ func processMsg8104(_ context.Context, data *model.ProcessData) error {
 			"00000030045A4A6830" +
 			"00000031026C64" +
 			"000000320409302130" +
-			"0000007623030000010100010202000103030001"
+			"000000760F030000010100010202000103030001"
 		_ = out.Parameters.Decode(out.Header.PhoneNumber, uint8(paramCnt), hex.Str2Byte(paramByteStr))
 		paramCache.CacheDeviceParams(out.Parameters)
 	} else {
-- 
2.43.0


From 4f29ab75e3bad99f406cfa9b54099f0d0d303f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:59 +0000
Subject: [PATCH 09/34] fix: skip unknown parameter ids when decoding instead
 of crashing

---
 internal/protocol/model/device_params.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 72a2edb..9e6c7e3 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -24,17 +24,20 @@ type DeviceParams struct {
 
 func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 	p.DevicePhone = phone
-	p.ParamCnt = cnt
 	idx := 0
 	for i := 0; i < int(cnt); i++ {
 		param := &ParamData{}
 		err := param.Decode(pkt, &idx)
+		if errors.Is(err, ErrParamIDNotSupportted) {
+			continue // 跳过不支持的参数项
+		}
 		if err != nil {
 			return err
 		}
 
 		p.Params = append(p.Params, param)
 	}
+	p.ParamCnt = uint8(len(p.Params))
 	return nil
 }
 
@@ -86,6 +89,8 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 	fn, ok := argTable[p.ParamID]
 	if !ok {
 		log.Warn().Str("ParamID", fmt.Sprintf("0x%04x", p.ParamID)).Err(ErrParamIDNotSupportted).Msg("skip it")
+		hex.ReadBytes(pkt, idx, int(p.ParamLen))
+		return ErrParamIDNotSupportted
 	}
 	p.ParamValue = fn.decode(pkt, idx, int(p.ParamLen))
 	return nil
-- 
2.43.0


From 216815fd01df58393f7c027d298f40f3638313d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:00 +0000
Subject: [PATCH 10/34] fix: parameter count and length bytes always describe
 the encoded parameters

---
 internal/protocol/model/device_params.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 9e6c7e3..81367c1 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/pkg/errors"
@@ -42,7 +43,8 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 }
 
 func (p *DeviceParams) Encode() (pkt []byte, err error) {
-	pkt = hex.WriteByte(pkt, p.ParamCnt)
+	var cnt uint8 // 实际编码的参数项个数
+	pkt = hex.WriteByte(pkt, cnt)
 	for _, arg := range p.Params {
 		paramBytes, err := arg.Encode()
 		if err != nil {
@@ -51,7 +53,9 @@ func (p *DeviceParams) Encode() (pkt []byte, err error) {
 			continue
 		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
+		cnt++
 	}
+	pkt[0] = cnt
 	return pkt, nil
 }
 
@@ -100,6 +104,9 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
 		value := fn.encode(p.ParamValue)
+		if len(value) > math.MaxUint8 { // 参数长度只有1个字节
+			return nil, ErrEncodeDeviceParams
+		}
 		pkt = hex.WriteByte(pkt, uint8(len(value)))
 		pkt = hex.WriteBytes(pkt, value)
 		return pkt, nil
-- 
2.43.0


From a3e7270cd0e0319e39840165907165524430b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:01 +0000
Subject: [PATCH 11/34] fix: byte-array parameters keep every byte instead of
 going through BCD padding

---
 internal/protocol/model/device_params.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 81367c1..909307d 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"strings"
 
 	"github.com/pkg/errors"
 	"github.com/rs/zerolog/log"
@@ -171,12 +172,14 @@ var (
 	encodeWord       = func(a any) (pkt []byte) { return writeWordAny(pkt, a) }
 	decodeDoubleWord = func(b []byte, idx *int, paramLen int) any { return hex.ReadDoubleWord(b, idx) }
 	encodeDoubleWord = func(a any) (pkt []byte) { return writeDoubleWordAny(pkt, a) }
-	decodeBytes      = func(b []byte, idx *int, paramLen int) any { return hex.ReadBCD(b, idx, paramLen) } // transform bytes to string
-	encodeBytes      = func(a any) (pkt []byte) { return hex.WriteBCD(pkt, a.(string)) }                   // transform string to bytes
-	decodeString     = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
-	encodeString     = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
-	decodeGBK        = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
-	encodeGBK        = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
+	decodeBytes      = func(b []byte, idx *int, paramLen int) any {
+		return strings.ToUpper(hex.Byte2Str(hex.ReadBytes(b, idx, paramLen)))
+	} // transform bytes to string
+	encodeBytes  = func(a any) (pkt []byte) { return hex.WriteBytes(pkt, hex.Str2Byte(a.(string))) } // transform string to bytes
+	decodeString = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
+	encodeString = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
+	decodeGBK    = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
+	encodeGBK    = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
 )
 
 var argTable = map[uint32]*paramFn{
-- 
2.43.0


From 087a7f2b97e1e093782b45bc059de6f46a47ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:28 +0000
Subject: [PATCH 12/34] fix: a parameter set for the first time is kept by the
 simulated terminal

---
 internal/protocol/model/device_params.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 909307d..7a1bf06 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -66,10 +66,7 @@ func (p *DeviceParams) Update(newParams *DeviceParams) {
 		paramMap[param.ParamID] = param
 	}
 	for _, newParam := range newParams.Params {
-		id := newParam.ParamID
-		if _, ok := paramMap[id]; ok {
-			paramMap[id] = newParam
-		}
+		paramMap[newParam.ParamID] = newParam
 	}
 	mergeParams := []*ParamData{}
 	for _, param := range paramMap {
-- 
2.43.0


From cb29044e580214e71bc7311b9cc4145c92000c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:29 +0000
Subject: [PATCH 13/34] fix: stop handling a parameter request after refusing
 it

---
 internal/api/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/api/api.go b/internal/api/api.go
index 410aaa6..e214ef7 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -59,6 +59,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
@@ -73,6 +74,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		params := model.DeviceParams{}
 		if err := c.ShouldBind(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		device, err := cache.GetDeviceByPhone(phone)
 		if err != nil {
@@ -82,6 +84,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
 		msg := model.Msg8103{
-- 
2.43.0


From 9b5961b282a76937c77c8e43a24871c5f2b8aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:30 +0000
Subject: [PATCH 14/34] fix: leave the accept loop once the listener is closed

---
 internal/server/tcp_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index c9706e4..914be2e 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -45,6 +45,9 @@ func (serv *TCPServer) Start() {
 		conn, err := serv.listener.Accept()
 		if err != nil {
 			log.Error().Err(err).Msg("Fail to do listener accept")
+			if errors.Is(err, net.ErrClosed) {
+				return // 监听已关闭
+			}
 		} else {
 			session := serv.accept(conn)
 			routines.GoSafe(func() { serv.serve(session) })
-- 
2.43.0


From ed23a7e97785447711b4c42052e2925846b5ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:31 +0000
Subject: [PATCH 15/34] fix: closing a connection does not unregister a newer
 one with the same address

---
 internal/server/tcp_server.go     |  2 +-
 internal/storage/session_cache.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 914be2e..19f29f4 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -79,7 +79,7 @@ func (serv *TCPServer) remove(session *model.Session) {
 	defer serv.mutex.Unlock()
 
 	session.Conn.Close()
-	storage.ClearSession(session.ID)
+	storage.RemoveSession(session)
 	// delete(serv.sessions, session.ID)
 
 	log.Debug().Str("id", session.ID).Msg("Closing connection from remote.")
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 89b623f..7f3dcb4 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -71,6 +71,16 @@ func ClearSession(id string) {
 	delete(c.cacheByID, id)
 }
 
+// 清理session, 仅当该id仍属于此session时才清理(remote addr可能已被新连接复用)
+func RemoveSession(s *model.Session) {
+	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.cacheByID[s.ID] == s {
+		delete(c.cacheByID, s.ID)
+	}
+}
+
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
-- 
2.43.0


From 14681098560ed23d1832c1108a0dc2513f327e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:33 +0000
Subject: [PATCH 16/34] fix: list devices and count sessions under the lock of
 their map

---
 internal/storage/device_cache.go  | 2 ++
 internal/storage/session_cache.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index f3c447b..5ec9784 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -32,6 +32,8 @@ func GetDeviceCache() *DeviceCache {
 }
 
 func (cache *DeviceCache) ListDevice() []*model.Device {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	return maps.Values(cache.cacheByPhone)
 }
 
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 7f3dcb4..6ae28d2 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -84,5 +84,7 @@ func RemoveSession(s *model.Session) {
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return len(c.cacheByID)
 }
-- 
2.43.0


From a5cf4d8953bae53015aceb07535aa00865ee5d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:27 +0000
Subject: [PATCH 17/34] fix: the keepalive check of a removed device does not
 dereference nil

---
 internal/protocol/keepalive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 7e17ce6..2ec42ff 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -70,6 +70,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
 		t.Cancel(devicePhone)
+		return
 	}
 	if d.ShouleTurnOffline() {
 		// 保活失效
-- 
2.43.0


From 9b4d2dd26169ce2b171c9fd768b334622432cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 18/34] fix: check and store a registration atomically

---
 internal/protocol/msg_processor.go | 12 +++++-------
 internal/storage/device_cache.go   | 20 +++++++++++++++++++-
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 8d579d2..747d31c 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -270,23 +270,21 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 	cache := storage.GetDeviceCache()
 	// 校验注册逻辑
 	out := data.Outgoing.(*model.Msg8100)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+	device := model.NewDevice(in, session)
+	err := cache.RegisterDevice(device)
 	// 车辆已被注册
-	if cache.HasPlate(in.PlateNumber) {
+	if errors.Is(err, storage.ErrPlateRegistered) {
 		out.Result = model.ResCarAlreadyRegister
 		return nil
 	}
 	// 终端已被注册
-	if cache.HasPhone(in.Header.PhoneNumber) {
+	if errors.Is(err, storage.ErrPhoneRegistered) {
 		out.Result = model.ResDeviceAlreadyRegister
 		return nil
 	}
-
-	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
-	device := model.NewDevice(in, session)
 	out.AuthCode = genAuthCode(device) // 设置鉴权码
 
-	cache.CacheDevice(device)
-
 	timer := NewKeepaliveTimer()
 	timer.Register(device.Phone)
 	return nil
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 5ec9784..ed21ed2 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -9,7 +9,11 @@ import (
 	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
 )
 
-var ErrDeviceNotFound = errors.New("device not found")
+var (
+	ErrDeviceNotFound  = errors.New("device not found")
+	ErrPlateRegistered = errors.New("plate already registered")
+	ErrPhoneRegistered = errors.New("phone already registered")
+)
 
 type DeviceCache struct {
 	cacheByPlate map[string]*model.Device
@@ -76,6 +80,20 @@ func (cache *DeviceCache) CacheDevice(d *model.Device) {
 	cache.cacheDevice(d)
 }
 
+// 注册设备, 车牌和手机号的检查与写入是原子的
+func (cache *DeviceCache) RegisterDevice(d *model.Device) error {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if _, ok := cache.cacheByPlate[d.Plate]; ok {
+		return ErrPlateRegistered
+	}
+	if _, ok := cache.cacheByPhone[d.Phone]; ok {
+		return ErrPhoneRegistered
+	}
+	cache.cacheDevice(d)
+	return nil
+}
+
 func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	var d *model.Device
 	var ok bool
-- 
2.43.0


From b933ba648376963e2c786934d0ca4df438ca81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 19/34] fix: drop the position of a device whenever the device
 is removed

---
 internal/protocol/keepalive.go   | 2 --
 internal/storage/device_cache.go | 1 +
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 2ec42ff..5e9661f 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -65,7 +65,6 @@ func (j *CheckDeviceJob) Run() {
 func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	log.Debug().Str("device", devicePhone).Msg("Check device keepalive status")
 	cache := storage.GetDeviceCache()
-	gisCache := storage.GetGeoCache()
 	d, err := cache.GetDeviceByPhone(devicePhone)
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
@@ -80,7 +79,6 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	} else if d.ShouldClear() {
 		d.Conn.Close()
 		cache.DelDeviceByPhone(devicePhone)
-		gisCache.DelGeoByPhone(devicePhone)
 		log.Debug().Str("device", d.Phone).Msg("Clear cache and close connection after device being offline for a long time")
 		t.Cancel(devicePhone)
 	}
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index ed21ed2..a4b8d56 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -108,6 +108,7 @@ func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	}
 	delete(cache.cacheByPlate, d.Plate)
 	delete(cache.cacheByPhone, d.Phone)
+	GetGeoCache().DelGeoByPhone(d.Phone) // 位置信息随设备一起清除
 }
 
 func (cache *DeviceCache) DelDeviceByCarPlate(carPlate string) {
-- 
2.43.0


From cb716cb3d1ed2ab0cf7f99156f919275ebd52e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:31 +0000
Subject: [PATCH 20/34] fix: a removed device is not brought back, and a
 re-registered one is not expired, by a handler or keepalive check still
 running for the old one

---
 internal/protocol/keepalive.go     | 48 +++++++++++++++----------
 internal/protocol/msg_processor.go | 56 ++++++++++++++++--------------
 internal/storage/device_cache.go   | 22 ++++++++++++
 3 files changed, 81 insertions(+), 45 deletions(-)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 5e9661f..0c9700b 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -1,6 +1,7 @@
 package protocol
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/fakeyanss/gron"
@@ -34,52 +35,61 @@ func (t *KeepaliveTimer) Register(devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		return
 	}
-	job := &CheckDeviceJob{phone: devicePhone}
+	job := &CheckDeviceJob{device: device}
 	t.cron.Add(gron.Every(device.Keepalive), job)
 	log.Debug().Str("device", devicePhone).Msg("Register device keepalive check job")
 }
 
-func (t *KeepaliveTimer) Cancel(devicePhone string) {
-	t.cron.Cancel(devicePhone)
+func (t *KeepaliveTimer) Cancel(device *model.Device) {
+	t.cron.Cancel(jobID(device))
 }
 
 func (t *KeepaliveTimer) Jobs() []*gron.Entry {
 	return t.cron.Entries()
 }
 
+// 每次注册的设备对应一个检查任务
 type CheckDeviceJob struct {
-	phone string
+	device *model.Device
+}
+
+// 同一手机号重新注册后是不同的任务，不能互相取消
+func jobID(device *model.Device) string {
+	return fmt.Sprintf("%s-%p", device.Phone, device)
 }
 
 func (j *CheckDeviceJob) JobID() string {
-	return j.phone
+	return jobID(j.device)
 }
 
 func (j *CheckDeviceJob) Run() {
-	checkDeviceKeepalive(timerSingleton, j.phone)
+	checkDeviceKeepalive(timerSingleton, j.device)
 }
 
 // 检查设备保活
 // 1. 当前在线，保活失效，改为离线，断开tcp连接
 // 2. 当前离线，缓存保留3倍保活时间
-func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
-	log.Debug().Str("device", devicePhone).Msg("Check device keepalive status")
+func checkDeviceKeepalive(t *KeepaliveTimer, d *model.Device) {
+	log.Debug().Str("device", d.Phone).Msg("Check device keepalive status")
 	cache := storage.GetDeviceCache()
-	d, err := cache.GetDeviceByPhone(devicePhone)
+	turnOffline := false
+	err := cache.UpdateDevice(d, func() {
+		turnOffline = d.ShouleTurnOffline()
+		if turnOffline {
+			// 保活失效
+			d.Status = model.DeviceStatusOffline
+		}
+	})
 	if errors.Is(err, storage.ErrDeviceNotFound) {
-		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
-		t.Cancel(devicePhone)
+		log.Debug().Str("device", d.Phone).Msg("Fail to find device cache")
+		t.Cancel(d)
 		return
 	}
-	if d.ShouleTurnOffline() {
-		// 保活失效
-		d.Status = model.DeviceStatusOffline
-		cache.CacheDevice(d)
-		log.Debug().Str("device", devicePhone).Msg("Turn offline for device keepalive expired")
-	} else if d.ShouldClear() {
+	if turnOffline {
+		log.Debug().Str("device", d.Phone).Msg("Turn offline for device keepalive expired")
+	} else if cache.DelDeviceIf(d, d.ShouldClear) {
 		d.Conn.Close()
-		cache.DelDeviceByPhone(devicePhone)
 		log.Debug().Str("device", d.Phone).Msg("Clear cache and close connection after device being offline for a long time")
-		t.Cancel(devicePhone)
+		t.Cancel(d)
 	}
 }
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 747d31c..6b26774 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -240,10 +240,10 @@ func processMsg0002(_ context.Context, data *model.ProcessData) error {
 		return errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", data.Incoming.GetHeader().PhoneNumber)
 	}
 
-	device.LastestComTime = time.Now()
-	cache.CacheDevice(device)
-
-	return nil
+	err = cache.UpdateDevice(device, func() {
+		device.LastestComTime = time.Now()
+	})
+	return errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", device.Phone)
 }
 
 // 收到注销，应清除缓存，断开连接。
@@ -256,9 +256,11 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	}
 	// 取消定时任务
 	timer := NewKeepaliveTimer()
-	timer.Cancel(device.Phone)
+	timer.Cancel(device)
 	// 清楚缓存
-	cache.DelDeviceByPhone(device.Phone)
+	if !cache.DelDeviceIf(device, func() bool { return true }) {
+		return errors.Wrapf(storage.ErrDeviceNotFound, "Fail to find device cache, phoneNumber=%s", device.Phone)
+	}
 	// 为避免连接TIMEWAIT，应等待对方主动关闭
 	return nil
 }
@@ -307,20 +309,23 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		out.Result = model.ResultFail
 		// 取消定时任务
 		timer := NewKeepaliveTimer()
-		timer.Cancel(device.Phone)
+		timer.Cancel(device)
 		// 删除设备缓存
-		cache.DelDeviceByPhone(device.Phone)
+		if !cache.DelDeviceIf(device, func() bool { return true }) {
+			err = storage.ErrDeviceNotFound
+		}
 	} else {
 		// 鉴权通过
-		device.Status = model.DeviceStatusOnline
-		device.LastestComTime = time.Now()
-		device.AuthCode = in.AuthCode
-		device.IMEI = in.IMEI
-		device.SoftwareVersion = in.SoftwareVersion
-		cache.CacheDevice(device)
+		err = cache.UpdateDevice(device, func() {
+			device.Status = model.DeviceStatusOnline
+			device.LastestComTime = time.Now()
+			device.AuthCode = in.AuthCode
+			device.IMEI = in.IMEI
+			device.SoftwareVersion = in.SoftwareVersion
+		})
 	}
 
-	return nil
+	return errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", device.Phone)
 }
 
 func genAuthCode(d *model.Device) string {
@@ -358,17 +363,16 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 		return errors.Wrapf(err, "Fail to decode device geo, phoneNumber=%s", device.Phone)
 	}
 
-	if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
-		device.Status = model.DeviceStatusSleeping
-		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
-	}
-
-	geoCache := storage.GetGeoCache()
-	rb := geoCache.GetGeoRingByPhone(device.Phone)
-	rb.Write(dg)
-
-	return nil
+	err = cache.UpdateDevice(device, func() {
+		if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
+			device.Status = model.DeviceStatusSleeping
+			device.LastestComTime = time.Now()
+		}
+		geoCache := storage.GetGeoCache()
+		rb := geoCache.GetGeoRingByPhone(device.Phone)
+		rb.Write(dg)
+	})
+	return errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", device.Phone)
 }
 
 func processMsg8001(_ context.Context, data *model.ProcessData) error {
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index a4b8d56..2507a27 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -94,6 +94,28 @@ func (cache *DeviceCache) RegisterDevice(d *model.Device) error {
 	return nil
 }
 
+// 更新设备, 仅当该设备仍在缓存中时才执行, 避免已删除的设备被重新写入
+func (cache *DeviceCache) UpdateDevice(d *model.Device, update func()) error {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if cache.cacheByPhone[d.Phone] != d {
+		return ErrDeviceNotFound
+	}
+	update()
+	return nil
+}
+
+// 删除设备, 仅当该设备仍在缓存中且满足条件时才执行
+func (cache *DeviceCache) DelDeviceIf(d *model.Device, cond func() bool) bool {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if cache.cacheByPhone[d.Phone] != d || !cond() {
+		return false
+	}
+	cache.delDevice(nil, &d.Phone)
+	return true
+}
+
 func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	var d *model.Device
 	var ok bool
-- 
2.43.0


From 5766894d6bd9e2476ca5162a8ef44dc1f8715999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:32 +0000
Subject: [PATCH 21/34] fix: every location report keeps the device alive, not
 only those with the ignition off

---
 internal/protocol/msg_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 6b26774..ce1091a 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -364,9 +364,9 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 	}
 
 	err = cache.UpdateDevice(device, func() {
+		device.LastestComTime = time.Now()
 		if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
 			device.Status = model.DeviceStatusSleeping
-			device.LastestComTime = time.Now()
 		}
 		geoCache := storage.GetGeoCache()
 		rb := geoCache.GetGeoRingByPhone(device.Phone)
-- 
2.43.0


From dd932eabf7f801bf4100d9c90374dac95bc06de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:33 +0000
Subject: [PATCH 22/34] fix: an authentication binds the device to the
 connection it arrived on

---
 internal/protocol/msg_processor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index ce1091a..aab33e0 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -293,7 +293,7 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 }
 
 // 收到鉴权，应校验鉴权token
-func processMsg0102(_ context.Context, data *model.ProcessData) error {
+func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg0102)
 
 	cache := storage.GetDeviceCache()
@@ -322,6 +322,11 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 			device.AuthCode = in.AuthCode
 			device.IMEI = in.IMEI
 			device.SoftwareVersion = in.SoftwareVersion
+			// 设备可能重连后鉴权，更新为当前连接
+			session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+			device.SessionID = session.ID
+			device.TransProto = session.GetTransProto()
+			device.Conn = session.Conn
 		})
 	}
 
-- 
2.43.0


From b08ebe01ff269572a2f16c5a5ecae8a0b808bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:34 +0000
Subject: [PATCH 23/34] fix: a terminal cannot bring itself online by sending a
 platform reply

---
 internal/protocol/msg_processor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index aab33e0..3962ca3 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -380,8 +380,13 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 	return errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", device.Phone)
 }
 
-func processMsg8001(_ context.Context, data *model.ProcessData) error {
+func processMsg8001(ctx context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg8001)
+	// 已接入平台的连接是终端侧，不能通过平台应答改变设备状态
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+	if s, err := storage.GetSession(session.ID); err == nil && s == session {
+		return nil
+	}
 	// 收到8001消息，说明此时是作为终端设备
 	if in.Result == model.ResultSuccess {
 		// 回复成功，说明之前注册成功，为方便后续处理，将设备状态改为Online并缓存
-- 
2.43.0


From 720293dac949b10fa7ea512cc2e216f3c7b2d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:35 +0000
Subject: [PATCH 24/34] fix: commands are not sent to another terminal that
 reuses the remote address

---
 internal/api/api.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index e214ef7..6e22e5f 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -14,6 +14,15 @@ import (
 	"github.com/fakeyanss/jt808-server-go/internal/storage"
 )
 
+// 设备当前的会话。remote addr可能已被其他终端的连接复用，此时设备的连接已不存在
+func currentSession(device *model.Device) (*model.Session, error) {
+	session, err := storage.GetSession(device.SessionID)
+	if err == nil && session.Conn != device.Conn {
+		return nil, storage.ErrSessionClosed
+	}
+	return session, err
+}
+
 func Run(serv *server.TCPServer, cfg *config.Config) {
 	// web server structure
 	gin.SetMode(gin.ReleaseMode)
@@ -56,7 +65,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetSession(device.SessionID)
+		session, err := currentSession(device)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
@@ -81,7 +90,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetSession(device.SessionID)
+		session, err := currentSession(device)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
-- 
2.43.0


From d7514ff32b0d56b00a3fa080dd84d521c93cc978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:36 +0000
Subject: [PATCH 25/34] fix: reassemble fragmented messages from consecutive
 fragments only, exactly once

---
 internal/protocol/msg_processor.go |  4 ++--
 internal/protocol/packet_codec.go  |  6 ++++++
 internal/storage/segment_cache.go  | 31 +++++++++++++++++++-----------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 3962ca3..435aa1b 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -210,7 +210,7 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 	return data, nil
 }
 
-func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
+func processSegmentPacket(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
 	// JT1078 4.1节定义，对每个分包回复8001
 	cache := storage.GetDeviceCache()
 	phone := pkt.Header.PhoneNumber
@@ -219,7 +219,7 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
-	session, err := storage.GetSession(device.SessionID)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
 	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())
 	outgoingMsg := &model.Msg8001{
 		Header:             header,
diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index bc7c42a..5d08d73 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -71,6 +71,12 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 		pd.SegCompleted = storage.CacheSegment(seg)
 		// 分包接收完成
 		pd.Body = seg.Data
+		if pd.SegCompleted { // 合并后视为一条未分包的消息
+			pd.Header.Attr.BodyLength = uint16(len(pd.Body))
+			pd.Header.Attr.PacketFragmented = 0
+			pd.Header.Attr.PacketFragmentedDesc = model.PacketFragmentedFalse
+			pd.Header.Frag = nil
+		}
 	}
 
 	pd.Header.Idx = 0 // reset idx
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 299356d..cd2470e 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -1,7 +1,7 @@
 package storage
 
 import (
-	"strings"
+	"fmt"
 	"sync"
 
 	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
@@ -25,21 +25,30 @@ func getSegmentCache() *SegmentCache {
 	return segmentCacheSingleton
 }
 
+// 缓存分包。分包全部按序收到时返回true，此时seg.Data为合并后的完整数据
 func CacheSegment(seg *model.Segment) bool {
-	b := new(strings.Builder)
-	b.WriteString(seg.Phone)
-	b.WriteString("/")
-	b.WriteRune(rune(seg.MsgID))
-	key := b.String()
+	key := fmt.Sprintf("%s/%04x", seg.Phone, seg.MsgID)
 	cache := getSegmentCache()
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
-	if !ok {
-		cache.cacheByKey[key] = seg
-		return s.IsComplete()
+	switch {
+	case seg.SegNo == 1: // 首包，开始新的消息
+		s = &model.Segment{Phone: seg.Phone, MsgID: seg.MsgID, SegTotal: seg.SegTotal}
+		cache.cacheByKey[key] = s
+	case !ok:
+		return false // 缺少前面的分包
+	case seg.SegTotal != s.SegTotal || seg.SegNo > s.SegNo+1:
+		delete(cache.cacheByKey, key) // 分包丢失或属于另一条消息，丢弃
+		return false
+	case seg.SegNo <= s.SegNo:
+		return false // 重复的分包
 	}
 	s.Merge(seg)
-	// cache.cacheByKey[key] = s
-	return s.IsComplete()
+	if !s.IsComplete() {
+		return false
+	}
+	delete(cache.cacheByKey, key)
+	seg.Data = s.Data
+	return true
 }
-- 
2.43.0


From d624e40376b873d13f72782c5633a60460b805ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:48 +0000
Subject: [PATCH 26/34] fix: padding of a short IMEI is removed when decoding,
 as for the software version

---
 internal/protocol/model/msg_0102.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/model/msg_0102.go b/internal/protocol/model/msg_0102.go
index 2d50696..25d6bf4 100644
--- a/internal/protocol/model/msg_0102.go
+++ b/internal/protocol/model/msg_0102.go
@@ -24,7 +24,7 @@ func (m *Msg0102) Decode(packet *PacketData) error {
 	} else if ver == Version2019 {
 		m.AuthCodeLen = hex.ReadByte(pkt, &idx)
 		m.AuthCode = hex.ReadString(pkt, &idx, int(m.AuthCodeLen))
-		m.IMEI = hex.ReadString(pkt, &idx, 15)
+		m.IMEI = strings.TrimRight(hex.ReadString(pkt, &idx, 15), "\x00")
 		m.SoftwareVersion = strings.TrimRight(hex.ReadString(pkt, &idx, 20), "\x00")
 	}
 	return nil
-- 
2.43.0


From 3996d74fc4368dcaa8f7ff6e428c2fb3a825743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:06 +0000
Subject: [PATCH 27/34] fix: a message shorter than its fields is not read
 beyond its end

---
 internal/protocol/packet_codec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index 5d08d73..e3f8596 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -79,6 +79,9 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 		}
 	}
 
+	// 限制容量，字段读取不能越过消息体末尾
+	pd.Body = pd.Body[:len(pd.Body):len(pd.Body)]
+
 	pd.Header.Idx = 0 // reset idx
 
 	return pd, nil
-- 
2.43.0


From 123a1b46cd19b7899abb6c583ae07cb9a6d69e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:09 +0000
Subject: [PATCH 28/34] fix: a command issued while its device authenticates
 elsewhere was refused (session and connection read apart)

---
 internal/api/api.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index 6e22e5f..8822c0b 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -1,6 +1,7 @@
 package api
 
 import (
+	"net"
 	"net/http"
 	"os"
 
@@ -16,8 +17,17 @@ import (
 
 // 设备当前的会话。remote addr可能已被其他终端的连接复用，此时设备的连接已不存在
 func currentSession(device *model.Device) (*model.Session, error) {
-	session, err := storage.GetSession(device.SessionID)
-	if err == nil && session.Conn != device.Conn {
+	var id string
+	var conn net.Conn
+	// 终端可能正在另一个连接上鉴权，会话和连接须一起读取
+	err := storage.GetDeviceCache().UpdateDevice(device, func() {
+		id, conn = device.SessionID, device.Conn
+	})
+	if err != nil {
+		return nil, err
+	}
+	session, err := storage.GetSession(id)
+	if err == nil && session.Conn != conn {
 		return nil, storage.ErrSessionClosed
 	}
 	return session, err
-- 
2.43.0


From 4fa34623670700b9b314b3d96636e0378eedcd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 29/34] fix: read reassembled messages of 64 KiB and more in
 full

---
 internal/protocol/model/msg_0100.go | 4 ++--
 internal/protocol/model/msg_0102.go | 2 +-
 internal/protocol/model/msg_8100.go | 2 +-
 internal/protocol/model/session.go  | 8 ++++++++
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/model/msg_0100.go b/internal/protocol/model/msg_0100.go
index 8cd4d16..3c82ee8 100644
--- a/internal/protocol/model/msg_0100.go
+++ b/internal/protocol/model/msg_0100.go
@@ -38,7 +38,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 		manuLen, modeLen, idLen = 11, 30, 30
 	} else if *ver == Version2013 {
 		manuLen, idLen = 5, 7
-		remainLen := int(m.Header.Attr.BodyLength) - idx
+		remainLen := packet.bodyLen() - idx
 		if remainLen > 5+20+7+1 { // 厂商+型号+ID+车牌颜色，2013版本至少33位
 			modeLen = 20
 		} else {
@@ -54,7 +54,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 	m.DeviceID = strings.TrimRight(hex.ReadString(pkt, &idx, idLen), cutset)
 
 	m.PlateColor = hex.ReadByte(pkt, &idx)
-	m.PlateNumber = hex.ReadGBK(pkt, &idx, int(m.Header.Attr.BodyLength)-idx)
+	m.PlateNumber = hex.ReadGBK(pkt, &idx, packet.bodyLen()-idx)
 	m.LocationDesc = region.Parse(fmt.Sprintf("%02d%04d", m.ProvinceID, m.CityID)).Name
 
 	return nil
diff --git a/internal/protocol/model/msg_0102.go b/internal/protocol/model/msg_0102.go
index 25d6bf4..c7fb319 100644
--- a/internal/protocol/model/msg_0102.go
+++ b/internal/protocol/model/msg_0102.go
@@ -20,7 +20,7 @@ func (m *Msg0102) Decode(packet *PacketData) error {
 	pkt, idx := packet.Body, 0
 	ver := m.Header.Attr.VersionDesc
 	if ver == Version2013 {
-		m.AuthCode = hex.ReadString(pkt, &idx, int(m.Header.Attr.BodyLength)-idx)
+		m.AuthCode = hex.ReadString(pkt, &idx, packet.bodyLen()-idx)
 	} else if ver == Version2019 {
 		m.AuthCodeLen = hex.ReadByte(pkt, &idx)
 		m.AuthCode = hex.ReadString(pkt, &idx, int(m.AuthCodeLen))
diff --git a/internal/protocol/model/msg_8100.go b/internal/protocol/model/msg_8100.go
index 359faf5..d8d3e2f 100644
--- a/internal/protocol/model/msg_8100.go
+++ b/internal/protocol/model/msg_8100.go
@@ -27,7 +27,7 @@ func (m *Msg8100) Decode(packet *PacketData) error {
 	pkt, idx := packet.Body, 0
 	m.AnswerSerialNumber = hex.ReadWord(pkt, &idx)
 	m.Result = ResultCodeType(hex.ReadByte(pkt, &idx))
-	m.AuthCode = hex.ReadString(pkt, &idx, int(m.Header.Attr.BodyLength)-idx)
+	m.AuthCode = hex.ReadString(pkt, &idx, packet.bodyLen()-idx)
 	return nil
 }
 
diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 024e1cd..a425dce 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -53,6 +53,14 @@ type PacketData struct {
 	SegCompleted bool       // 是否分包传输结束
 }
 
+// 消息体长度。分包合并后的消息体可能超出消息头长度字段的范围，以实际长度为准
+func (p *PacketData) bodyLen() int {
+	if p.SegCompleted {
+		return len(p.Body)
+	}
+	return int(p.Header.Attr.BodyLength)
+}
+
 // 定义消息处理结果数据
 type ProcessData struct {
 	Incoming JT808Msg // 收到的消息
-- 
2.43.0


From ff1729d032b9d80219455664de599a958200a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:20 +0000
Subject: [PATCH 30/34] fix: log level FATAL was not recognised and logged
 everything

---
 internal/config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9a6aa0b..d35b55f 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -16,7 +16,7 @@ import (
 type LogLevelType string
 
 const (
-	LogLevelFatal LogLevelType = "FATAl"
+	LogLevelFatal LogLevelType = "FATAL"
 	LogLevelError LogLevelType = "ERROR"
 	LogLevelWarn  LogLevelType = "WARN"
 	LogLevelInfo  LogLevelType = "INFO"
@@ -189,7 +189,7 @@ func (c *Config) ParseLogConf() *logger.Config {
 		logLevel = int8(zerolog.WarnLevel)
 	case "ERROR":
 		logLevel = int8(zerolog.ErrorLevel)
-	case "FATAl":
+	case "FATAL":
 		logLevel = int8(zerolog.FatalLevel)
 	}
 	return &logger.Config{
-- 
2.43.0


From 75fe148982eab682788d815988a3bdc25e48e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:23 +0000
Subject: [PATCH 31/34] fix: the program crashed at its first log record when
 the log directory could not be created

---
 pkg/logger/logger.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/logger/logger.go b/pkg/logger/logger.go
index c349e9c..9da153a 100644
--- a/pkg/logger/logger.go
+++ b/pkg/logger/logger.go
@@ -69,9 +69,11 @@ func Configure(config *Config) *Logger {
 	}
 	if config.FileLoggingEnabled {
 		fw := newRollingFile(config)
-		if config.EncodeLogsAsJSON {
+		switch {
+		case fw == nil: // 无法创建日志目录，只输出到其他目标
+		case config.EncodeLogsAsJSON:
 			writers = append(writers, fw)
-		} else {
+		default:
 			writers = append(writers, newConsoleWriter(fw))
 		}
 	}
-- 
2.43.0


From 5119b6d618642fc21a0e152da1e9caff8737ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 32/34] fix: text that GBK cannot express was encoded as an
 empty parameter or a registration without body

---
 internal/codec/hex/hex.go                | 4 ++--
 internal/protocol/model/device_params.go | 3 +++
 internal/protocol/model/msg_0100.go      | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/codec/hex/hex.go b/internal/codec/hex/hex.go
index 87273f9..63cb8b9 100644
--- a/internal/codec/hex/hex.go
+++ b/internal/codec/hex/hex.go
@@ -166,11 +166,11 @@ func ReadGBK(pkt []byte, idx *int, n int) string {
 	return string(gbk)
 }
 
-// 对应JT808类型String
+// 对应JT808类型String。str无法用GBK表示时返回nil
 func WriteGBK(pkt []byte, str string) []byte {
 	gbk, err := GBK.UTF82GBK([]byte(str))
 	if err != nil {
-		return []byte{}
+		return nil
 	}
 	return append(pkt, gbk...)
 }
diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 7a1bf06..0245d84 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -102,6 +102,9 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
 		value := fn.encode(p.ParamValue)
+		if s, ok := p.ParamValue.(string); ok && s != "" && len(value) == 0 { // 参数值无法编码
+			return nil, ErrEncodeDeviceParams
+		}
 		if len(value) > math.MaxUint8 { // 参数长度只有1个字节
 			return nil, ErrEncodeDeviceParams
 		}
diff --git a/internal/protocol/model/msg_0100.go b/internal/protocol/model/msg_0100.go
index 3c82ee8..58ff249 100644
--- a/internal/protocol/model/msg_0100.go
+++ b/internal/protocol/model/msg_0100.go
@@ -111,6 +111,9 @@ func (m *Msg0100) Encode() (pkt []byte, err error) {
 
 	pkt = hex.WriteByte(pkt, m.PlateColor)
 	pkt = hex.WriteGBK(pkt, m.PlateNumber)
+	if pkt == nil { // 车牌无法用GBK表示
+		return nil, ErrEncodeMsg
+	}
 
 	pkt, err = writeHeader(m, pkt)
 	return pkt, err
-- 
2.43.0


From fc71803f9bf17c6f239a267dca12eee13cab1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:06 +0000
Subject: [PATCH 33/34] fix: keep logging to the file when the console cannot
 be written

---
 pkg/logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/logger/logger.go b/pkg/logger/logger.go
index 9da153a..f62561c 100644
--- a/pkg/logger/logger.go
+++ b/pkg/logger/logger.go
@@ -77,7 +77,7 @@ func Configure(config *Config) *Logger {
 			writers = append(writers, newConsoleWriter(fw))
 		}
 	}
-	mw := io.MultiWriter(writers...)
+	mw := zerolog.MultiLevelWriter(writers...) // 一个目标写失败不影响其他目标
 
 	logger := zerolog.New(mw).Level(zerolog.Level(config.LogLevel)).With().Caller().Timestamp().Logger()
 
-- 
2.43.0


From 31e875a9cfdfc561d940afc9f509d535c625c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:11 +0000
Subject: [PATCH 34/34] fix: do not serialise devices while they are being
 updated

---
 internal/api/api.go              | 9 ++++++++-
 internal/storage/device_cache.go | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index 8822c0b..51e04e4 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -53,8 +53,15 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			return
 		}
 
+		// 设备信息随时可能更新，使用加锁时的副本
+		var snapshot model.Device
+		err = cache.UpdateDevice(device, func() { snapshot = *device })
+		if err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
+		}
 		res := make(map[string]any)
-		err = mapstructure.Decode(device, &res)
+		err = mapstructure.Decode(&snapshot, &res)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 2507a27..174f1eb 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -38,7 +38,12 @@ func GetDeviceCache() *DeviceCache {
 func (cache *DeviceCache) ListDevice() []*model.Device {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
-	return maps.Values(cache.cacheByPhone)
+	devices := maps.Values(cache.cacheByPhone)
+	for i, d := range devices {
+		snapshot := *d // 设备信息随时可能更新，返回加锁时的副本
+		devices[i] = &snapshot
+	}
+	return devices
 }
 
 func (cache *DeviceCache) GetDeviceByPlate(carPlate string) (*model.Device, error) {
-- 
2.43.0

