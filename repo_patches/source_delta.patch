From cd3d49d1053ac12bf387e34e1a0706ef62508db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 01/55] fix: reject truncated or inconsistent packet bodies
 instead of panicking

---
 codec/cmpp/connect.go  |  6 ++++++
 codec/cmpp/delivery.go | 11 +++++++++++
 codec/cmpp/report.go   |  3 +++
 codec/cmpp/submit.go   | 22 +++++++++++++++++-----
 codec/packer.go        |  4 ++++
 codec/sgip/bind.go     |  6 ++++++
 codec/sgip/deliver.go  |  9 +++++++++
 codec/sgip/report.go   |  6 ++++++
 codec/sgip/submit.go   | 12 +++++++++++-
 codec/sgip/unbind.go   |  6 ++++++
 codec/smgp/deliver.go  | 12 ++++++++++++
 codec/smgp/login.go    |  6 ++++++
 codec/smgp/report.go   |  5 +++++
 codec/smgp/submit.go   | 13 ++++++++++++-
 14 files changed, 114 insertions(+), 7 deletions(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index 1ea9cbc..2f7f7d7 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -68,6 +68,9 @@ func (c *Connect) Encode() []byte {
 }
 
 func (c *Connect) Decode(seq uint32, frame []byte) error {
+	if len(frame) < ConnectPktLen-12 {
+		return codec.ErrBodyLength
+	}
 	c.TotalLength = ConnectPktLen
 	c.CommandId = CMPP_CONNECT
 	c.SequenceId = seq
@@ -172,6 +175,9 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 	} else {
 		r.TotalLength = ConnectRspPktLenV2
 	}
+	if uint32(len(frame)) < r.TotalLength-codec.HeadLen {
+		return codec.ErrBodyLength
+	}
 	r.CommandId = CMPP_CONNECT_RESP
 	r.SequenceId = seq
 
diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 9ac61e5..3f94708 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -99,6 +99,14 @@ func (d *Delivery) Encode() []byte {
 }
 
 func (d *Delivery) Decode(seq uint32, frame []byte) error {
+	// 消息内容之前的固定长度及之后的固定长度
+	fixed, tail := 65, 0
+	if V30.MajorMatchV(d.Version) {
+		fixed, tail = 77, 20
+	}
+	if len(frame) < fixed || len(frame) < fixed+int(frame[fixed-1])+tail {
+		return codec.ErrBodyLength
+	}
 	d.TotalLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = CMPP_DELIVER
 	d.SequenceId = seq
@@ -282,6 +290,9 @@ func (r *DeliveryRsp) Encode() []byte {
 
 func (r *DeliveryRsp) Decode(seq uint32, frame []byte) error {
 	// check
+	if len(frame) < 9 || V30.MajorMatchV(r.Version) && len(frame) < 12 {
+		return codec.ErrBodyLength
+	}
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_DELIVER_RESP
 	r.SequenceId = seq
diff --git a/codec/cmpp/report.go b/codec/cmpp/report.go
index 57c2d2b..624a586 100644
--- a/codec/cmpp/report.go
+++ b/codec/cmpp/report.go
@@ -64,6 +64,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < 60 {
+		return codec.ErrBodyLength
+	}
 	rt.msgId = binary.BigEndian.Uint64(frame[0:8])
 	rt.stat = utils.TrimStr(frame[8:15])
 	rt.submitTime = utils.TrimStr(frame[15:25])
diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 5d131a6..e2801c3 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -161,6 +161,18 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(seq uint32, frame []byte) error {
+	// 目的号码之前的固定长度、单个号码的长度、消息长度字段的相对位置及消息内容之后的固定长度
+	fixed, idLen, lenPos, tail := 117, 21, 0, 0
+	if V30.MajorMatchV(s.Version) {
+		fixed, idLen, lenPos, tail = 129, 32, 1, 20
+	}
+	if len(frame) < fixed {
+		return codec.ErrBodyLength
+	}
+	lenPos += fixed + idLen*int(frame[fixed-1])
+	if len(frame) <= lenPos || len(frame) < lenPos+1+int(frame[lenPos])+tail {
+		return codec.ErrBodyLength
+	}
 	s.TotalLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = CMPP_SUBMIT
 	s.SequenceId = seq
@@ -207,10 +219,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destUsrTl = frame[index]
 	index++
-	l := int(s.destUsrTl * 21)
-	if V30.MajorMatchV(s.Version) {
-		l = int(s.destUsrTl) << 5
-	}
+	l := int(s.destUsrTl) * idLen
 	s.termIds = frame[index : index+l]
 	index += l
 	if V30.MajorMatchV(s.Version) {
@@ -223,7 +232,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index++
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.msgContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -294,6 +303,9 @@ func (r *SubmitRsp) Encode() []byte {
 	return frame
 }
 func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 9 || V30.MajorMatchV(r.Version) && len(frame) < 12 {
+		return codec.ErrBodyLength
+	}
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_SUBMIT_RESP
 	r.SequenceId = seq
diff --git a/codec/packer.go b/codec/packer.go
index 35bf4ff..2486bab 100644
--- a/codec/packer.go
+++ b/codec/packer.go
@@ -2,6 +2,7 @@ package codec
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/hrygo/log"
 )
@@ -14,6 +15,9 @@ const (
 	PacketMax        = 5120
 )
 
+// ErrBodyLength 消息体长度不足或与其内部的长度字段不一致
+var ErrBodyLength = errors.New("illegal packet body length")
+
 type Operation interface {
 	ToInt() uint32
 	OpLog() log.Field
diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index 7639e50..56aedd5 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -46,6 +46,9 @@ func (b *Bind) Encode() []byte {
 }
 
 func (b *Bind) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 41 {
+		return codec.ErrBodyLength
+	}
 	b.PacketLength = codec.HeadLen + uint32(len(frame))
 	b.CommandId = SGIP_BIND
 	b.SequenceNumber = make([]uint32, 3)
@@ -104,6 +107,9 @@ func (r *BindRsp) Encode() []byte {
 }
 
 func (r *BindRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_BIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index a8c26c4..adcc992 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -78,6 +78,9 @@ func (d *Deliver) Encode() []byte {
 }
 
 func (d *Deliver) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 57 {
+		return codec.ErrBodyLength
+	}
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = SGIP_DELIVER
 	d.SequenceNumber = make([]uint32, 3)
@@ -99,6 +102,9 @@ func (d *Deliver) Decode(cid uint32, frame []byte) error {
 	index++
 	d.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint32(len(frame)-index) < d.MessageLength {
+		return codec.ErrBodyLength
+	}
 	d.MessageContent = frame[index : index+int(d.MessageLength)]
 	index += int(d.MessageLength)
 	d.Reserve = ""
@@ -140,6 +146,9 @@ func (d *Deliver) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *DeliverRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_DELIVER_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 36ed683..8ba651f 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -54,6 +54,9 @@ func (r *Report) Encode() []byte {
 }
 
 func (r *Report) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 44 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT
 	r.SequenceNumber = make([]uint32, 3)
@@ -109,6 +112,9 @@ func (r *Report) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *ReportRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 9c3ddf6..5678412 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -148,6 +148,10 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(cid uint32, frame []byte) error {
+	// 消息内容之前的固定长度为123（不含接收号码），其中接收号码数量位于第51字节
+	if len(frame) < 51 || len(frame) < 123+21*int(frame[50]) {
+		return codec.ErrBodyLength
+	}
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = SGIP_SUBMIT
 	s.SequenceNumber = make([]uint32, 3)
@@ -200,9 +204,12 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index++
 	s.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint32(len(frame)-index) < s.MessageLength {
+		return codec.ErrBodyLength
+	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -300,6 +307,9 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 }
 
 func (r *SubmitRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 9 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_SUBMIT_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/unbind.go b/codec/sgip/unbind.go
index b625bf9..d960423 100644
--- a/codec/sgip/unbind.go
+++ b/codec/sgip/unbind.go
@@ -21,6 +21,9 @@ func (u *Unbind) Encode() []byte {
 }
 
 func (u *Unbind) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8 {
+		return codec.ErrBodyLength
+	}
 	u.PacketLength = codec.HeadLen + 8
 	u.CommandId = SGIP_UNBIND
 	u.SequenceNumber = make([]uint32, 3)
@@ -51,6 +54,9 @@ func (r *UnbindRsp) Encode() []byte {
 }
 
 func (r *UnbindRsp) Decode(cid uint32, frame []byte) error {
+	if len(frame) < 8 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + 8
 	r.CommandId = SGIP_UNBIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 3040ca7..69eebf8 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -109,6 +109,9 @@ func (d *Delivery) Encode() []byte {
 }
 
 func (d *Delivery) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 69 {
+		return codec.ErrBodyLength
+	}
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.RequestId = SMGP_DELIVER
 	d.SequenceId = seq
@@ -128,12 +131,18 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.msgLength = frame[index]
 	index += 1
 	if d.IsReport() {
+		if len(frame) < index+RptLen {
+			return codec.ErrBodyLength
+		}
 		d.report = &Report{}
 		err := d.report.Decode(frame[index : index+RptLen])
 		if err != nil {
 			return err
 		}
 	} else {
+		if len(frame) < index+int(d.msgLength) {
+			return codec.ErrBodyLength
+		}
 		bytes, err := GbDecoder.Bytes(frame[index : index+int(d.msgLength)])
 		if err != nil {
 			return err
@@ -212,6 +221,9 @@ func (r *DeliverRsp) Encode() []byte {
 }
 
 func (r *DeliverRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 14 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_DELIVER_RESP
 	r.SequenceId = seq
diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 8fa8b9e..773758b 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -70,6 +70,9 @@ func (l *Login) Encode() []byte {
 }
 
 func (l *Login) Decode(seq uint32, frame []byte) error {
+	if len(frame) < LoginLen-12 {
+		return codec.ErrBodyLength
+	}
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
@@ -164,6 +167,9 @@ func (r *LoginRsp) Encode() []byte {
 }
 
 func (r *LoginRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < LoginRespLen-12 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_LOGIN_RESP
 	r.SequenceId = seq
diff --git a/codec/smgp/report.go b/codec/smgp/report.go
index 863f387..fdca1d4 100644
--- a/codec/smgp/report.go
+++ b/codec/smgp/report.go
@@ -3,6 +3,8 @@ package smgp
 import (
 	"fmt"
 	"time"
+
+	"github.com/hrygo/gosms/codec"
 )
 
 type Report struct {
@@ -83,6 +85,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < RptLen {
+		return codec.ErrBodyLength
+	}
 	index := 3 // skip "id:"
 	rt.id = frame[index : index+10]
 	index += 10
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 4883506..d4184ef 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -144,6 +144,14 @@ func (s *Submit) Encode() []byte {
 }
 
 func (s *Submit) Decode(seq uint32, frame []byte) error {
+	// 目的号码之前的固定长度为105，消息内容之后至少有8字节的保留字段
+	if len(frame) < 105 {
+		return codec.ErrBodyLength
+	}
+	lenPos := 105 + 21*int(frame[104])
+	if len(frame) <= lenPos || len(frame) < lenPos+1+int(frame[lenPos])+8 {
+		return codec.ErrBodyLength
+	}
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.RequestId = SMGP_SUBMIT
 	s.SequenceId = seq
@@ -182,7 +190,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.msgLength = frame[index]
 	index++
 	content := frame[index : index+int(s.msgLength)]
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 	}
 	index += int(s.msgLength)
@@ -232,6 +240,9 @@ func (r *SubmitRsp) Encode() []byte {
 }
 
 func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
+	if len(frame) < 14 {
+		return codec.ErrBodyLength
+	}
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_SUBMIT_RESP
 	r.SequenceId = seq
-- 
2.43.0


From 4e48b86cf19d29d3acc240947263bf81715c990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 02/55] fix: CMPP deliver decode keeps destination and service
 id apart

---
 codec/cmpp/delivery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 3f94708..2007713 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -112,7 +112,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.SequenceId = seq
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
-	d.destId = utils.TrimStr(frame[29:39])
+	d.serviceId = utils.TrimStr(frame[29:39])
 	d.tpPid = frame[39]
 	d.tpUdhi = frame[40]
 	d.msgFmt = frame[41]
-- 
2.43.0


From 839e8509148bf5d195b357b4f6b428283cffa000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 03/55] fix: CMPP submit decode takes only the first
 destination number

---
 codec/cmpp/submit.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index e2801c3..5effcbc 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -227,7 +227,11 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 		index++
 	}
 	// 这里简单地只取了一个手机号，实际上应该进行更复杂的操作取所有手机号
-	s.destTerminalId = utils.TrimStr(s.termIds)
+	if len(s.termIds) > idLen {
+		s.destTerminalId = utils.TrimStr(s.termIds[:idLen])
+	} else {
+		s.destTerminalId = utils.TrimStr(s.termIds)
+	}
 	s.msgLength = frame[index]
 	index++
 	content := frame[index : index+int(s.msgLength)]
-- 
2.43.0


From 0f9014510208ee8f88e2f5a1ebf998b28339fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 04/55] fix: SMGP status report states its real content length

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 69eebf8..ef58578 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -75,7 +75,7 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.SequenceId = seq
 	dlv.msgId = codec.BcdSeq.NextVal()
 	dlv.report = NewReport(msgId)
-	dlv.msgLength = 115
+	dlv.msgLength = byte(RptLen)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-- 
2.43.0


From 4a11471e5e01aa08cd8c4f1e4d169ec7f82e46b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 05/55] fix: SMGP login accepts client ids shorter than eight
 characters

---
 codec/smgp/login.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 773758b..76cadd6 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -76,7 +76,7 @@ func (l *Login) Decode(seq uint32, frame []byte) error {
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
-	l.clientID = string(frame[0:8])
+	l.clientID = utils.TrimStr(frame[0:8])
 	l.authenticatorClient = frame[8:24]
 	l.loginMode = frame[24]
 	l.timestamp = binary.BigEndian.Uint32(frame[25:29])
-- 
2.43.0


From cc13941cce042975bef7ff2cf92bda392fae2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 06/55] fix: SMGP status report of a submit without destination
 does not panic

---
 codec/smgp/deliver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index ef58578..8514649 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -79,7 +79,9 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-	dlv.srcTermID = mt.destTermID[0]
+	if len(mt.destTermID) > 0 {
+		dlv.srcTermID = mt.destTermID[0]
+	}
 	dlv.destTermID = mt.srcTermID
 	dlv.PacketLength = baseLen + uint32(RptLen)
 	return dlv
-- 
2.43.0


From 96ccabebe70834164068ba9246193d3f0e9310e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:12 +0000
Subject: [PATCH 07/55] fix: enforce the session cap atomically and survive
 refused connections

---
 msc_server/server/on_close.go | 13 +++++++------
 msc_server/server/on_open.go  |  4 ++--
 msc_server/server/server.go   | 13 +++++++++++++
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index c4c334e..ded51ad 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -14,6 +14,11 @@ var logDb = msc.New("CounterDB")
 func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 	msg := fmt.Sprintf("[%s] OnClose ===", s.name)
 	sc := Session(c)
+	if sc == nil {
+		// 因达到会话数阈值而被拒绝的连接，没有对应的会话
+		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})...)
+		return
+	}
 	defer deferFunc(c, s, sc)
 
 	fields := FlatMapLog(sc.LogSession(), s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})
@@ -25,11 +30,7 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
 	sc.closeResource() // 关闭通道，释放线程池
-	s.sessionPool.Delete(sc.Id())
-	s.activeSessions -= 1
+	s.removeSession(sc)
 	c.SetContext(nil)
-	if sc != nil {
-		sc.conn = nil
-		sc = nil
-	}
+	sc.conn = nil
 }
diff --git a/msc_server/server/on_open.go b/msc_server/server/on_open.go
index fc3e0c0..1fb5eed 100644
--- a/msc_server/server/on_open.go
+++ b/msc_server/server/on_open.go
@@ -12,12 +12,12 @@ import (
 func (s *Server) OnOpen(c gnet.Conn) (out []byte, action gnet.Action) {
 	var msg = fmt.Sprintf("[%s] OnOpen ===", s.name)
 
-	if s.ActiveSessions() >= s.sessionPoolCap {
+	sc := s.CreateSession(c)
+	if sc == nil {
 		// 已达到连接数阈值时，拒绝新的连接
 		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpFlowControl.Field(), SErrField(msc.ErrorsSessionThreshReached)})...)
 		return nil, gnet.Close
 	} else {
-		sc := s.CreateSession(c)
 		log.Info(msg, FlatMapLog(sc.LogSession(), s.LogCounter())...)
 		return
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 11a63c5..b0e9e17 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -78,9 +78,13 @@ func New(name string) *Server {
 	}
 }
 
+// CreateSession 为新连接创建会话，已达到会话数阈值时返回 nil
 func (s *Server) CreateSession(c gnet.Conn) *session {
 	s.Lock()
 	defer s.Unlock()
+	if s.activeSessions >= s.sessionPoolCap {
+		return nil
+	}
 	sc := NewSession(c)
 	sc.serverName = s.name
 	c.SetContext(sc)
@@ -89,6 +93,13 @@ func (s *Server) CreateSession(c gnet.Conn) *session {
 	return sc
 }
 
+func (s *Server) removeSession(sc *session) {
+	s.Lock()
+	defer s.Unlock()
+	s.sessionPool.Delete(sc.id)
+	s.activeSessions -= 1
+}
+
 func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	s.Lock()
 	defer s.Unlock()
@@ -103,6 +114,8 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 }
 
 func (s *Server) ActiveSessions() int {
+	s.Lock()
+	defer s.Unlock()
 	return s.activeSessions
 }
 
-- 
2.43.0


From 327e1e376ca1fa73e803f6a3d0022e62da64cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:12 +0000
Subject: [PATCH 08/55] fix: handle every complete packet of a read,
 header-only packets included

---
 msc_server/server/on_traffic.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 0bc76ad..d2cb078 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -17,18 +17,24 @@ import (
 )
 
 func (s *Server) OnTraffic(c gnet.Conn) (action gnet.Action) {
-	cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
-	if ok {
+	// 一次读取可能包含多个完整的数据包，需逐个处理
+	for {
+		cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
+		if !ok {
+			return action
+		}
 		switch s.name {
 		case CMPP:
-			return ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
 		case SGIP:
-			return ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
 		case SMGP:
-			return ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+		}
+		if action != gnet.None {
+			return action
 		}
 	}
-	return action
 }
 
 // TrafficHandler Don't Read From gnet.Conn.
@@ -93,9 +99,12 @@ func DecodeAndCheckHeader(s *Server, c gnet.Conn) (cmd uint32, seq uint32, buff
 	// 消息体通过长度检查后,跳过消息头的前8字节
 	_, _ = c.Discard(12)
 
-	// 读取消息体
-	buff, _ = c.Peek(int(pkl - 12))
-	_, _ = c.Discard(int(pkl - 12))
+	// 读取消息体，注意 Peek(0)、Discard(0) 会作用于缓存中的全部数据
+	buff = nil
+	if pkl > codec.HeadLen {
+		buff, _ = c.Peek(int(pkl - 12))
+		_, _ = c.Discard(int(pkl - 12))
+	}
 	// buff returned by Peek() is not allowed to be passed to a new goroutine, as this []byte will be reused within event-loop.
 	// If you have to use buf in a new goroutine, then you need to make a copy of buf and pass this copy to that new goroutine.
 	newBuff := make([]byte, len(buff))
-- 
2.43.0


From 2472f09e305d2aa89ea4e1d4822dd068888a01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:38 +0000
Subject: [PATCH 09/55] fix: keep session resources usable until pending work
 ends and never revive a closed session

---
 msc_server/server/cmpp_connect.go |  7 ++++--
 msc_server/server/on_close.go     |  3 +--
 msc_server/server/session.go      | 40 ++++++++++++++++++-------------
 msc_server/server/sgip_bind.go    |  7 ++++--
 msc_server/server/smgp_login.go   |  7 ++++--
 5 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 9cf83d1..62b60f6 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -23,6 +23,11 @@ var cmppConnect TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 		return false, gnet.Close
 	}
 
+	if !sc.beginLogin() {
+		decodeErrorLog(sc, buff)
+		return false, gnet.Close
+	}
+
 	// 异步处理登录逻辑，避免阻塞 event-loop
 	err = s.GoPool().Submit(func() {
 		handleCmppConnect(s, sc, login)
@@ -61,8 +66,6 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == cmpp.ConnStatusOK {
 			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index ded51ad..e0558ad 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -29,8 +29,7 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 }
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
-	sc.closeResource() // 关闭通道，释放线程池
+	sc.closeResource() // 释放线程池
 	s.removeSession(sc)
 	c.SetContext(nil)
-	sc.conn = nil
 }
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 9232444..28acd89 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -19,6 +19,7 @@ type session struct {
 	sync.Mutex
 	id          uint64
 	conn        gnet.Conn
+	remote      string          // 发起方地址，连接关闭后 conn 不再提供
 	clientId    string          // 客户端识别号，由服务端分配
 	serverName  string          // 连接的Server的name
 	ver         byte            // 协议版本号
@@ -43,6 +44,7 @@ const (
 	StatConnect stat = iota
 	StatLogin
 	StatClosing
+	StatLogging // 正在处理登录请求
 )
 
 func NewSession(c gnet.Conn) *session {
@@ -50,6 +52,7 @@ func NewSession(c gnet.Conn) *session {
 	se.id = uint64(codec.B64Seq.NextVal())
 	se.stat = StatConnect
 	se.conn = c
+	se.remote = c.RemoteAddr().String()
 	se.createTime = time.Now()
 	se.lastUseTime = time.Now()
 	return se
@@ -69,15 +72,29 @@ func createSessionSidePool(size int) *goroutine.Pool {
 	return pool
 }
 
+// 一个连接上仅允许发起一次登录
+func (s *session) beginLogin() bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.stat != StatConnect {
+		return false
+	}
+	s.stat = StatLogging
+	return true
+}
+
 func (s *session) completeLogin(ac *codec.AuthConf) {
 	// 设置会话信息及会话级别资源，此代码非常重要！！！
 	s.Lock()
 	defer s.Unlock()
+	if s.stat != StatLogging {
+		// 登录处理期间连接已关闭
+		return
+	}
 	s.stat = StatLogin
 	s.ver = ac.Version
 	s.clientId = ac.ClientId
 	s.lastUseTime = time.Now()
-	s.closeResource()
 	s.window = make(chan struct{}, ac.MtWindowSize)
 	s.pool = createSessionSidePool(ac.MtWindowSize * 2)
 	s.setupLimiter(ac)
@@ -94,21 +111,14 @@ func (s *session) setupLimiter(ac *codec.AuthConf) {
 	s.limiter = rate.NewLimiter(limit, cap(s.window))
 }
 
-// 关闭通道和线程池
+// 释放线程池，此时可能仍有未处理完的任务在使用 conn、window 等，因此它们必须保持可用
 func (s *session) closeResource() {
-	if s == nil {
-		return
-	}
-
-	if s.window != nil {
-		close(s.window)
-		s.window = nil
-	}
+	s.Lock()
+	defer s.Unlock()
+	s.stat = StatClosing
 	if s.pool != nil {
 		s.pool.Release()
-		s.pool = nil
 	}
-	s.limiter = nil
 }
 
 func (s *session) Window() chan struct{} {
@@ -172,15 +182,11 @@ func (s *session) LogSession(size ...int) []log.Field {
 	if cliName == "" {
 		cliName = "not login"
 	}
-	remote := "closed"
-	if s.conn != nil {
-		remote = s.conn.RemoteAddr().String()
-	}
 	return append(ret,
 		log.String(SrvName, s.serverName),
 		log.String(CliName, cliName),
 		log.Uint64(Sid, s.Id()),
-		log.String(RemoteAddr, remote))
+		log.String(RemoteAddr, s.remote))
 }
 
 func (s *session) LogCounter() []log.Field {
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 1d747d9..75effd4 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -23,6 +23,11 @@ var sgipBind TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 		return false, gnet.Close
 	}
 
+	if !sc.beginLogin() {
+		decodeErrorLog(sc, buff)
+		return false, gnet.Close
+	}
+
 	// 异步处理登录逻辑，避免阻塞 event-loop
 	err = s.GoPool().Submit(func() {
 		handleSgipBind(s, sc, login)
@@ -61,8 +66,6 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == sgip.Status(0) {
 			sc.completeLogin(ac)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 47613d9..f2d52d2 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -23,6 +23,11 @@ var smgpLogin TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 		return false, gnet.Close
 	}
 
+	if !sc.beginLogin() {
+		decodeErrorLog(sc, buff)
+		return false, gnet.Close
+	}
+
 	// 异步处理登录逻辑，避免阻塞 event-loop
 	err = s.GoPool().Submit(func() {
 		handleSmgpLogin(s, sc, login)
@@ -61,8 +66,6 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == smgp.Status(0) {
 			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
-- 
2.43.0


From dd7313be2f574fd1bfbad8a9173e44b5593bf710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:38 +0000
Subject: [PATCH 10/55] fix: count and occupy a client connection slot in one
 step

---
 msc_server/server/cmpp_connect.go |  3 +--
 msc_server/server/server.go       | 16 ++++++++++++++++
 msc_server/server/sgip_bind.go    |  3 +--
 msc_server/server/smgp_login.go   |  3 +--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 62b60f6..71458e4 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -55,8 +55,7 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	if code == cmpp.ConnStatusOK {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.reserveClient(sc, cli) {
 			code = cmpp.ConnStatusOthers
 		}
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index b0e9e17..404d094 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -11,6 +11,7 @@ import (
 	"github.com/panjf2000/gnet/v2"
 	"github.com/panjf2000/gnet/v2/pkg/pool/goroutine"
 
+	"github.com/hrygo/gosms/codec"
 	bs "github.com/hrygo/gosms/msc_server"
 )
 
@@ -100,9 +101,24 @@ func (s *Server) removeSession(sc *session) {
 	s.activeSessions -= 1
 }
 
+// 登录校验通过后占用客户端的一个连接名额，已达上限时返回 false
+func (s *Server) reserveClient(sc *session, ac *codec.AuthConf) bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.countByClientId(ac.ClientId) >= ac.MaxConns {
+		return false
+	}
+	sc.clientId = ac.ClientId
+	return true
+}
+
 func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	s.Lock()
 	defer s.Unlock()
+	return s.countByClientId(clientId)
+}
+
+func (s *Server) countByClientId(clientId string) (counter int) {
 	s.sessionPool.Range(func(key, value any) bool {
 		s, ok := value.(*session)
 		if ok && s.clientId == clientId {
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 75effd4..665f14d 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -55,8 +55,7 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	if code == sgip.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(ac.ClientId)
-		if activeSession >= ac.MaxConns {
+		if !s.reserveClient(sc, ac) {
 			code = sgip.Status(3)
 		}
 	}
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index f2d52d2..adff4e9 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -55,8 +55,7 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	if code == smgp.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.reserveClient(sc, cli) {
 			code = smgp.Status(2)
 		}
 	}
-- 
2.43.0


From 0319c83c3eac8e73d7d8a6487099dbb390329587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:38 +0000
Subject: [PATCH 11/55] fix: do not sleep on the event loop when terminating a
 session

---
 msc_server/server/on_tick.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index 45e6dc6..bcb0cd7 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -179,10 +179,9 @@ func sendTerminate(s *Server, sc *session) {
 		}
 		pack := term.Encode()
 		err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
-			_ = sc.Conn().Flush()
-			// 给对方预留1秒钟响应连接关闭事件
-			time.Sleep(time.Second)
-			_ = sc.Conn().Close()
+			_ = c.Flush()
+			// 给对方预留1秒钟响应连接关闭事件，此处运行于 event-loop，不能睡眠
+			time.AfterFunc(time.Second, func() { _ = c.Close() })
 			return nil
 		})
 		if err == nil {
-- 
2.43.0


From 598b4dfc23a135eb75467817ae7db5ba9f90e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:38 +0000
Subject: [PATCH 12/55] fix: a busy session must not block the event loop

---
 msc_server/server/session.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 28acd89..97aad7e 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -58,17 +58,16 @@ func NewSession(c gnet.Conn) *session {
 	return se
 }
 
-func createSessionSidePool(size int) *goroutine.Pool {
+// 提交任务的是 event-loop，不能因线程池满而阻塞，因此不限制大小，并发处理数由 window 控制
+func createSessionSidePool() *goroutine.Pool {
 	var options = ants.Options{
-		ExpiryDuration:   time.Minute, // 1 分钟内不被使用的worker会被清除
-		Nonblocking:      false,       // 如果为true,worker池满了后提交任务会直接返回nil
-		MaxBlockingTasks: size,        // blocking模式有效，否则worker池满了后提交任务会直接返回nil
-		PreAlloc:         false,
+		ExpiryDuration: time.Minute, // 1 分钟内不被使用的worker会被清除
+		PreAlloc:       false,
 		PanicHandler: func(e interface{}) {
 			log.Errorf("%v", e)
 		},
 	}
-	var pool, _ = ants.NewPool(size, ants.WithOptions(options))
+	var pool, _ = ants.NewPool(-1, ants.WithOptions(options))
 	return pool
 }
 
@@ -96,7 +95,7 @@ func (s *session) completeLogin(ac *codec.AuthConf) {
 	s.clientId = ac.ClientId
 	s.lastUseTime = time.Now()
 	s.window = make(chan struct{}, ac.MtWindowSize)
-	s.pool = createSessionSidePool(ac.MtWindowSize * 2)
+	s.pool = createSessionSidePool()
 	s.setupLimiter(ac)
 }
 
-- 
2.43.0


From 62126f9efc2d3b677eab48e43acc42f66344d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 13/55] fix: guard the last use time against concurrent access

---
 msc_server/server/cmpp_delivery_resp.go | 2 ++
 msc_server/server/on_tick.go            | 2 +-
 msc_server/server/session.go            | 2 ++
 msc_server/server/smgp_delivery_resp.go | 2 ++
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 8eb9df6..326bba5 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -49,6 +49,8 @@ func handleCmppDeliveryResp(s *Server, sc *session, pdu *cmpp.DeliveryRsp) {
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 	// 打印报文
 	log.Debug(msg, FlatMapLog(sc.LogSession(), pdu.Log())...)
+	sc.Lock()
+	defer sc.Unlock()
 	sc.lastUseTime = time.Now()
 	// TODO more actions
 }
diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index bcb0cd7..5096d1b 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -74,7 +74,7 @@ func closeCheck(s *Server, sc *session) bool {
 func activeTest(s *Server, sc *session) {
 	_ = s.goPool.Submit(func() {
 		// 如果使用时间在1分钟前则发送心跳
-		if sc.lastUseTime.Add(time.Minute).Before(time.Now()) {
+		if sc.LastUseTime().Add(time.Minute).Before(time.Now()) {
 			msg := fmt.Sprintf("[%s] OnTick %s", s.name, SD)
 			var active codec.RequestPdu
 			var seq = uint32(codec.B32Seq.NextVal())
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 97aad7e..e976e1e 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -160,6 +160,8 @@ func (s *session) CreateTime() time.Time {
 }
 
 func (s *session) LastUseTime() time.Time {
+	s.Lock()
+	defer s.Unlock()
 	return s.lastUseTime
 }
 
diff --git a/msc_server/server/smgp_delivery_resp.go b/msc_server/server/smgp_delivery_resp.go
index 3872e2f..06414db 100644
--- a/msc_server/server/smgp_delivery_resp.go
+++ b/msc_server/server/smgp_delivery_resp.go
@@ -49,6 +49,8 @@ func handleSmgpDeliveryResp(s *Server, sc *session, pdu *smgp.DeliverRsp) {
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 	// 打印报文
 	log.Debug(msg, FlatMapLog(sc.LogSession(), pdu.Log())...)
+	sc.Lock()
+	defer sc.Unlock()
 	sc.lastUseTime = time.Now()
 
 	// TODO more actions
-- 
2.43.0


From 5022cc401ad032068805de42b886d2ddf1c8f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 14/55] fix: do not flush a connection outside its event loop

---
 msc_server/server/cmpp_terminate_resp.go | 1 -
 msc_server/server/sgip_unbind_resp.go    | 1 -
 msc_server/server/smgp_exit_resp.go      | 1 -
 3 files changed, 3 deletions(-)

diff --git a/msc_server/server/cmpp_terminate_resp.go b/msc_server/server/cmpp_terminate_resp.go
index 2220091..0da0a6d 100644
--- a/msc_server/server/cmpp_terminate_resp.go
+++ b/msc_server/server/cmpp_terminate_resp.go
@@ -50,6 +50,5 @@ func handleCmppTerminateResp(s *Server, sc *session, term *cmpp.TerminateRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
diff --git a/msc_server/server/sgip_unbind_resp.go b/msc_server/server/sgip_unbind_resp.go
index b620c91..bbdcb3d 100644
--- a/msc_server/server/sgip_unbind_resp.go
+++ b/msc_server/server/sgip_unbind_resp.go
@@ -50,6 +50,5 @@ func handleSgipUnbindRsp(s *Server, sc *session, term *sgip.UnbindRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
diff --git a/msc_server/server/smgp_exit_resp.go b/msc_server/server/smgp_exit_resp.go
index 06f199b..c847de6 100644
--- a/msc_server/server/smgp_exit_resp.go
+++ b/msc_server/server/smgp_exit_resp.go
@@ -50,6 +50,5 @@ func handleSmgpExitResp(s *Server, sc *session, term *smgp.ExitRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
-- 
2.43.0


From e89743c62586b0c89565011bd3826848c83b04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:14 +0000
Subject: [PATCH 15/55] fix: RandNum accepts an empty range

---
 utils/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index 9867d88..8a2423f 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -224,6 +224,9 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 }
 
 func RandNum(min, max int) int {
+	if max <= min {
+		return min
+	}
 	return rand.Intn(max-min) + min
 }
 
-- 
2.43.0


From d2566f302e9b12802f557121ae472870cf401bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 16/55] fix: message ids stay unique when the clock is stepped
 back

---
 utils/snowflake/snowflake.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/utils/snowflake/snowflake.go b/utils/snowflake/snowflake.go
index fb92cc3..6af1d33 100644
--- a/utils/snowflake/snowflake.go
+++ b/utils/snowflake/snowflake.go
@@ -36,15 +36,22 @@ func (s *Snowflake) NextVal() int64 {
 	s.Lock()
 	defer s.Unlock()
 	now := time.Now().UnixNano() / 1000000 // 转毫秒
-	if s.timestamp == now {
-		// 当同一时间戳（精度：毫秒）下多次生成id会增加序列号
+	if now <= s.timestamp {
+		// 当同一时间戳（精度：毫秒）下多次生成id会增加序列号，时钟回拨时继续使用上一个时间戳
+		last := now
+		now = s.timestamp
 		s.sequence = (s.sequence + 1) & sequenceMask
 		if s.sequence == 0 {
 			// 如果当前序列超出12bit长度，则需要等待下一毫秒
 			// 下一毫秒将使用sequence:0
-			for now <= s.timestamp {
+			for last == s.timestamp {
 				time.Sleep(time.Nanosecond)
-				now = time.Now().UnixNano() / 1000000
+				last = time.Now().UnixNano() / 1000000
+			}
+			now = last
+			if now < s.timestamp {
+				// 时钟回拨，不能等到时钟追上，直接借用下一毫秒
+				now = s.timestamp + 1
 			}
 		}
 	} else {
-- 
2.43.0


From 478759bfde341ad54688fa4fea34211ad77a9aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 17/55] fix: 24-hour ids stay unique across midnight and clock
 steps

---
 utils/snowflake32/snowflake32.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/utils/snowflake32/snowflake32.go b/utils/snowflake32/snowflake32.go
index 1e8c2f9..04b8808 100644
--- a/utils/snowflake32/snowflake32.go
+++ b/utils/snowflake32/snowflake32.go
@@ -12,6 +12,7 @@ import (
 // seconds占用17bits是因为一天86400秒占用17bits
 type Snowflake struct {
 	sync.Mutex       // 锁
+	last       int64 // 上一个序号使用的时间（含日期，精度：秒），用于识别时钟回拨
 	seconds    int32 // 时间戳 ，截止到午夜0点的秒数
 	datacenter int32 // 数据中心机房id, 取值范围范围：0-4
 	worker     int32 // 工作节点, 取值范围范围：0-8
@@ -19,6 +20,7 @@ type Snowflake struct {
 }
 
 const (
+	daySeconds      = int64(86400)                               // 一天的秒数
 	sequenceMask    = int32(0x01ff)                              // 最大值为9个1
 	datacenterBits  = uint(2)                                    // 数据中心id所占位数
 	workerBits      = uint(3)                                    // 机器id所占位数
@@ -36,23 +38,31 @@ func NewSnowflake(d int32, w int32) *Snowflake {
 func (s *Snowflake) NextVal() int32 {
 	s.Lock()
 	defer s.Unlock()
-	now := passedSeconds() // 获得当前秒
-	if s.seconds == now {
-		// 当同一时间戳（精度：秒）下次生成id会增加序列号
+	now := localSeconds() // 获得当前秒
+	if now <= s.last {
+		// 当同一时间戳（精度：秒）下次生成id会增加序列号，时钟回拨时继续使用上一个时间戳
+		clock := now
+		now = s.last
 		s.sequence = (s.sequence + 1) & sequenceMask
 		if s.sequence == 0 {
 			// 如果当前序列超出9bit长度，则需要等待下一秒
 			// 下一秒将使用sequence:0
-			for now <= s.seconds {
+			for clock == s.last {
 				time.Sleep(time.Microsecond)
-				now = passedSeconds()
+				clock = localSeconds()
+			}
+			now = clock
+			if now < s.last {
+				// 时钟回拨，不能等到时钟追上，直接借用下一秒
+				now = s.last + 1
 			}
 		}
 	} else {
 		// 不同时间戳（精度：秒）下直接使用序列号：0
 		s.sequence = 0
 	}
-	s.seconds = now
+	s.last = now
+	s.seconds = int32(now % daySeconds)
 	r := (s.seconds << timestampShift) | (s.datacenter << datacenterShift) | (s.worker << workerShift) | (s.sequence)
 	return r
 }
@@ -86,7 +96,9 @@ func (s *Snowflake) Sequence() int32 {
 	return s.sequence
 }
 
-func passedSeconds() int32 {
+// localSeconds 当地时间的秒数，对daySeconds取余即为截止到午夜0点的秒数
+func localSeconds() int64 {
 	t := time.Now()
-	return int32(t.Hour()*3600 + t.Minute()*60 + t.Second())
+	_, offset := t.Zone()
+	return t.Unix() + int64(offset)
 }
-- 
2.43.0


From dc925b29aaf969e746024badcec7c188b9c08c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 18/55] fix: decimal message ids stay unique when the clock is
 stepped back

---
 utils/bcd_sequence.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/utils/bcd_sequence.go b/utils/bcd_sequence.go
index 3ec71ba..84596b0 100644
--- a/utils/bcd_sequence.go
+++ b/utils/bcd_sequence.go
@@ -7,13 +7,14 @@ import (
 	"time"
 )
 
-// BcdSequence 电信MsgId序号生成器，支持每分钟产生100万个不重复序号，超出后序号会重复
+// BcdSequence 电信MsgId序号生成器，支持每分钟产生100万个不重复序号，超出后借用下一分钟的序号
 // BCD 4bit编码，用4bit表示0-9的数字
 type BcdSequence struct {
-	sync.Mutex        // 锁
-	worker     []byte // SMGW代码：3 字节（ BCD 码），6位十进制数字的字符串
-	timestamp  string // 时间：4 字节（ BCD 码），格式为 MMDDHHMM（月日时分）
-	sequence   int32  // 序列号：3 字节（ BCD 码），取值范围为 000000 999999 ，从 0 开始，顺序累加，步长为 1 循环使用。
+	sync.Mutex           // 锁
+	worker     []byte    // SMGW代码：3 字节（ BCD 码），6位十进制数字的字符串
+	minute     time.Time // timestamp对应的时间，只前进不后退
+	timestamp  string    // 时间：4 字节（ BCD 码），格式为 MMDDHHMM（月日时分）
+	sequence   int32     // 序列号：3 字节（ BCD 码），取值范围为 000000 999999 ，从 0 开始，顺序累加，步长为 1 循环使用。
 }
 
 const telSeqMax = 1000000
@@ -37,14 +38,18 @@ func NewBcdSequence(w string) *BcdSequence {
 func (tf *BcdSequence) NextVal() []byte {
 	tf.Lock()
 	defer tf.Unlock()
-	mi := time.Now().Format("01021504")
-	if tf.timestamp == mi {
-		// 超过每分钟telSeqMax后序号会重复
-		tf.sequence = (tf.sequence + 1) % telSeqMax
-	} else {
+	minute := time.Now().Truncate(time.Minute)
+	if minute.After(tf.minute) {
 		tf.sequence = 0
+		tf.minute = minute
+	} else {
+		// 同一分钟内或时钟回拨时继续使用上一个时间戳，序号用完后借用下一分钟
+		tf.sequence = (tf.sequence + 1) % telSeqMax
+		if tf.sequence == 0 {
+			tf.minute = tf.minute.Add(time.Minute)
+		}
 	}
-	tf.timestamp = mi
+	tf.timestamp = tf.minute.Format("01021504")
 	seq := make([]byte, 10)
 	copy(seq[0:3], tf.worker)
 	copy(seq[3:7], StoBcd(tf.timestamp))
-- 
2.43.0


From ca156c2581b4011baa8d23aff2d6e8be7923de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 19/55] fix: cyclic sequence keeps the datacenter number inside
 its 32 bits

---
 utils/cycle_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cycle_sequence.go b/utils/cycle_sequence.go
index 66d1294..de2581b 100644
--- a/utils/cycle_sequence.go
+++ b/utils/cycle_sequence.go
@@ -18,7 +18,7 @@ type CycleSequence struct {
 const (
 	sequenceMask    = int32(0x03ffffff)         // 最大值为26个1
 	workerBits      = uint(3)                   // 机器id所占位数
-	sequenceBits    = uint(28)                  // 序列所占的位数
+	sequenceBits    = uint(26)                  // 序列所占的位数
 	workerShift     = sequenceBits              // 机器id左移位数
 	datacenterShift = sequenceBits + workerBits // 数据中心id左移位数
 )
-- 
2.43.0


From d8912d7e54c9f0a5e6b172aae748dd462c92d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 20/55] fix: 32-bit sequence uses its own datacenter and worker
 numbers

---
 msc_client/bootstrap.go | 4 ++--
 msc_server/bootstrap.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_client/bootstrap.go b/msc_client/bootstrap.go
index 8553c5b..01a43cf 100644
--- a/msc_client/bootstrap.go
+++ b/msc_client/bootstrap.go
@@ -120,8 +120,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
diff --git a/msc_server/bootstrap.go b/msc_server/bootstrap.go
index 938ac38..781b61f 100644
--- a/msc_server/bootstrap.go
+++ b/msc_server/bootstrap.go
@@ -112,8 +112,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
-- 
2.43.0


From 9292fc261bd8ab6e2cea33617809fd9c838ff9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:53 +0000
Subject: [PATCH 21/55] fix: no termination signal is lost and a second one
 does not panic

---
 msc_client/destory.go | 4 ++--
 msc_server/destory.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_client/destory.go b/msc_client/destory.go
index 46036c8..471aff7 100644
--- a/msc_client/destory.go
+++ b/msc_client/destory.go
@@ -18,8 +18,8 @@ func init() {
 		// 控制关闭 main goroutine
 		defer func() { statChan <- struct{}{} }()
 		// 接收信号
-		var c = make(chan os.Signal)
-		defer close(c)
+		var c = make(chan os.Signal, 1)
+		defer signal.Stop(c)
 
 		// 监听可能的退出信号
 		signal.Notify(c, os.Interrupt, os.Kill, syscall.SIGQUIT, syscall.SIGINT, syscall.SIGTERM)
diff --git a/msc_server/destory.go b/msc_server/destory.go
index 1e01017..7a57792 100644
--- a/msc_server/destory.go
+++ b/msc_server/destory.go
@@ -17,8 +17,8 @@ func init() {
 		// 控制关闭 main goroutine
 		defer func() { statChan <- struct{}{} }()
 		// 接收信号
-		var c = make(chan os.Signal)
-		defer close(c)
+		var c = make(chan os.Signal, 1)
+		defer signal.Stop(c)
 
 		// 监听可能的退出信号
 		signal.Notify(c, os.Interrupt, os.Kill, syscall.SIGQUIT, syscall.SIGINT, syscall.SIGTERM)
-- 
2.43.0


From 9a8ce559f5fbdf030d41ae130ff431ae489a1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 22/55] fix: shutdown hooks run once even when shutdown is
 requested again

---
 event_manager/event_manage.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 1133ec7..ad418de 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -31,7 +31,18 @@ func CreateEventManage(prefix string) *eventManage {
 
 // RegisterShutdownHooker 注册优雅停机钩子事件
 func RegisterShutdownHooker(key string, hookers ...Event) bool {
-	return CreateEventManage(ShutdownHookerPrefix).Register(key, hookers...)
+	if len(hookers) < 1 {
+		return false
+	}
+	// 多次触发优雅停机时，每个钩子只执行一次
+	var once sync.Once
+	return CreateEventManage(ShutdownHookerPrefix).Register(key, func(args ...any) {
+		once.Do(func() {
+			for _, fn := range hookers {
+				fn()
+			}
+		})
+	})
 }
 
 // RegisterShutdownHookerAddChan 注册优雅停机钩子事件，并额外返回一个取消信号
-- 
2.43.0


From b0e90eb1cc6dc2d7d2f1015db391bfafd198e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:01 +0000
Subject: [PATCH 23/55] fix: concurrent registrations of one event are
 exclusive

---
 event_manager/event_manage.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index ad418de..d5c2d96 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -73,18 +73,16 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if !strings.HasPrefix(key, m.prefix) {
 		key = m.prefix + key
 	}
-	// 判断key下是否已有事件
-	if _, exists := m.Get(key); exists == false {
-		sMap.Store(key, func(args ...any) {
-			for _, fn := range events {
-				fn()
-			}
-		})
-		return true
-	} else {
+	// 判断key下是否已有事件，判断与存储必须是一个原子操作
+	_, exists := sMap.LoadOrStore(key, func(args ...any) {
+		for _, fn := range events {
+			fn()
+		}
+	})
+	if exists {
 		log.Info(ErrorsFuncEventAlreadyExists + " , 相关键名：" + key)
 	}
-	return false
+	return !exists
 }
 
 // Get 获取事件
-- 
2.43.0


From c3e81b10b3e4be98e5db1189c45418ebbe27814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 24/55] fix: a failing reload of the yaml store keeps the known
 clients

---
 auth/client_store.go |  1 +
 auth/yaml_store.go   | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/auth/client_store.go b/auth/client_store.go
index 1ff6d97..3b16932 100644
--- a/auth/client_store.go
+++ b/auth/client_store.go
@@ -26,6 +26,7 @@ type storage struct {
 	sync.Mutex
 	Cache  map[string]*Client
 	Config yaml_config.YmlConfig
+	loaded bool // 是否已完成首次加载
 }
 
 func New(c yaml_config.YmlConfig) (cache Store) {
diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index 5701994..fc2faab 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -19,9 +19,15 @@ func (y *YamlStore) Load() {
 		dir += "/"
 	}
 	dir = y.Config.BasePath() + dir
+	// 首次加载失败则退出，此后重新加载失败时保留已有数据
+	fail := log.Errorf
+	if !y.loaded {
+		fail = log.Fatalf
+	}
 	fs, err := ioutil.ReadDir(dir)
 	if err != nil {
-		log.Fatalf("Config file init error: %v", err)
+		fail("Config file init error: %v", err)
+		return
 	}
 
 	for _, f := range fs {
@@ -42,11 +48,13 @@ func (y *YamlStore) Load() {
 		}
 		data, err := ioutil.ReadFile(dir + f.Name())
 		if err != nil {
-			log.Fatalf("Config file init error: %v", err)
+			fail("Config file init error: %v", err)
+			continue
 		}
 
 		unmarshal(data, strings.ToLower(key), y)
 	}
+	y.loaded = true
 }
 
 func (y *YamlStore) FindByCid(isp string, cid string) *Client {
-- 
2.43.0


From a35d2987947c9932da66c27e33b192c0c5b89657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 25/55] fix: yaml store skips files not named after a client

---
 auth/yaml_store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index fc2faab..e1cddda 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -43,7 +43,7 @@ func (y *YamlStore) Load() {
 		if strings.HasSuffix(f.Name(), ".yml") {
 			key = f.Name()[:len(f.Name())-4]
 		}
-		if "" == key {
+		if strings.Index(key, "_") < 1 {
 			continue
 		}
 		data, err := ioutil.ReadFile(dir + f.Name())
@@ -73,7 +73,7 @@ func unmarshal(data []byte, id string, y *YamlStore) {
 	if err != nil {
 		log.Errorf("Config file init error: %v", err)
 	} else {
-		cli.ISP = id[0:4]
+		cli.ISP = id[:strings.Index(id, "_")]
 		y.Cache[id] = cli
 	}
 }
-- 
2.43.0


From f5603c7be50c0b81d6376b7243086a96cdf6a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 26/55] fix: credential entries without id or secret are
 ignored

---
 auth/mongo_store.go | 4 ++++
 auth/yaml_store.go  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index a47b2c2..2efae7a 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -37,6 +37,10 @@ func (m *MongoStore) Load() {
 		if err != nil {
 			return
 		}
+		if "" == c.ClientId || "" == c.SharedSecret {
+			log.Errorf("Client %s_%s has no id or secret", c.ISP, c.ClientId)
+			continue
+		}
 		m.Cache[c.ISP+"_"+c.ClientId] = c
 	}
 }
diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index e1cddda..fb27c45 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -72,6 +72,8 @@ func unmarshal(data []byte, id string, y *YamlStore) {
 	err := yaml.Unmarshal(data, cli)
 	if err != nil {
 		log.Errorf("Config file init error: %v", err)
+	} else if "" == cli.ClientId || "" == cli.SharedSecret {
+		log.Errorf("Config file init error: %s has no client-id or shared-secret", id)
 	} else {
 		cli.ISP = id[:strings.Index(id, "_")]
 		y.Cache[id] = cli
-- 
2.43.0


From 191ad3129f13bd7fc864f4d668564f245d0b6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 27/55] fix: one undecodable mongo document does not stop the
 load

---
 auth/mongo_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index 2efae7a..6176fea 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -35,7 +35,8 @@ func (m *MongoStore) Load() {
 		c := &Client{}
 		err := cursor.Decode(c)
 		if err != nil {
-			return
+			log.Error(err.Error())
+			continue
 		}
 		if "" == c.ClientId || "" == c.SharedSecret {
 			log.Errorf("Client %s_%s has no id or secret", c.ISP, c.ClientId)
-- 
2.43.0


From 97769a378a4371f6821c8654a12a813b43c7cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 28/55] fix: lookups do not wait for a slow mongo reload

---
 auth/mongo_store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index 6176fea..9275dc3 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -29,8 +29,8 @@ func (m *MongoStore) Load() {
 		return
 	}
 
-	m.Lock()
-	defer m.Unlock()
+	defer cursor.Close(context.Background())
+	// 读取期间不持有锁，避免存储缓慢时阻塞查询
 	for cursor.Next(ctx) {
 		c := &Client{}
 		err := cursor.Decode(c)
@@ -42,7 +42,9 @@ func (m *MongoStore) Load() {
 			log.Errorf("Client %s_%s has no id or secret", c.ISP, c.ClientId)
 			continue
 		}
+		m.Lock()
 		m.Cache[c.ISP+"_"+c.ClientId] = c
+		m.Unlock()
 	}
 }
 
-- 
2.43.0


From 2ea6d89705885f1be8df52fb2f2d3c93b8efba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:50 +0000
Subject: [PATCH 29/55] fix: the client reads a frame that arrives in several
 pieces

---
 msc_client/session/session.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 00ff0bd..a9154a7 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"sync"
 	"time"
@@ -117,8 +118,8 @@ func (s *Session) startReceiver() {
 						return
 					}
 					head := make([]byte, 12)
-					n, err := s.con.Read(head)
-					if n != 12 || err != nil {
+					_, err := io.ReadFull(s.con, head)
+					if err != nil {
 						log.Errorf("[%s] Read Packet Head error: %v. Session closing...", s.serverName, err)
 						s.Close()
 						return
@@ -137,8 +138,8 @@ func (s *Session) startReceiver() {
 					var bodyLen = int(pkl) - 12
 					if bodyLen > 0 {
 						buff = make([]byte, bodyLen)
-						n, err = s.con.Read(buff)
-						if n != bodyLen || err != nil {
+						_, err = io.ReadFull(s.con, buff)
+						if err != nil {
 							log.Errorf("[%s] Read Packet Body error: %v. Session closing...", s.serverName, err)
 							s.Close()
 							return
-- 
2.43.0


From a272663aa0f1355613f205dc42a94ad44a26f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:52 +0000
Subject: [PATCH 30/55] fix: the client accepts a login response of any
 segmentation and of the stated length

---
 msc_client/session/session.go | 36 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index a9154a7..5f10b54 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -1,7 +1,6 @@
 package session
 
 import (
-	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
@@ -167,26 +166,18 @@ func (s *Session) onTraffic(cmd, seq uint32, buff []byte) {
 
 func (s *Session) login() error {
 	var pdu codec.Pdu
-	var respLen = 27
 	switch s.serverName {
 	case SGIP:
 		{
 			pdu = sgip.NewBind(s.authConf, 1)
-			respLen = sgip.BindRspPkgLen
 		}
 	case CMPP:
 		{
 			pdu = cmpp.NewConnect(s.authConf, uint32(codec.B32Seq.NextVal()))
-			if cmpp.V30.MajorMatch(s.authConf.Version) {
-				respLen = cmpp.ConnectRspPktLenV3
-			} else {
-				respLen = cmpp.ConnectRspPktLenV2
-			}
 		}
 	case SMGP:
 		{
 			pdu = smgp.NewLogin(s.authConf, uint32(codec.B32Seq.NextVal()))
-			respLen = smgp.LoginRespLen
 		}
 	}
 
@@ -196,18 +187,21 @@ func (s *Session) login() error {
 	}
 	log.Info(fmt.Sprintf("[%s] Send login to %v.", s.serverName, s.con.RemoteAddr()), pdu.Log()...)
 
-	data := make([]byte, respLen)
-	n, err := s.con.Read(data[:])
-	if err != nil || n != respLen {
+	// 登录响应可能被拆成多个分段到达，先读取报文头，再按报文头中的长度读取报文体
+	head := make([]byte, codec.HeadLen)
+	_, err = io.ReadFull(s.con, head)
+	if err != nil {
 		return err
 	}
-
-	var pkl = binary.BigEndian.Uint32(data[:4])
-	if pkl != uint32(n) {
-		return errors.New(fmt.Sprintf("[%s] Packet length error: expect %d, got %d", s.serverName, n, pkl))
+	pkl, cmd, seq := codec.UnpackHead(head)
+	if pkl > codec.PacketMax || pkl < codec.HeadLen {
+		return errors.New(fmt.Sprintf("[%s] Packet length error: got %d", s.serverName, pkl))
+	}
+	body := make([]byte, pkl-codec.HeadLen)
+	_, err = io.ReadFull(s.con, body)
+	if err != nil {
+		return err
 	}
-	var cmd = binary.BigEndian.Uint32(data[4:8])
-	var seq = binary.BigEndian.Uint32(data[8:12])
 
 	switch s.serverName {
 	case SGIP:
@@ -216,7 +210,7 @@ func (s *Session) login() error {
 				return errors.New(fmt.Sprintf("[%s] CommandId error: expect %x, got %x", s.serverName, sgip.SGIP_BIND_RESP, cmd))
 			}
 			resp := &sgip.BindRsp{}
-			err := resp.Decode(seq, data[12:])
+			err := resp.Decode(seq, body)
 			if err != nil {
 				return err
 			}
@@ -231,7 +225,7 @@ func (s *Session) login() error {
 				return errors.New(fmt.Sprintf("[%s] CommandId error: expect %x, got %x", s.serverName, cmpp.CMPP_CONNECT_RESP, cmd))
 			}
 			resp := &cmpp.ConnectResp{Version: cmpp.Version(s.authConf.Version)}
-			err := resp.Decode(seq, data[12:])
+			err := resp.Decode(seq, body)
 			if err != nil {
 				return err
 			}
@@ -246,7 +240,7 @@ func (s *Session) login() error {
 				return errors.New(fmt.Sprintf("[%s] CommandId error: expect %x, got %x", s.serverName, smgp.SMGP_LOGIN_RESP, cmd))
 			}
 			resp := &smgp.LoginRsp{Version: smgp.Version(s.authConf.Version)}
-			err := resp.Decode(seq, data[12:])
+			err := resp.Decode(seq, body)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From db188264f4e47afc94f98c045b427bba17c116b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 31/55] fix: the client closes a connection whose login fails
 or is not answered

---
 msc_client/session/session.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 5f10b54..bceaa45 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -43,11 +43,20 @@ const (
 	SMGP = "smgp"
 )
 
+// 等待登录完成的最长时间
+const loginTimeout = 10 * time.Second
+
 // NewSession 创建一个新会话并登录，且启动定时器和接收服务
 func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 	sc := &Session{con: con, authConf: ac, serverName: isp, stat: StatConnect}
+	// 登录必须在限定时间内完成，登录失败后连接不再使用，需要关闭
+	_ = con.SetDeadline(time.Now().Add(loginTimeout))
 	err := sc.login()
+	if err == nil {
+		err = con.SetDeadline(time.Time{})
+	}
 	if err != nil {
+		_ = con.Close()
 		log.Error("create session error: " + err.Error())
 		return nil
 	}
-- 
2.43.0


From 65c5c5e87f19e07985ce07b6c1a5383b6cbd871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 32/55] fix: closing a client session twice or while it is in
 use does not crash or block

---
 msc_client/session/on_traffic_cmpp.go |  1 -
 msc_client/session/on_traffic_sgip.go |  2 --
 msc_client/session/on_traffic_smgp.go |  1 -
 msc_client/session/session.go         | 29 ++++++++++++++++++---------
 4 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 0eabd81..3a1eb0e 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -34,7 +34,6 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index e1163d1..ffd7337 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -33,8 +33,6 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
-
-	s.activeTime = time.Now()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index dffad5a..0c86f36 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -34,7 +34,6 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index bceaa45..b49ddab 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -60,10 +60,10 @@ func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 		log.Error("create session error: " + err.Error())
 		return nil
 	}
-	sc.cancel = make(chan struct{}, 1)
-	sc.startReceiver()
+	sc.cancel = make(chan struct{})
 	sc.createTime = time.Now()
 	sc.activeTime = time.Now()
+	sc.startReceiver()
 	return sc
 }
 
@@ -93,20 +93,22 @@ func (s *Session) LruPriority() uint64 {
 }
 
 func (s *Session) Close() {
-	if s == nil || s.stat == StatClosing {
+	if s == nil {
 		return
 	}
 
 	s.Lock()
 	defer s.Unlock()
 
-	// 关闭连接
+	// 会话可能被多个协程同时关闭
+	if s.stat == StatClosing {
+		return
+	}
+	// 关闭连接，其他协程可能仍在使用 con 和 authConf，故不能置空
 	s.stat = StatClosing
 	_ = s.con.Close()
 	// 发送取消信号
-	s.cancel <- struct{}{}
-	s.con = nil
-	s.authConf = nil
+	close(s.cancel)
 }
 
 // startReceiver 启动接收服务
@@ -163,6 +165,9 @@ func (s *Session) startReceiver() {
 }
 
 func (s *Session) onTraffic(cmd, seq uint32, buff []byte) {
+	s.Lock()
+	s.activeTime = time.Now()
+	s.Unlock()
 	switch s.serverName {
 	case CMPP:
 		s.onTrafficCmpp(cmd, seq, buff)
@@ -265,10 +270,16 @@ func (s *Session) login() error {
 }
 
 func (s *Session) HealthCheck() bool {
-	ok := s != nil && s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
+	if s == nil {
+		return false
+	}
+	s.Lock()
+	ok := s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
+	idle := s.activeTime.Add(time.Minute).Before(time.Now())
+	s.Unlock()
 
 	// 活跃状态为1分钟前，则发送心跳验证
-	if ok && s.activeTime.Add(time.Minute).Before(time.Now()) {
+	if ok && idle {
 		err := s.ActiveTest()
 		if err != nil {
 			return false
-- 
2.43.0


From c552e845ad3484ebd5eecdba1f5f5586cc1f04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 33/55] fix: a malformed or refusing message from the gateway
 does not crash the client

---
 msc_client/session/on_traffic_cmpp.go | 13 +++++++++----
 msc_client/session/on_traffic_sgip.go | 22 ++++++++++++++++------
 msc_client/session/on_traffic_smgp.go | 13 +++++++++----
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 3a1eb0e..b774a04 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -41,10 +41,14 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_CONNECT_RESP:
 		resp := &cmpp.ConnectResp{Version: cmpp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != cmpp.ConnStatusOK {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status() != cmpp.ConnStatusOK {
+			s.Close()
 		}
 	case cmpp.CMPP_ACTIVE_TEST:
 		act := &cmpp.ActiveTest{}
@@ -77,11 +81,12 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_SUBMIT_RESP:
 		sub := &cmpp.SubmitRsp{Version: cmpp.Version(s.authConf.Version)}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
 		if ok {
 			mtr := result.(*Result)
@@ -94,12 +99,12 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_DELIVER:
 		dly := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.con.Write(resp.Encode())
 		log.Debug(send, resp.Log()...)
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index ffd7337..4543a80 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -40,14 +40,22 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 	case sgip.SGIP_BIND_RESP:
 		resp := &sgip.BindRsp{}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status != sgip.Status(0) {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status != sgip.Status(0) {
+			s.Close()
 		}
 	case sgip.SGIP_UNBIND:
 		term := &sgip.Unbind{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			log.Error(err.Error())
+			s.Close()
+			return
+		}
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
 		_, _ = s.con.Write(resp.Encode())
@@ -55,17 +63,19 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		s.Close()
 	case sgip.SGIP_UNBIND_RESP:
 		term := &sgip.UnbindRsp{}
-		_ = term.Decode(seq, buff)
-		log.Info(receive, term.Log()...)
+		if err := term.Decode(seq, buff); err == nil {
+			log.Info(receive, term.Log()...)
+		}
 		s.Close()
 	case sgip.SGIP_SUBMIT_RESP:
 		sub := &sgip.SubmitRsp{}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
 			mtr := result.(*Result)
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 0c86f36..f23ad5d 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -41,10 +41,14 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_LOGIN_RESP:
 		resp := &smgp.LoginRsp{Version: smgp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != smgp.Status(0) {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status() != smgp.Status(0) {
+			s.Close()
 		}
 	case smgp.SMGP_ACTIVE_TEST:
 		act := &smgp.ActiveTest{}
@@ -77,11 +81,12 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_SUBMIT_RESP:
 		sub := &smgp.SubmitRsp{Version: smgp.Version(s.authConf.Version)}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
 		if ok {
 			mtr := result.(*Result)
@@ -94,12 +99,12 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_DELIVER:
 		dly := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.con.Write(resp.Encode())
 		log.Debug(send, resp.Log()...)
-- 
2.43.0


From e8a99dbcaba7711c4f7cd0d7975ea9d2f1e4c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:18 +0000
Subject: [PATCH 34/55] fix: the result of a submit is registered before it is
 sent, and a send does not wait forever

---
 msc_client/session/on_traffic_cmpp.go | 24 +++++++++++++-----------
 msc_client/session/on_traffic_sgip.go | 20 +++++++++++---------
 msc_client/session/on_traffic_smgp.go | 24 +++++++++++++-----------
 msc_client/session/session.go         | 23 ++++++++++++++++++-----
 4 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index b774a04..d766447 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -15,20 +15,22 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := cmpp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
-		_, err := s.con.Write(mt.Encode())
+		mtt := mt.(*cmpp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 网关的响应可能在Write返回之前到达，需先登记
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+		err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 已发送成功的分片仍需返回
+			return
 		}
-		mtt := mt.(*cmpp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
@@ -55,7 +57,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		_ = act.Decode(seq, buff)
 		log.Info(receive, act.Log()...)
 		resp := act.ToResponse(0)
-		_, err := s.con.Write(resp.Encode())
+		err := s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
@@ -70,7 +72,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		_ = term.Decode(seq, buff)
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case cmpp.CMPP_TERMINATE_RESP:
@@ -106,7 +108,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		}
 		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
-		_, err = s.con.Write(resp.Encode())
+		err = s.write(resp.Encode())
 		log.Debug(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 4543a80..0e7e5aa 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -14,20 +14,22 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := sgip.NewSubmit(s.authConf, []string{phone}, message, options...)
 	for _, mt := range mts {
-		_, err := s.con.Write(mt.Encode())
+		mtt := mt.(*sgip.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = mtt.Sequence2Uint64()
+		r.Phone = phone
+		// 网关的响应可能在Write返回之前到达，需先登记
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+		err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 已发送成功的分片仍需返回
+			return
 		}
-		mtt := mt.(*sgip.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = mtt.Sequence2Uint64()
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
@@ -58,7 +60,7 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		}
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case sgip.SGIP_UNBIND_RESP:
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index f23ad5d..7622d15 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -15,20 +15,22 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := smgp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
-		_, err := s.con.Write(mt.Encode())
+		mtt := mt.(*smgp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 网关的响应可能在Write返回之前到达，需先登记
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+		err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 已发送成功的分片仍需返回
+			return
 		}
-		mtt := mt.(*smgp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
@@ -55,7 +57,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		_ = act.Decode(seq, buff)
 		log.Info(receive, act.Log()...)
 		resp := act.ToResponse(0)
-		_, err := s.con.Write(resp.Encode())
+		err := s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
@@ -70,7 +72,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		_ = term.Decode(seq, buff)
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case smgp.SMGP_EXIT_RESP:
@@ -106,7 +108,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		}
 		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
-		_, err = s.con.Write(resp.Encode())
+		err = s.write(resp.Encode())
 		log.Debug(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index b49ddab..2e60c51 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -20,6 +20,7 @@ type Session struct {
 	sync.Mutex
 
 	con           net.Conn
+	writeLock     sync.Mutex // 保证报文逐个完整发送
 	authConf      *codec.AuthConf
 	serverName    string
 	stat          stat
@@ -43,8 +44,12 @@ const (
 	SMGP = "smgp"
 )
 
-// 等待登录完成的最长时间
-const loginTimeout = 10 * time.Second
+const (
+	// 等待登录完成的最长时间
+	loginTimeout = 10 * time.Second
+	// 等待对端接收一个报文的最长时间
+	writeTimeout = 10 * time.Second
+)
 
 // NewSession 创建一个新会话并登录，且启动定时器和接收服务
 func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
@@ -288,6 +293,15 @@ func (s *Session) HealthCheck() bool {
 	return ok
 }
 
+// write 发送一个完整的报文，超时后连接不可再用
+func (s *Session) write(pack []byte) error {
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
+	_ = s.con.SetWriteDeadline(time.Now().Add(writeTimeout))
+	_, err := s.con.Write(pack)
+	return err
+}
+
 func (s *Session) ActiveTest() error {
 	msg := fmt.Sprintf("[%s] ActiveTest", s.serverName)
 	var active codec.RequestPdu
@@ -303,12 +317,11 @@ func (s *Session) ActiveTest() error {
 		return nil
 	}
 	pack := active.Encode()
-	_, err := s.con.Write(pack)
+	err := s.write(pack)
 	if err == nil {
 		log.Info(msg, active.Log()...)
 	} else {
 		log.Error(msg + err.Error())
-		return nil
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 7dfff18f38ea593e01e92957eb4e4551c1bc35e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 35/55] fix: a connection whose heartbeat stays unanswered is
 given up

---
 msc_client/session/session.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 2e60c51..e477d1e 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -27,7 +27,8 @@ type Session struct {
 	counter       uint64
 	periodCounter uint64 // 短周期内的计数器，用于LRU排序算法
 	createTime    time.Time
-	activeTime    time.Time
+	activeTime    time.Time     // 最近一次收到网关报文的时间
+	testTime      time.Time     // 最近一次发送心跳的时间
 	cancel        chan struct{} // 用以接收停止信号
 }
 
@@ -49,6 +50,8 @@ const (
 	loginTimeout = 10 * time.Second
 	// 等待对端接收一个报文的最长时间
 	writeTimeout = 10 * time.Second
+	// 等待心跳响应的最长时间
+	activeTestTimeout = 30 * time.Second
 )
 
 // NewSession 创建一个新会话并登录，且启动定时器和接收服务
@@ -85,7 +88,6 @@ func (s *Session) AddCounterN(n uint64) {
 	defer s.Unlock()
 	s.counter += n
 	s.periodCounter += n
-	s.activeTime = time.Now()
 }
 
 // LruPriority 最近最少使用的优先级最高
@@ -280,16 +282,27 @@ func (s *Session) HealthCheck() bool {
 	}
 	s.Lock()
 	ok := s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
-	idle := s.activeTime.Add(time.Minute).Before(time.Now())
-	s.Unlock()
-
 	// 活跃状态为1分钟前，则发送心跳验证
-	if ok && idle {
-		err := s.ActiveTest()
-		if err != nil {
-			return false
+	test := false
+	if now := time.Now(); ok && s.serverName != SGIP && s.activeTime.Add(time.Minute).Before(now) {
+		if s.testTime.Before(s.activeTime) {
+			test = true
+			s.testTime = now
+		} else if s.testTime.Add(activeTestTimeout).Before(now) {
+			// 心跳一直未得到响应
+			ok = false
 		}
 	}
+	s.Unlock()
+
+	if test {
+		// 检查会话状态的协程不能因对端不接收数据而阻塞
+		go func() {
+			if s.ActiveTest() != nil {
+				s.Close()
+			}
+		}()
+	}
 	return ok
 }
 
-- 
2.43.0


From 4a53130c2791ceff4b1fd79a5a54db5212bed29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 36/55] fix: querying a send that yielded no result does not
 crash

---
 msc_client/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/api.go b/msc_client/api.go
index a8da77c..d430146 100644
--- a/msc_client/api.go
+++ b/msc_client/api.go
@@ -43,7 +43,7 @@ func Query(queryId int64) []any {
 	value, ok := resultQueryCacheMap.Load(queryId)
 	if ok {
 		result, ok := value.([]any)
-		if ok {
+		if ok && len(result) > 0 {
 			_, ok := result[0].(*session.Result)
 			if ok {
 				return result
-- 
2.43.0


From bd0342810f9ee7eae599a3aaf9959b948f0c53a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 37/55] fix: a missing window size does not block every send of
 the client

---
 msc_client/session_factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 05e184b..dfc7935 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -118,7 +118,7 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	}
 
 	winSize := ConfigYml.GetInt(isp + ".mt-window-size")
-	if maxConns > 0 {
+	if winSize > 0 {
 		factory.window = make(chan struct{}, winSize)
 	} else {
 		factory.window = make(chan struct{}, 16)
-- 
2.43.0


From 3cec8e2d964b782862fb5f55b39e9cacf71ea9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 38/55] fix: expired results are removed under the key they are
 stored with

---
 msc_client/session_factory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index dfc7935..650df14 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -230,7 +230,7 @@ func cleanRequestIdCacheMap() {
 		}
 		result := value.(*session.Result)
 		if result.SendTime.Add(d).Before(time.Now()) {
-			expiredKeys = append(expiredKeys, result.SequenceId)
+			expiredKeys = append(expiredKeys, key.(uint64))
 		}
 		return true
 	})
@@ -249,7 +249,7 @@ func cleanMsgIdCacheMap() {
 		}
 		result := value.(*session.Result)
 		if result.SendTime.Add(d).Before(time.Now()) {
-			expiredKeys = append(expiredKeys, result.MsgId)
+			expiredKeys = append(expiredKeys, key.(string))
 		}
 		return true
 	})
-- 
2.43.0


From 9c82bbb48f8ed81aed0972bb1c44e4fb19d81b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 39/55] fix: a send uses any healthy connection and does not
 wait forever for one

---
 msc_client/session_factory.go | 37 +++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 650df14..4143eeb 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -28,6 +28,13 @@ var resultQueryCacheMap sync.Map
 
 var mu sync.Mutex
 
+const (
+	// 建立连接的最长等待时间
+	dialTimeout = 5 * time.Second
+	// 没有可用会话时，发送操作等待重连的最长时间
+	peekTimeout = 5 * time.Second
+)
+
 func AsyncPool() *goroutine.Pool {
 	return pool
 }
@@ -107,7 +114,7 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	}
 
 	// 立即初始化一个连接
-	c, err := net.Dial("tcp", address)
+	c, err := net.DialTimeout("tcp", address, dialTimeout)
 	if err == nil {
 		sc := session.NewSession(isp, ac, c)
 		if sc != nil {
@@ -146,18 +153,28 @@ func (f *SessionFactory) PeekSession() *session.Session {
 		return nil
 	}
 
-	if len(f.sessions) > 0 && f.sessions[0] == nil && f.sessions[0].HealthCheck() {
-		return f.sessions[0]
+	// 没有可用会话时等待重连，但不能无限等待
+	for deadline := time.Now().Add(peekTimeout); ; {
+		if sc := f.firstHealthy(); sc != nil {
+			return sc
+		}
+		if time.Now().After(deadline) {
+			return nil
+		}
+		time.Sleep(time.Millisecond)
 	}
+}
 
-	var ret *session.Session
-	for ret == nil || !ret.HealthCheck() {
-		time.Sleep(time.Millisecond)
-		if len(f.sessions) > 0 {
-			ret = f.sessions[0]
+// firstHealthy 返回列表中第一个可用的会话
+func (f *SessionFactory) firstHealthy() *session.Session {
+	f.Lock()
+	defer f.Unlock()
+	for _, sc := range f.sessions {
+		if sc.HealthCheck() {
+			return sc
 		}
 	}
-	return ret
+	return nil
 }
 
 // StartCacheExpireTicker 过期数据定期检查器
@@ -333,7 +350,7 @@ func (f *SessionFactory) Swap(i, j int) {
 
 func (f *SessionFactory) newConnect() {
 	// 立即初始化一个连接
-	c, err := net.Dial("tcp", f.serverAddr)
+	c, err := net.DialTimeout("tcp", f.serverAddr, dialTimeout)
 	if err == nil {
 		sc := session.NewSession(f.srvName, f.authConf, c)
 		if sc != nil {
-- 
2.43.0


From badbc9bf3e558c8cd89f984f0e8a62f02fb477f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 40/55] fix: dead connections are given up while the client is
 still connecting others

---
 msc_client/session_factory.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 4143eeb..0e6402b 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -297,13 +297,28 @@ func (f *SessionFactory) startLruSortTicker() {
 
 func (f *SessionFactory) lruSort(cancel <-chan bool) {
 	maxConns := ConfigYml.GetInt(f.srvName + ".max-conns")
-	var newSlice []*session.Session
 	if maxConns <= 0 {
 		maxConns = 2
 	}
-	newSlice = make([]*session.Session, 0, maxConns)
+	for f.removeUnhealthy(maxConns) < maxConns {
+		select {
+		case <-cancel:
+			log.Info("Receive signal and stop create new connects.")
+			return
+		default:
+			f.newConnect()
+		}
+		//  使用固定间隔创建会话,避免瞬时创建太多
+		time.Sleep(time.Second)
+	}
+}
+
+// removeUnhealthy 会话排序并去除无效会话，返回剩余的会话数
+func (f *SessionFactory) removeUnhealthy(maxConns int) int {
+	newSlice := make([]*session.Session, 0, maxConns)
 
 	f.Lock()
+	defer f.Unlock()
 	sort.Sort(f) // 排序
 	for _, sc := range f.sessions {
 		if sc.HealthCheck() {
@@ -315,19 +330,7 @@ func (f *SessionFactory) lruSort(cancel <-chan bool) {
 	}
 	// 使用新切片替换原列表
 	f.sessions = newSlice
-	f.Unlock()
-
-	for len(f.sessions) < maxConns {
-		select {
-		case <-cancel:
-			log.Info("Receive signal and stop create new connects.")
-			return
-		default:
-			f.newConnect()
-		}
-		//  使用固定间隔创建会话,避免瞬时创建太多
-		time.Sleep(time.Second)
-	}
+	return len(newSlice)
 }
 
 func (f *SessionFactory) Len() int {
-- 
2.43.0


From 7ce611c08cd31deb0651cdabe2eea0aa1fbc98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 41/55] fix: concurrent creation yields one session factory per
 operator

---
 msc_client/session_factory.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 0e6402b..3a63efc 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -56,7 +56,7 @@ func SelectSession(phone string) *session.Session {
 	var fa *SessionFactory
 	for i, factory := range factories {
 		if factory == nil {
-			factory = CreateSessionFactory(ISPS[i])
+			factory = createSessionFactory(ISPS[i])
 			if factory == nil {
 				continue
 			}
@@ -76,6 +76,13 @@ func SelectSession(phone string) *session.Session {
 
 // CreateSessionFactory 创建或获取由isp指定的factory，isp需与sms.yml配置文件对应，否则会引起程序崩溃
 func CreateSessionFactory(isp string) *SessionFactory {
+	mu.Lock()
+	defer mu.Unlock()
+	return createSessionFactory(isp)
+}
+
+// createSessionFactory 调用者需持有锁 mu，避免同一个isp创建多个factory
+func createSessionFactory(isp string) *SessionFactory {
 	isp = strings.ToLower(isp)
 	saved := factories[ISP(isp).Int()]
 	if saved != nil {
-- 
2.43.0


From 616a93a4b8242c6c52853fe7420a80f47e002609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 42/55] fix: no connection is opened or left open after the
 termination signal

---
 msc_client/destory.go         |  2 ++
 msc_client/session_factory.go | 58 +++++++++++++++++++++++++++++------
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/msc_client/destory.go b/msc_client/destory.go
index 471aff7..50be66b 100644
--- a/msc_client/destory.go
+++ b/msc_client/destory.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"os/signal"
+	"sync/atomic"
 	"syscall"
 
 	"github.com/hrygo/log"
@@ -29,6 +30,7 @@ func init() {
 		log.Warn(fmt.Sprintf("收到信号 [%s] 进程即将结束！", received.String()))
 
 		// 优雅停机的善后处理
+		atomic.StoreInt32(&stopped, 1)
 		event_manager.GracefullyShutdown()
 	}()
 }
diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 3a63efc..f9eae10 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/hrygo/log"
@@ -48,8 +49,12 @@ type SessionFactory struct {
 	window     chan struct{}
 	limiter    *rate.Limiter
 	regex      *regexp.Regexp
+	closed     bool // 停机后不再建立新连接
 }
 
+// stopped 进程停机标识，停机后不再创建factory
+var stopped int32
+
 // SelectSession 根据手机号码选择一个会话
 func SelectSession(phone string) *session.Session {
 	mu.Lock()
@@ -88,6 +93,9 @@ func createSessionFactory(isp string) *SessionFactory {
 	if saved != nil {
 		return saved
 	}
+	if atomic.LoadInt32(&stopped) != 0 {
+		return nil
+	}
 
 	ac := FindAuthConf(isp, ConfigYml.GetString(isp+".client-id"))
 	if ac == nil {
@@ -149,6 +157,10 @@ func createSessionFactory(isp string) *SessionFactory {
 	factory.limiter = rate.NewLimiter(limit, cap(factory.window))
 	factory.startLruSortTicker()
 	factory.RegCloseSessionsHooker()
+	if atomic.LoadInt32(&stopped) != 0 {
+		// 创建过程中收到停机信号，停机钩子可能不会被执行
+		factory.closeSessions()
+	}
 
 	factories[ISP(isp).Int()] = factory
 	return factory
@@ -165,7 +177,7 @@ func (f *SessionFactory) PeekSession() *session.Session {
 		if sc := f.firstHealthy(); sc != nil {
 			return sc
 		}
-		if time.Now().After(deadline) {
+		if f.isClosed() || time.Now().After(deadline) {
 			return nil
 		}
 		time.Sleep(time.Millisecond)
@@ -292,11 +304,12 @@ func (f *SessionFactory) startLruSortTicker() {
 		ticker := time.NewTicker(d)
 		defer ticker.Stop()
 
-		cancel := event_manager.RegisterShutdownHookerAddChan(fmt.Sprintf("Stop_LruSortTicker_%p", f),
-			func(args ...any) { ticker.Stop() },
-		)
+		cancel := event_manager.RegisterShutdownHookerAddChan(fmt.Sprintf("Stop_LruSortTicker_%p", f))
 		for {
 			<-ticker.C
+			if f.isClosed() {
+				return
+			}
 			f.lruSort(cancel)
 		}
 	}()
@@ -313,6 +326,9 @@ func (f *SessionFactory) lruSort(cancel <-chan bool) {
 			log.Info("Receive signal and stop create new connects.")
 			return
 		default:
+			if f.isClosed() {
+				return
+			}
 			f.newConnect()
 		}
 		//  使用固定间隔创建会话,避免瞬时创建太多
@@ -365,8 +381,13 @@ func (f *SessionFactory) newConnect() {
 		sc := session.NewSession(f.srvName, f.authConf, c)
 		if sc != nil {
 			f.Lock()
+			defer f.Unlock()
+			if f.closed {
+				// 建立连接期间已经停机
+				sc.Close()
+				return
+			}
 			f.sessions = append(f.sessions, sc)
-			f.Unlock()
 		}
 	} else {
 		log.Error(err.Error())
@@ -375,14 +396,31 @@ func (f *SessionFactory) newConnect() {
 
 func (f *SessionFactory) RegCloseSessionsHooker() {
 	event_manager.RegisterShutdownHooker(fmt.Sprintf("CloseSessionHooker_%p", f), func(args ...any) {
-		close(f.window)
-		for _, sc := range f.sessions {
-			sc.Close()
-			log.Warnf("session %p closed.", sc)
-		}
+		f.closeSessions()
 	})
 }
 
+// closeSessions 关闭全部会话，且不再建立新会话
+func (f *SessionFactory) closeSessions() {
+	f.Lock()
+	defer f.Unlock()
+	if f.closed {
+		return
+	}
+	f.closed = true
+	close(f.window)
+	for _, sc := range f.sessions {
+		sc.Close()
+		log.Warnf("session %p closed.", sc)
+	}
+}
+
+func (f *SessionFactory) isClosed() bool {
+	f.Lock()
+	defer f.Unlock()
+	return f.closed
+}
+
 type ISP string
 
 var ISPS = [3]string{session.CMPP, session.SGIP, session.SMGP}
-- 
2.43.0


From 0333eb0ea447e2d7a5e3ad18a9afd100c69e119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 43/55] fix: the last part of a long message carries the end of
 the text

---
 utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 8a2423f..4978f6e 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -208,7 +208,7 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 			part = make([]byte, pkgLen)
 		} else {
 			// 最后一片
-			part = make([]byte, 6+tailLen)
+			part = make([]byte, headLen+len(content)-bodyLen*i)
 		}
 		part[0], part[1], part[2] = 0x05, 0x00, 0x03
 		part[3] = groupId
@@ -216,7 +216,7 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 		if i != parts-1 {
 			copy(part[6:pkgLen], content[bodyLen*i:bodyLen*(i+1)])
 		} else {
-			copy(part[6:], content[0:tailLen])
+			copy(part[6:], content[bodyLen*i:])
 		}
 		rt = append(rt, part)
 	}
-- 
2.43.0


From 75dafdd65fd40a620a41fb07a73b77065d54f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 44/55] fix: long messages sent at the same time have different
 references

---
 utils/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index 4978f6e..6389ee8 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -9,6 +9,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 	"unicode/utf8"
 
@@ -185,6 +186,9 @@ func MsgSlices(fmt uint8, content string) (slices [][]byte) {
 	return
 }
 
+// tpUdhiGroup 长短信组标识的计数器，避免同时发送的长短信使用相同的组标识
+var tpUdhiGroup = uint32(time.Now().UnixNano())
+
 // ToTPUDHISlices 拆分为长短信切片
 // 纯ASCII内容的拆分 pkgLen = 160
 // 含中文内容的拆分   pkgLen = 140
@@ -201,7 +205,7 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 		parts++
 	}
 	// 分片消息组的标识，用于收集组装消息
-	groupId := byte(time.Now().UnixNano() & 0xff)
+	groupId := byte(atomic.AddUint32(&tpUdhiGroup, 1))
 	var part []byte
 	for i := 0; i < parts; i++ {
 		if i != parts-1 {
-- 
2.43.0


From 20a71033e9ce213a6c597046da5d6856525e0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 45/55] fix: a text that no sequence of parts can carry is not
 sent altered

---
 codec/cmpp/delivery.go |  5 +++--
 codec/smgp/submit.go   |  3 ++-
 utils/utils.go         | 10 +++++++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 2007713..0f5b112 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -87,8 +87,9 @@ func (d *Delivery) Encode() []byte {
 		// 上行短信，不支持长短信，固定选用第一片 （New时需处理）
 		slices := utils.MsgSlices(d.msgFmt, d.msgContent)
 		// 不支持长短信，固定选用第一片
-		content := slices[0]
-		copy(frame[index:index+l], content)
+		if len(slices) > 0 {
+			copy(frame[index:index+l], slices[0])
+		}
 	}
 	index += l
 	if V30.MajorMatchV(d.Version) {
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index d4184ef..2762689 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/hrygo/log"
 
@@ -68,7 +69,7 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 
 	mt.msgFormat = 15
 	data, err := GbEncoder.Bytes([]byte(content))
-	if err != nil {
+	if err != nil || !utf8.ValidString(content) {
 		return nil
 	}
 	slices := utils.ToTPUDHISlices(data, 140)
diff --git a/utils/utils.go b/utils/utils.go
index 6389ee8..c5c3176 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -176,7 +176,11 @@ func MsgSlices(fmt uint8, content string) (slices [][]byte) {
 	var msgBytes []byte
 	// 含中文
 	if fmt == 8 {
-		msgBytes, _ = Utf8ToUcs2(content)
+		var err error
+		msgBytes, err = Utf8ToUcs2(content)
+		if err != nil {
+			return nil
+		}
 		slices = ToTPUDHISlices(msgBytes, 140)
 	} else {
 		// 纯英文
@@ -204,6 +208,10 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 	if tailLen != 0 {
 		parts++
 	}
+	// 分片总数和序号各只有一个字节
+	if parts > 255 {
+		return nil
+	}
 	// 分片消息组的标识，用于收集组装消息
 	groupId := byte(atomic.AddUint32(&tpUdhiGroup, 1))
 	var part []byte
-- 
2.43.0


From 37ba0eb521793ac0638584cb381aa497c3c3c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 46/55] fix: SMGP packet numbers count from one

---
 codec/smgp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 2762689..47fd2e5 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -96,7 +96,7 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 			l += 5
 			sub.tlvList.Add(PkTotal, []byte{byte(len(slices))})
 			l += 5
-			sub.tlvList.Add(PkNumber, []byte{byte(i)})
+			sub.tlvList.Add(PkNumber, []byte{byte(i + 1)})
 			l += 5
 			sub.PacketLength = uint32(MtBaseLen + len(sub.destTermID)*21 + int(sub.msgLength) + l)
 			messages = append(messages, sub)
-- 
2.43.0


From 0190e2971cd52fd901e5b21a0f6a8c9d8deac298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 47/55] fix: SMGP submits carry the report flag, priority and
 validity the caller or the credential states

---
 codec/smgp/submit.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 47fd2e5..c696b6e 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -378,14 +378,12 @@ func (r *SubmitRsp) Status() Status {
 
 func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 	s.needReport = ac.NeedReport
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.NeedReport != 0 {
+	if options.NeedReport != uint8(0xf) {
 		s.needReport = options.NeedReport
 	}
 
 	s.priority = ac.DefaultMsgLevel
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.MsgLevel != 0 {
+	if options.MsgLevel != uint8(0xf) {
 		s.priority = options.MsgLevel
 	}
 
@@ -398,13 +396,11 @@ func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 		s.atTime = options.AtTime
 	}
 
-	vt := time.Now()
 	if options.ValidTime != "" {
 		s.validTime = options.ValidTime
 	} else {
-		vt.Add(ac.MtValidDuration)
+		s.validTime = utils.FormatTime(time.Now().Add(ac.MtValidDuration))
 	}
-	s.validTime = utils.FormatTime(vt)
 
 	s.srcTermID = ac.SmsDisplayNo
 	if options.SpSubNo != "" {
-- 
2.43.0


From 383f489151d8c5af2e3d8301d619d7f003a732de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 48/55] fix: WithMtOptions has an effect

---
 codec/options_mt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/options_mt.go b/codec/options_mt.go
index cb002a8..c584ee8 100644
--- a/codec/options_mt.go
+++ b/codec/options_mt.go
@@ -37,7 +37,9 @@ type MtOptions struct {
 // WithMtOptions 设置配置项
 func WithMtOptions(opt *MtOptions) OptionFunc {
 	return func(mtOps *MtOptions) {
-		mtOps = opt
+		if opt != nil {
+			*mtOps = *opt
+		}
 	}
 }
 
-- 
2.43.0


From ec7c334fda369dd397080877f543faf493c25cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 49/55] fix: an overlong SGIP field does not spill into the
 next one

---
 codec/sgip/submit.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 5678412..8685af0 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -99,25 +99,25 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, options ...c
 func (s *Submit) Encode() []byte {
 	frame := s.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], s.SPNumber)
+	copy(frame[index:index+21], s.SPNumber)
 	index += 21
-	copy(frame[index:], s.ChargeNumber)
+	copy(frame[index:index+21], s.ChargeNumber)
 	index += 21
 	frame[index] = s.UserCount
 	index++
 	for _, p := range s.UserNumber {
-		copy(frame[index:], p)
+		copy(frame[index:index+21], p)
 		index += 21
 	}
-	copy(frame[index:], s.CorpId)
+	copy(frame[index:index+5], s.CorpId)
 	index += 5
-	copy(frame[index:], s.ServiceType)
+	copy(frame[index:index+10], s.ServiceType)
 	index += 10
 	frame[index] = s.FeeType
 	index++
-	copy(frame[index:], s.FeeValue)
+	copy(frame[index:index+6], s.FeeValue)
 	index += 6
-	copy(frame[index:], s.GivenValue)
+	copy(frame[index:index+6], s.GivenValue)
 	index += 6
 	frame[index] = s.AgentFlag
 	index++
@@ -125,9 +125,9 @@ func (s *Submit) Encode() []byte {
 	index++
 	frame[index] = s.Priority
 	index++
-	copy(frame[index:], s.ExpireTime)
+	copy(frame[index:index+16], s.ExpireTime)
 	index += 16
-	copy(frame[index:], s.ScheduleTime)
+	copy(frame[index:index+16], s.ScheduleTime)
 	index += 16
 	frame[index] = s.ReportFlag
 	index++
-- 
2.43.0


From 2461e1592055aaf7673bb33516b7b00e4b66687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 50/55] fix: the response to a submit finds the record stored
 under its sequence number

---
 msc_client/session/on_traffic_cmpp.go | 2 +-
 msc_client/session/on_traffic_smgp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index d766447..b8cc7ef 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -89,7 +89,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			return
 		}
 		log.Debug(receive, sub.Log()...)
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = sub.Result()
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 7622d15..335fa4b 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -89,7 +89,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			return
 		}
 		log.Debug(receive, sub.Log()...)
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = uint32(sub.Status())
-- 
2.43.0


From ce4c78a8a433ec75ca71e6088d325967f0ca2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:46 +0000
Subject: [PATCH 51/55] fix: an upstream CMPP message carries its text whole up
 to one short message, cut at a character boundary

---
 codec/cmpp/delivery.go | 46 ++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 0f5b112..1407862 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -84,12 +84,8 @@ func (d *Delivery) Encode() []byte {
 		// 状态报告
 		copy(frame[index:index+l], d.report.Encode())
 	} else {
-		// 上行短信，不支持长短信，固定选用第一片 （New时需处理）
-		slices := utils.MsgSlices(d.msgFmt, d.msgContent)
-		// 不支持长短信，固定选用第一片
-		if len(slices) > 0 {
-			copy(frame[index:index+l], slices[0])
-		}
+		// 上行短信，不支持长短信（New时已截断）
+		copy(frame[index:index+l], contentBytes(d.msgFmt, d.msgContent))
 	}
 	index += l
 	if V30.MajorMatchV(d.Version) {
@@ -166,27 +162,33 @@ func (d *Delivery) ToResponse(code uint32) codec.Pdu {
 
 func setMsgContent(dly *Delivery, msg string) {
 	dly.msgFmt = utils.MsgFmt(msg)
-	var l int
+	// 不支持长短信，只取一条短信能容纳的完整字符
+	limit := 160
 	if dly.msgFmt == 8 {
-		l = 2 * len([]rune(msg))
-		if l > 140 {
-			// 只取前70个字符
-			rs := []rune(msg)
-			msg = string(rs[:70])
-			l = 140
-		}
-	} else {
-		l = len(msg)
-		if l > 160 {
-			// 只取前160个字符
-			msg = msg[:160]
-			l = 160
-		}
+		limit = 140
+	}
+	rs := []rune(msg)
+	if len(rs) > limit {
+		rs = rs[:limit]
+		msg = string(rs)
 	}
-	dly.msgLength = uint8(l)
+	for len(contentBytes(dly.msgFmt, msg)) > limit {
+		rs = rs[:len(rs)-1]
+		msg = string(rs)
+	}
+	dly.msgLength = uint8(len(contentBytes(dly.msgFmt, msg)))
 	dly.msgContent = msg
 }
 
+// contentBytes 消息内容按照msgFmt编码后的数据
+func contentBytes(msgFmt uint8, msg string) []byte {
+	if msgFmt == 8 {
+		bytes, _ := utils.Utf8ToUcs2(msg)
+		return bytes
+	}
+	return []byte(msg)
+}
+
 func (d *Delivery) IsReport() bool {
 	return d.registeredDelivery == 1
 }
-- 
2.43.0


From a0120d53be60c90fa64effdfcc620e19fb69a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:46 +0000
Subject: [PATCH 52/55] fix: an upstream SMGP message is cut to the 140 bytes
 of one short message

---
 codec/smgp/deliver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 8514649..59587ea 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -60,6 +60,12 @@ func NewDeliver(ac *codec.AuthConf, phone string, destNo string, txt string, seq
 		subTxt = string(rs)
 	}
 	gbs, _ := GbEncoder.String(subTxt)
+	// 部分字符的编码超过2个字节，一条短信最长140字节
+	for len(gbs) > 140 {
+		rs = rs[:len(rs)-1]
+		subTxt = string(rs)
+		gbs, _ = GbEncoder.String(subTxt)
+	}
 	msg := []byte(gbs)
 	dlv.msgBytes = msg
 	dlv.msgLength = byte(len(msg))
-- 
2.43.0


From 4e68a5749edf0ec47f718bf5bf9d8fb8f35364a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 53/55] fix: the rate limiters grant the configured throughput
 exactly

---
 msc_client/session_factory.go | 9 ++++-----
 msc_server/server/session.go  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index f9eae10..09386f7 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -146,14 +146,13 @@ func createSessionFactory(isp string) *SessionFactory {
 		factory.window = make(chan struct{}, 16)
 	}
 
-	// 默认1W微妙即10毫秒生成一个token，也即tps最大200
-	ev := 10 * time.Millisecond
+	// 默认10毫秒生成一个token，也即tps最大100
+	limit := rate.Every(10 * time.Millisecond)
 	throughput := ConfigYml.GetInt(isp + ".throughput")
 	if throughput > 0 {
-		// 1s = 1000*1000 microsecond = 1000000 microsecond, Throughput 单位时TPS
-		ev = time.Duration(1000000/throughput) * time.Microsecond
+		// throughput 单位是TPS
+		limit = rate.Limit(throughput)
 	}
-	limit := rate.Every(ev)
 	factory.limiter = rate.NewLimiter(limit, cap(factory.window))
 	factory.startLruSortTicker()
 	factory.RegCloseSessionsHooker()
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index e976e1e..5bd95d6 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -100,13 +100,12 @@ func (s *session) completeLogin(ac *codec.AuthConf) {
 }
 
 func (s *session) setupLimiter(ac *codec.AuthConf) {
-	// 默认1W微妙即10毫秒生成一个token，也即tps最大200
-	ev := 10 * time.Millisecond
+	// 默认10毫秒生成一个token，也即tps最大100
+	limit := rate.Every(10 * time.Millisecond)
 	if ac != nil && ac.Throughput != 0 {
-		// 1s = 1000*1000 microsecond = 1000000 microsecond, Throughput 单位时TPS
-		ev = time.Duration(1000000/ac.Throughput) * time.Microsecond
+		// Throughput 单位是TPS
+		limit = rate.Limit(ac.Throughput)
 	}
-	limit := rate.Every(ev)
 	s.limiter = rate.NewLimiter(limit, cap(s.window))
 }
 
-- 
2.43.0


From f664cd95c88bea7a1bfc6ff8b9d0e4b7b86a1e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:47 +0000
Subject: [PATCH 54/55] fix: an operator with an invalid number segment does
 not crash sends

---
 msc_client/session_factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 09386f7..e077e89 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -66,7 +66,7 @@ func SelectSession(phone string) *session.Session {
 				continue
 			}
 		}
-		if factory.regex.MatchString(phone) {
+		if factory.regex != nil && factory.regex.MatchString(phone) {
 			fa = factory
 			break
 		}
-- 
2.43.0


From e140c47b22fdbc7ed8f9f936a02cf31a850735b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:14 +0000
Subject: [PATCH 55/55] fix: a configured rate of zero still let one in ten
 thousand through

---
 utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index c5c3176..a242713 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -242,9 +242,9 @@ func RandNum(min, max int) int {
 	return rand.Intn(max-min) + min
 }
 
-// DiceCheck 投概率骰子，得到结果比给定数字大则返回true，否则返回false
+// DiceCheck 投概率骰子，得到结果不小于给定数字则返回true，否则返回false
 func DiceCheck(prob float64) bool {
-	return float64(rand.Intn(10000))/10000.0 > prob
+	return float64(rand.Intn(10000))/10000.0 >= prob
 }
 
 // StructCopy 采用反射拷贝结构体属性
-- 
2.43.0

