From 13b1d14d1f3dcbc099ae5d0d5e880282130e3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 01/31] fix: server: assemble requests from any stream
 segmentation, drop truncated ones

conn.serve took a single Read of the 7 byte header, so a header split over two
TCP segments closed the connection; and io.Copy from a LimitReader reports no
error at EOF, so a request cut off by the end of the connection was executed
with whatever part of it had arrived. Sizes below the header size cannot be
resynchronised and close the connection.
---
 protocol/server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/server.go b/protocol/server.go
index 3da8bd5..efcdff4 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -212,16 +212,20 @@ func (c *conn) serve() {
 
 	for !c.dead {
 		l := make([]byte, 7)
-		if n, err := c.rwc.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.rwc, l); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
 		}
 		sz := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if sz < 7 {
+			c.logf("readNetPackets: bad packet size %d", sz)
+			c.dead = true
+			return
+		}
 		t := MType(l[4])
 		b := bytes.NewBuffer(l[5:])
-		r := io.LimitReader(c.rwc, sz-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.rwc, sz-7); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From 4ad1d173801dec2e5f0020ccd393187c996a886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:24 +0000
Subject: [PATCH 02/31] fix: decoding: a field cut short is an error, not a
 value

bytes.Buffer.Read returns fewer bytes than asked for without an error, so a
message ending in the middle of an integer was decoded with the missing bytes
taken from the previous field.
---
 protocol/gen.go    |   5 +-
 protocol/genout.go | 175 +++++++++++++++++++++++----------------------
 2 files changed, 91 insertions(+), 89 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 17e6cf2..173fcaf 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -41,6 +41,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 `
@@ -143,7 +144,7 @@ return
 	ufunc = template.Must(template.New("mr").Parse(`func Unmarshal{{.UFunc}}Pkt (b *bytes.Buffer) ({{.URet}} t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -217,7 +218,7 @@ func emitEncodeInt(v interface{}, n string, l int, e *emitter) {
 func emitDecodeInt(v interface{}, n string, l int, e *emitter) {
 	t := reflect.ValueOf(v).Type().Name()
 	debug("emit reflect.ValueOf(v) %s %v, %v", t, n, l)
-	e.UCode.WriteString(fmt.Sprintf("\tif _, err = b.Read(u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
+	e.UCode.WriteString(fmt.Sprintf("\tif _, err = io.ReadFull(b, u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
 	e.UCode.WriteString(fmt.Sprintf("\t%v = %s(u[0])\n", n, t))
 	for i := 1; i < l; i++ {
 		e.UCode.WriteString(fmt.Sprintf("\t%v |= %s(u[%d])<<%v\n", n, t, i, i*8))
diff --git a/protocol/genout.go b/protocol/genout.go
index 05107d6..25d5e4a 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -3,6 +3,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
@@ -24,13 +25,13 @@ return
 func UnmarshalRerrorPkt (b *bytes.Buffer) (Error string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -71,13 +72,13 @@ return
 func UnmarshalRversionPkt (b *bytes.Buffer) (RMsize MaxSize, RVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -85,7 +86,7 @@ t = Tag(l)
 	RMsize |= MaxSize(u[1])<<8
 	RMsize |= MaxSize(u[2])<<16
 	RMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -126,13 +127,13 @@ return
 func UnmarshalTversionPkt (b *bytes.Buffer) (TMsize MaxSize, TVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -140,7 +141,7 @@ t = Tag(l)
 	TMsize |= MaxSize(u[1])<<8
 	TMsize |= MaxSize(u[2])<<16
 	TMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -220,18 +221,18 @@ return
 func UnmarshalRattachPkt (b *bytes.Buffer) (QID QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -239,7 +240,7 @@ t = Tag(l)
 	QID.Version |= uint32(u[1])<<8
 	QID.Version |= uint32(u[2])<<16
 	QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -287,13 +288,13 @@ return
 func UnmarshalTattachPkt (b *bytes.Buffer) (SFID FID, AFID FID, Uname string, Aname string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -301,7 +302,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -309,7 +310,7 @@ t = Tag(l)
 	AFID |= FID(u[1])<<8
 	AFID |= FID(u[2])<<16
 	AFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -321,7 +322,7 @@ t = Tag(l)
 	}
 	Uname = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -388,7 +389,7 @@ return
 func UnmarshalRflushPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -419,13 +420,13 @@ return
 func UnmarshalTflushPkt (b *bytes.Buffer) (OTag Tag,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -504,13 +505,13 @@ return
 func UnmarshalRwalkPkt (b *bytes.Buffer) (QIDs []QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -518,12 +519,12 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	QIDs = make([]QID, l)
 for i := range QIDs {
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QIDs[i].Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -531,7 +532,7 @@ for i := range QIDs {
 	QIDs[i].Version |= uint32(u[1])<<8
 	QIDs[i].Version |= uint32(u[2])<<16
 	QIDs[i].Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -582,13 +583,13 @@ return
 func UnmarshalTwalkPkt (b *bytes.Buffer) (SFID FID, NewFID FID, Paths []string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -596,7 +597,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -604,7 +605,7 @@ t = Tag(l)
 	NewFID |= FID(u[1])<<8
 	NewFID |= FID(u[2])<<16
 	NewFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -612,7 +613,7 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	Paths = make([]string, l)
 for i := range Paths {
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -697,18 +698,18 @@ return
 func UnmarshalRopenPkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -716,7 +717,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -728,7 +729,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -764,13 +765,13 @@ return
 func UnmarshalTopenPkt (b *bytes.Buffer) (OFID FID, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -778,7 +779,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -855,18 +856,18 @@ return
 func UnmarshalRcreatePkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -874,7 +875,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -886,7 +887,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -929,13 +930,13 @@ return
 func UnmarshalTcreatePkt (b *bytes.Buffer) (OFID FID, Name string, CreatePerm Perm, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -943,7 +944,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -955,7 +956,7 @@ t = Tag(l)
 	}
 	Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -963,7 +964,7 @@ t = Tag(l)
 	CreatePerm |= Perm(u[1])<<8
 	CreatePerm |= Perm(u[2])<<16
 	CreatePerm |= Perm(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -1026,13 +1027,13 @@ return
 func UnmarshalRstatPkt (b *bytes.Buffer) (B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1067,13 +1068,13 @@ return
 func UnmarshalTstatPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1136,7 +1137,7 @@ return
 func UnmarshalRwstatPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1172,13 +1173,13 @@ return
 func UnmarshalTwstatPkt (b *bytes.Buffer) (OFID FID, B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1186,7 +1187,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1249,7 +1250,7 @@ return
 func UnmarshalRclunkPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1282,13 +1283,13 @@ return
 func UnmarshalTclunkPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1351,7 +1352,7 @@ return
 func UnmarshalRremovePkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1384,13 +1385,13 @@ return
 func UnmarshalTremovePkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1458,13 +1459,13 @@ return
 func UnmarshalRreadPkt (b *bytes.Buffer) (Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1513,13 +1514,13 @@ return
 func UnmarshalTreadPkt (b *bytes.Buffer) (OFID FID, Off Offset, Len Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1527,7 +1528,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1539,7 +1540,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1606,13 +1607,13 @@ return
 func UnmarshalRwritePkt (b *bytes.Buffer) (RLen Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1660,13 +1661,13 @@ return
 func UnmarshalTwritePkt (b *bytes.Buffer) (OFID FID, Off Offset, Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1674,7 +1675,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1686,7 +1687,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1807,13 +1808,13 @@ func Unmarshaldir (b *bytes.Buffer) (D Dir,  err error) {
 var u [8]uint8
 var l uint64
 _ = b.Next(2) // eat the length too
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	D.Type = uint16(u[0])
 	D.Type |= uint16(u[1])<<8
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1821,12 +1822,12 @@ _ = b.Next(2) // eat the length too
 	D.Dev |= uint32(u[1])<<8
 	D.Dev |= uint32(u[2])<<16
 	D.Dev |= uint32(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	D.QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1834,7 +1835,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Version |= uint32(u[1])<<8
 	D.QID.Version |= uint32(u[2])<<16
 	D.QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1846,7 +1847,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Path |= uint64(u[5])<<40
 	D.QID.Path |= uint64(u[6])<<48
 	D.QID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1854,7 +1855,7 @@ _ = b.Next(2) // eat the length too
 	D.Mode |= uint32(u[1])<<8
 	D.Mode |= uint32(u[2])<<16
 	D.Mode |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1862,7 +1863,7 @@ _ = b.Next(2) // eat the length too
 	D.Atime |= uint32(u[1])<<8
 	D.Atime |= uint32(u[2])<<16
 	D.Atime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1870,7 +1871,7 @@ _ = b.Next(2) // eat the length too
 	D.Mtime |= uint32(u[1])<<8
 	D.Mtime |= uint32(u[2])<<16
 	D.Mtime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1882,7 +1883,7 @@ _ = b.Next(2) // eat the length too
 	D.Length |= uint64(u[5])<<40
 	D.Length |= uint64(u[6])<<48
 	D.Length |= uint64(u[7])<<56
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1894,7 +1895,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1906,7 +1907,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.User = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1918,7 +1919,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Group = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
-- 
2.43.0


From 88973dc458c2662af3136edd9cc0e2ec18830aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:26 +0000
Subject: [PATCH 03/31] fix: decoding: bound data fields by what the packet
 holds

The count of a data field was used to slice the buffer unchecked: a count past
the buffer's capacity panicked and took the whole process down, and a smaller
one exposed stale bytes beyond the end of the packet as data.
---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index 173fcaf..e1e108c 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -340,11 +340,13 @@ func genDecodeSlice(v interface{}, n string, e *emitter) error {
 	case "[]byte", "[]uint8":
 		var u uint64
 		emitDecodeInt(u, "l", 4, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	case "[]protocol.DataCnt16":
 		var u uint64
 		emitDecodeInt(u, "l", 2, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	default:
diff --git a/protocol/genout.go b/protocol/genout.go
index 25d5e4a..92185aa 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -1039,6 +1039,10 @@ t = Tag(l)
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1193,6 +1197,10 @@ t = Tag(l)
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1473,6 +1481,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1695,6 +1707,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
-- 
2.43.0


From 670a77506f74399a47a9392f848df298b7163c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 04/31] fix: server: refuse requests that do not decode

The server stubs ignored the decode error and called the file server with
whatever had been decoded, e.g. a Tremove without a body removed fid 0.
---
 protocol/gen.go    |  6 ++--
 protocol/genout.go | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index e1e108c..b6be0ef 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -159,8 +159,10 @@ return
 `))
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
diff --git a/protocol/genout.go b/protocol/genout.go
index 92185aa..bd0ab3d 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -161,8 +161,10 @@ return
 }
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -342,8 +344,10 @@ return
 }
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -440,8 +444,10 @@ return
 }
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rflush(OTag); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -634,8 +640,10 @@ return
 }
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -792,8 +800,10 @@ return
 }
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -977,8 +987,10 @@ return
 }
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1094,8 +1106,10 @@ return
 }
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1211,8 +1225,10 @@ return
 }
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1313,8 +1329,10 @@ return
 }
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1415,8 +1433,10 @@ return
 }
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rremove(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1568,8 +1588,10 @@ return
 }
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1721,8 +1743,10 @@ return
 }
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
-- 
2.43.0


From 64c424c9317b18c584f0a36b3ff626b97427dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 05/31] fix: client: assemble replies from any stream
 segmentation, drop truncated ones

As in the server: one Read of the header declared the connection dead when the
header came in two pieces, and a reply cut off by EOF was delivered truncated.
---
 protocol/client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9f67f3c..6c66a19 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -93,7 +93,7 @@ func (c *Client) readNetPackets() {
 			c.Trace("Before read")
 		}
 
-		if n, err := c.FromNet.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
@@ -102,9 +102,13 @@ func (c *Client) readNetPackets() {
 			c.Trace("Server reads %v", l)
 		}
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if s < 7 {
+			log.Printf("readNetPackets: bad packet size %d", s)
+			c.Dead = true
+			return
+		}
 		b := bytes.NewBuffer(l)
-		r := io.LimitReader(c.FromNet, s-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.FromNet, s-7); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
-- 
2.43.0


From b418ec0170c060d5b5def26e5273f7d7ee2e164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:49 +0000
Subject: [PATCH 06/31] fix: client: do not call a nil Trace

A client created without a Trace function panicked on its first reply.
---
 protocol/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 6c66a19..bc8ab14 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -164,9 +164,10 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
-		c.Trace("RPC %v ", c.RPC[t-1])
 		rrr := c.RPC[t-1]
-		c.Trace("rrr %v ", rrr)
+		if c.Trace != nil {
+			c.Trace("RPC %v ", rrr)
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From a23e48461bcea092682d3ba22161fb14d033ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 07/31] fix: client: when the connection dies calls fail
 instead of crashing or hanging

"Once a client is marked Dead all further requests to it will fail." Instead,
end of file from the server made the reply loop dereference a nil reply and
panic, a failed write called log.Fatalf, and without either a call made on a
dead client waited for ever.
---
 protocol/client.go | 71 +++++++++++++++++++++++++++++++++++----
 protocol/gen.go    |  7 ++--
 protocol/genout.go | 84 ++++++++++++++++++++++++++--------------------
 3 files changed, 117 insertions(+), 45 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index bc8ab14..32ca3c4 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -8,10 +8,12 @@ package protocol
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"log"
 	"runtime"
+	"sync"
 	"sync/atomic"
 )
 
@@ -33,8 +35,14 @@ type Client struct {
 	Msize      uint32
 	Dead       bool
 	Trace      Tracer
+
+	// done is closed when the client is marked Dead.
+	done     chan struct{}
+	doneOnce sync.Once
 }
 
+var errDead = errors.New("client is dead: connection lost")
+
 func NewClient(opts ...ClientOpt) (*Client, error) {
 	var c = &Client{}
 
@@ -51,6 +59,7 @@ func NewClient(opts ...ClientOpt) (*Client, error) {
 	}
 	c.FromClient = make(chan *RPCCall, NumTags)
 	c.FromServer = make(chan *RPCReply)
+	c.done = make(chan struct{})
 	go c.IO()
 	go c.readNetPackets()
 	return c, nil
@@ -74,12 +83,48 @@ func (c *Client) GetFID() FID {
 	return FID(atomic.AddUint64(&c.FID, 1))
 }
 
+// die marks the client Dead and fails the outstanding and all further calls.
+func (c *Client) die() {
+	c.doneOnce.Do(func() {
+		c.Dead = true
+		close(c.done)
+	})
+}
+
+// rpc sends a request and returns the reply to it, or an error once the
+// client is Dead.
+func (c *Client) rpc(b []byte) ([]byte, error) {
+	r := make(chan []byte, 1)
+	select {
+	case <-c.done:
+		return nil, errDead
+	default:
+	}
+	select {
+	case c.FromClient <- &RPCCall{b: b, Reply: r}:
+	case <-c.done:
+		return nil, errDead
+	}
+	select {
+	case bb := <-r:
+		return bb, nil
+	case <-c.done:
+	}
+	// The reply may have come in before the client died.
+	select {
+	case bb := <-r:
+		return bb, nil
+	default:
+		return nil, errDead
+	}
+}
+
 func (c *Client) readNetPackets() {
 	if c.FromNet == nil {
 		if c.Trace != nil {
 			c.Trace("c.FromNet is nil, marking dead")
 		}
-		c.Dead = true
+		c.die()
 		return
 	}
 	defer c.FromNet.Close()
@@ -127,8 +172,18 @@ func (c *Client) readNetPackets() {
 func (c *Client) IO() {
 	go func() {
 		for {
-			r := <-c.FromClient
-			t := <-c.Tags
+			var r *RPCCall
+			var t Tag
+			select {
+			case r = <-c.FromClient:
+			case <-c.done:
+				return
+			}
+			select {
+			case t = <-c.Tags:
+			case <-c.done:
+				return
+			}
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
@@ -142,15 +197,19 @@ func (c *Client) IO() {
 				c.Trace("Write %v to ToNet", r.b)
 			}
 			if _, err := c.ToNet.Write(r.b); err != nil {
-				c.Dead = true
-				log.Fatalf("Write to server: %v", err)
+				log.Printf("Write to server: %v", err)
+				c.die()
 				return
 			}
 		}
 	}()
 
 	for {
-		r := <-c.FromServer
+		r, ok := <-c.FromServer
+		if !ok {
+			c.die()
+			return
+		}
 		if c.Trace != nil {
 			c.Trace("Read %v FromServer", r.b)
 		}
diff --git a/protocol/gen.go b/protocol/gen.go
index b6be0ef..10360fc 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -176,11 +176,12 @@ func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return {{.R.UList}} err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index bd0ab3d..7b91c8b 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -177,11 +177,12 @@ func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize,
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tversion)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return RMsize, RVersion,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -360,11 +361,12 @@ func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QI
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tattach)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return QID,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -460,11 +462,12 @@ func (c *Client)CallTflush (OTag Tag) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tflush)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTflushPkt(&b, t, OTag)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -656,11 +659,12 @@ func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  e
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twalk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return QIDs,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -816,11 +820,12 @@ func (c *Client)CallTopen (OFID FID, Omode Mode) (OQID QID, IOUnit MaxSize,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Topen)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTopenPkt(&b, t, OFID, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1003,11 +1008,12 @@ func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode)
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tcreate)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1122,11 +1128,12 @@ func (c *Client)CallTstat (OFID FID) (B []byte,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTstatPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return B,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1241,11 +1248,12 @@ func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwstatPkt(&b, t, OFID, B)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1345,11 +1353,12 @@ func (c *Client)CallTclunk (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tclunk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTclunkPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1449,11 +1458,12 @@ func (c *Client)CallTremove (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tremove)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTremovePkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1604,11 +1614,12 @@ func (c *Client)CallTread (OFID FID, Off Offset, Len Count) (Data []uint8,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tread)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTreadPkt(&b, t, OFID, Off, Len)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return Data,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1759,11 +1770,12 @@ func (c *Client)CallTwrite (OFID FID, Off Offset, Data []uint8) (RLen Count,  er
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twrite)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwritePkt(&b, t, OFID, Off, Data)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return RLen,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
-- 
2.43.0


From a979a75737b431a6bc15d7e8698015f188f4a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:39 +0000
Subject: [PATCH 08/31] fix: client: drop replies to no outstanding request

A reply with a reserved or never used tag panicked, and a second reply to the
same request blocked the reply loop, hanging every call from then on.
---
 protocol/client.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 32ca3c4..8b0462c 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -217,16 +217,15 @@ func (c *Client) IO() {
 		if c.Trace != nil {
 			c.Trace(fmt.Sprintf("Tag for reply is %v", t))
 		}
-		if t < 1 {
-			panic(fmt.Sprintf("tag %d < 1", t))
-		}
-		if int(t-1) >= len(c.RPC) {
-			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
+		if t < 1 || int(t-1) >= len(c.RPC) || c.RPC[t-1] == nil {
+			log.Printf("Dropping reply with tag %d: no such request", t)
+			continue
 		}
 		rrr := c.RPC[t-1]
 		if c.Trace != nil {
 			c.Trace("RPC %v ", rrr)
 		}
+		c.RPC[t-1] = nil
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From 63d0758119d5c18726192e0defbcb535b2b232f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 09/31] fix: client: a reply of the wrong type is an error

Any reply that was not an Rerror was decoded as if it were the expected one, so
e.g. an Rclunk completed a remove.
---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index 10360fc..5f06309 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -188,6 +188,8 @@ if MType(bb[4]) == Rerror {
 		return {{.R.UList}} err
 	}
 	return {{.R.UList}} fmt.Errorf("%v", s)
+} else if MType(bb[4]) != {{.R.MFunc}} {
+	return {{.R.UList}} fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	{{.R.MList}}{{.R.MLsep}} _, err = Unmarshal{{.R.UFunc}}Pkt(bytes.NewBuffer(bb[5:]))
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index 7b91c8b..b595ccb 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -189,6 +189,8 @@ if MType(bb[4]) == Rerror {
 		return RMsize, RVersion,  err
 	}
 	return RMsize, RVersion,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rversion {
+	return RMsize, RVersion,  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	RMsize, RVersion,  _, err = UnmarshalRversionPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -373,6 +375,8 @@ if MType(bb[4]) == Rerror {
 		return QID,  err
 	}
 	return QID,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rattach {
+	return QID,  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	QID,  _, err = UnmarshalRattachPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -474,6 +478,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rflush {
+	return  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	 _, err = UnmarshalRflushPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -671,6 +677,8 @@ if MType(bb[4]) == Rerror {
 		return QIDs,  err
 	}
 	return QIDs,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwalk {
+	return QIDs,  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	QIDs,  _, err = UnmarshalRwalkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -832,6 +840,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Ropen {
+	return OQID, IOUnit,  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRopenPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1020,6 +1030,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rcreate {
+	return OQID, IOUnit,  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRcreatePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1140,6 +1152,8 @@ if MType(bb[4]) == Rerror {
 		return B,  err
 	}
 	return B,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rstat {
+	return B,  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	B,  _, err = UnmarshalRstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1260,6 +1274,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwstat {
+	return  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	 _, err = UnmarshalRwstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1365,6 +1381,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rclunk {
+	return  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	 _, err = UnmarshalRclunkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1470,6 +1488,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rremove {
+	return  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	 _, err = UnmarshalRremovePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1626,6 +1646,8 @@ if MType(bb[4]) == Rerror {
 		return Data,  err
 	}
 	return Data,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rread {
+	return Data,  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	Data,  _, err = UnmarshalRreadPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1782,6 +1804,8 @@ if MType(bb[4]) == Rerror {
 		return RLen,  err
 	}
 	return RLen,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwrite {
+	return RLen,  fmt.Errorf("unexpected reply type %d", bb[4])
 } else {
 	RLen,  _, err = UnmarshalRwritePkt(bytes.NewBuffer(bb[5:]))
 }
-- 
2.43.0


From 41881a2d2f5ed85a15d9874ff617bf2def2f35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 10/31] fix: ufs: refuse to open a fid that is open already

A second open replaced the open file, leaking its descriptor; if the second open
failed the fid was no longer open at all. Rcreate has the same check.
---
 filesystem/filesystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2523097..85a9f9f 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -169,6 +169,10 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 		return protocol.QID{}, 0, fmt.Errorf("does not exist")
 	}
 
+	if f.file != nil {
+		return protocol.QID{}, 0, fmt.Errorf("FID already open")
+	}
+
 	var err error
 	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
 	if err != nil {
-- 
2.43.0


From efe285d2fb07253265476b73aef73dafa328d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 11/31] fix: ufs: a walk does not share or drop the open file
 of its fid

Cloning an open fid shared its os.File, so clunking the clone closed the file
under the original. Walking an open fid onto itself dropped the open file,
leaking the descriptor; 9P does not allow that walk.
---
 filesystem/filesystem.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 85a9f9f..439bca5 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -115,8 +115,9 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
 		}
-		nf := *f
-		e.files[newfid] = &nf
+		// The clone is not open, even if fid is: they must not share
+		// the open file, or a clunk of one would close it for both.
+		e.files[newfid] = &file{fullName: f.fullName, QID: f.QID}
 		return []protocol.QID{}, nil
 	}
 	p := f.fullName
@@ -152,7 +153,11 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 	e.mu.Lock()
 	defer e.mu.Unlock()
 	// this is quite unlikely, which is why we don't bother checking for it first.
-	if fid != newfid {
+	if fid == newfid {
+		if f.file != nil {
+			return nil, fmt.Errorf("FID already open")
+		}
+	} else {
 		if _, ok := e.files[newfid]; ok {
 			return nil, fmt.Errorf("FID in use: walk to %v, fid %v, newfid %v", paths, fid, newfid)
 		}
-- 
2.43.0


From 1994cb291382dab1656d57d7ecf9722d67cf6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 12/31] fix: ufs: allow a walk of no names from a fid to itself

walk(5): newfid must not be in use unless it is the same as fid.
---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 439bca5..39be103 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -111,6 +111,9 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 	if len(paths) == 0 {
 		e.mu.Lock()
 		defer e.mu.Unlock()
+		if fid == newfid {
+			return []protocol.QID{}, nil
+		}
 		_, ok := e.files[newfid]
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
-- 
2.43.0


From 1c30b52b23f9ca04bad660cc91111abf9c488449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 13/31] fix: ufs: report a failed mkdir

The error was overwritten by the following stat, so creating a directory over
an existing file or directory succeeded without creating anything.
---
 filesystem/filesystem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 39be103..8604267 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -200,7 +200,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	n := path.Join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
-		err := os.Mkdir(n, p)
+		if err := os.Mkdir(n, p); err != nil {
+			return protocol.QID{}, 0, err
+		}
 		_, q, err := stat(n)
 		if err != nil {
 			return protocol.QID{}, 0, err
-- 
2.43.0


From f89b7475417f71284b29704c6921b15c14bcd44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 14/31] fix: ufs: keep read replies within the negotiated msize

The msize was neither limited nor remembered and a read was answered with as
many bytes as it asked for. A count of 2^31 or more became negative, and the
allocation of the buffer panicked, taking down the server for all clients.
---
 filesystem/filesystem.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 8604267..22de97a 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -36,6 +36,9 @@ type FileServer struct {
 	Versioned bool
 	IOunit    protocol.MaxSize
 
+	// msize is the negotiated maximum message size
+	msize protocol.MaxSize
+
 	// mu guards below
 	mu    sync.Mutex
 	files map[protocol.FID]*file
@@ -64,7 +67,14 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
+	if msize <= protocol.IOHDRSZ {
+		return 0, "", fmt.Errorf("msize %v too small", msize)
+	}
+	if msize > protocol.MSIZE {
+		msize = protocol.MSIZE
+	}
 	e.Versioned = true
+	e.msize = msize
 	return msize, version, nil
 }
 
@@ -383,6 +393,10 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if f.file == nil {
 		return nil, fmt.Errorf("FID not open")
 	}
+	// The count is unsigned on the wire, and the reply has to fit in msize.
+	if max := protocol.Count(e.msize - protocol.IOHDRSZ); c < 0 || c > max {
+		c = max
+	}
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
@@ -466,6 +480,7 @@ func NewUFS(opts ...protocol.ListenerOpt) (*protocol.Listener, error) {
 		f.files = make(map[protocol.FID]*file)
 		f.rootPath = *root // for now.
 		f.IOunit = 8192
+		f.msize = protocol.MSIZE
 		// any opts for the ufs layer can be added here too ...
 		var d protocol.NineServer = f
 		if *debug != 0 {
-- 
2.43.0


From 49ea982e64ac89fe5872b60ef1c6ba5146c04f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 15/31] fix: ufs: a version request clunks all fids

version(5): it initializes the connection and frees all active fids. They stayed
in use, with their files open.
---
 filesystem/filesystem.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 22de97a..7edf444 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -75,6 +75,16 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	}
 	e.Versioned = true
 	e.msize = msize
+	// A version request starts a new session: all fids are clunked.
+	e.mu.Lock()
+	var fids []protocol.FID
+	for fid := range e.files {
+		fids = append(fids, fid)
+	}
+	e.mu.Unlock()
+	for _, fid := range fids {
+		e.clunk(fid)
+	}
 	return msize, version, nil
 }
 
-- 
2.43.0


From 21e789f96a3d104b2fd2065fb066935e7601e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 16/31] fix: ufs: refuse to attach to a fid that is in use

It was silently redirected to the root, leaking its open file.
---
 filesystem/filesystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 7edf444..fb0ebce 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -112,6 +112,11 @@ func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string,
 	}
 	r := &file{fullName: aname}
 	r.QID = fileInfoToQID(st)
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	if _, ok := e.files[fid]; ok {
+		return protocol.QID{}, fmt.Errorf("FID in use: attach, fid %d", fid)
+	}
 	e.files[fid] = r
 	e.root = r
 	return r.QID, nil
-- 
2.43.0


From c3bca64ac4beff7c3e154cff27e2d64cede77b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 17/31] fix: ufs: announce an iounit that fits in the
 negotiated msize

open(5): iounit bytes can be read or written in one message, but 8192 and 8000
were announced whatever the msize.
---
 filesystem/filesystem.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index fb0ebce..9667129 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -99,6 +99,14 @@ func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	return f, nil
 }
 
+// iounit limits u to the data that fits in one message.
+func (e *FileServer) iounit(u protocol.MaxSize) protocol.MaxSize {
+	if max := e.msize - protocol.IOHDRSZ; u > max {
+		return max
+	}
+	return u
+}
+
 func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string, aname string) (protocol.QID, error) {
 	if afid != protocol.NOFID {
 		return protocol.QID{}, fmt.Errorf("We don't do auth attach")
@@ -212,7 +220,7 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 		return protocol.QID{}, 0, err
 	}
 
-	return f.QID, e.IOunit, nil
+	return f.QID, e.iounit(e.IOunit), nil
 }
 func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm, mode protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
 	f, err := e.getFile(fid)
@@ -234,7 +242,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 		}
 		f.fullName = n
 		f.QID = q
-		return q, 8000, err
+		return q, e.iounit(8000), err
 	}
 
 	m := modeToUnixFlags(mode) | os.O_CREATE | os.O_TRUNC
@@ -250,7 +258,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	f.fullName = n
 	f.QID = q
 	f.file = of
-	return q, 8000, err
+	return q, e.iounit(8000), err
 }
 func (e *FileServer) Rclunk(fid protocol.FID) error {
 	_, err := e.clunk(fid)
-- 
2.43.0


From 1d62ebd71b6b30becfe7daa35e18b36917260f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 18/31] fix: ufs: keep clients inside the served root

Walking .. from the root left it, as did a create or walk with a name like
../x, a wstat renaming to an absolute name with .. in it, and one renaming the
root itself, which moved it in the directory above; removing the root changed
that directory too. Names are now resolved as in a chroot, and the root can not
be renamed or removed.
---
 filesystem/filesystem.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 9667129..515b5da 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -88,6 +88,23 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	return msize, version, nil
 }
 
+// join returns the path name leads to from p, which is in the served tree.
+// Like in a chroot, .. from the root leads to the root: nothing outside of it
+// can be named.
+func (e *FileServer) join(p, name string) (string, error) {
+	rel, err := filepath.Rel(path.Join(e.rootPath, "/"), p)
+	if err != nil {
+		return "", err
+	}
+	return path.Join(e.rootPath, path.Join("/", filepath.ToSlash(rel), name)), nil
+}
+
+// isRoot tells whether p is the root of the served tree. Its name and its being
+// there belong to the directory above it, which is not served.
+func (e *FileServer) isRoot(p string) bool {
+	return p == path.Join(e.rootPath, "/")
+}
+
 func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	e.mu.Lock()
 	defer e.mu.Unlock()
@@ -161,8 +178,11 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 
 	var i int
 	for i = range paths {
-		p = path.Join(p, paths[i])
-		st, err := os.Lstat(p)
+		var st os.FileInfo
+		var err error
+		if p, err = e.join(p, paths[i]); err == nil {
+			st, err = os.Lstat(p)
+		}
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
 			// reason, Rerror is returned. Otherwise, the walk will return an
@@ -230,7 +250,10 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
-	n := path.Join(f.fullName, name)
+	n, err := e.join(f.fullName, name)
+	if err != nil {
+		return protocol.QID{}, 0, err
+	}
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
 		if err := os.Mkdir(n, p); err != nil {
@@ -319,6 +342,10 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 
 	if dir.Name != "" {
 		changed = true
+		// The root has no name in the served tree that could be changed.
+		if e.isRoot(f.fullName) {
+			return fmt.Errorf("Permission denied")
+		}
 		// If we path.Join dir.Name to / before adding it to
 		// the fid path, that ensures nobody gets to walk out of the
 		// root of this server.
@@ -329,7 +356,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		// we will make it relative to root. This is a gigantic performance
 		// improvement in systems that allow it.
 		if filepath.IsAbs(dir.Name) {
-			newname = path.Join(e.rootPath, dir.Name)
+			newname = path.Join(e.rootPath, path.Join("/", dir.Name))
 		}
 
 		// If to exists, and to is a directory, we can't do the
@@ -405,6 +432,9 @@ func (e *FileServer) Rremove(fid protocol.FID) error {
 	if err != nil {
 		return err
 	}
+	if e.isRoot(f.fullName) {
+		return fmt.Errorf("Permission denied")
+	}
 	return os.Remove(f.fullName)
 }
 
-- 
2.43.0


From 30ae5767cadf50ff9b7105e82580b20010738a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 19/31] fix: ufs: a directory read with a small count does not
 lose the entry

An entry that did not fit in the count was dropped, so listings taken with the
rest of a buffer as count, as Linux clients do, missed it. Keep it in oflow, as
the comment there says, and start the next read with it.
---
 filesystem/filesystem.go | 43 +++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 515b5da..8dc4755 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -461,21 +461,11 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 		// We make the assumption that they can always fit at least one
 		// directory entry into a read. If that assumption does not hold
 		// so many things are broken that we can't fix them here.
-		// But we'll drop out of the loop below having returned nothing
-		// anyway.
-		b := bytes.NewBuffer(f.oflow)
-		f.oflow = nil
-		pos := 0
-
-		for {
-			if b.Len() > int(c) {
-				f.oflow = b.Bytes()[pos:]
-				return b.Bytes()[:pos], nil
-			}
-			pos += b.Len()
+		// But we'll return nothing and keep the entry for the next read.
+		if f.oflow == nil {
 			st, err := f.file.Readdir(1)
 			if err == io.EOF {
-				return b.Bytes(), nil
+				return nil, nil
 			}
 			if err != nil {
 				return nil, err
@@ -485,19 +475,22 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 			if err != nil {
 				return nil, err
 			}
-			protocol.Marshaldir(b, *d9p)
-			// Seen on linux clients: sometimes the math is wrong and
-			// they end up asking for the last element with not enough data.
-			// Linux bug or bug with this server? Not sure yet.
-			if b.Len() > int(c) {
-				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: skipping", d9p, b.Len(), c)
-				return nil, nil
-			}
-			// We're not quite doing the array right.
-			// What does work is returning one thing so, for now, do that.
-			return b.Bytes(), nil
+			var b bytes.Buffer
+			protocol.Marshaldir(&b, *d9p)
+			f.oflow = b.Bytes()
 		}
-		return b.Bytes(), nil
+		// Seen on linux clients: sometimes the math is wrong and
+		// they end up asking for the last element with not enough data.
+		// Linux bug or bug with this server? Not sure yet.
+		if len(f.oflow) > int(c) {
+			log.Printf("Warning: Server bug? need %d bytes;count is %d", len(f.oflow), c)
+			return nil, nil
+		}
+		// We're not quite doing the array right.
+		// What does work is returning one thing so, for now, do that.
+		b := f.oflow
+		f.oflow = nil
+		return b, nil
 	}
 
 	// N.B. even if they ask for 0 bytes on some file systems it is important to pass
-- 
2.43.0


From 05fa3ddeb7da25ffe1830b568aa0a7b5709f2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 20/31] fix: ufs: a wstat that is refused changes nothing

stat(5): either all the changes are made or none. The mode was changed before
an owner change was refused or a rename failed, and the file renamed before its
length could not be set.
---
 filesystem/filesystem.go | 68 +++++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 8dc4755..a5dd33b 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -305,7 +305,7 @@ func (e *FileServer) Rstat(fid protocol.FID) ([]byte, error) {
 	protocol.Marshaldir(&b, *d)
 	return b.Bytes(), nil
 }
-func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
+func (e *FileServer) Rwstat(fid protocol.FID, b []byte) (err error) {
 	var changed bool
 	f, err := e.getFile(fid)
 	if err != nil {
@@ -315,18 +315,60 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
-	if dir.Mode != 0xFFFFFFFF {
-		changed = true
-		mode := dir.Mode & 0777
-		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
-			return err
+
+	// stat(5): either all of the changes are made or none of them. undo
+	// takes back the ones made if a later one fails.
+	var undo []func()
+	defer func() {
+		if err == nil {
+			return
 		}
-	}
+		for i := len(undo) - 1; i >= 0; i-- {
+			undo[i]()
+		}
+	}()
 
 	// Try to find local uid, gid by name.
 	if dir.User != "" || dir.Group != "" {
 		return fmt.Errorf("Permission denied")
+	}
+
+	// Shrinking a file can not be undone. Here we make sure we can, and do
+	// so when nothing else is left that might fail.
+	var shrink *os.File
+	if dir.Length != 0xFFFFFFFFFFFFFFFF {
 		changed = true
+		st, err := os.Stat(f.fullName)
+		if err != nil {
+			return err
+		}
+		if !st.Mode().IsRegular() || int64(dir.Length) < 0 {
+			return fmt.Errorf("can not set length")
+		}
+		if int64(dir.Length) > st.Size() {
+			if err := os.Truncate(f.fullName, int64(dir.Length)); err != nil {
+				return err
+			}
+			undo = append(undo, func() { os.Truncate(f.fullName, st.Size()) })
+		} else {
+			if shrink, err = os.OpenFile(f.fullName, os.O_WRONLY, 0); err != nil {
+				return err
+			}
+			defer shrink.Close()
+		}
+	}
+
+	if dir.Mode != 0xFFFFFFFF {
+		changed = true
+		st, err := os.Stat(f.fullName)
+		if err != nil {
+			return err
+		}
+		mode := dir.Mode & 0777
+		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
+			return err
+		}
+		undo = append(undo, func() { os.Chmod(f.fullName, st.Mode()) })
 	}
 
 	/*
@@ -366,15 +408,19 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		if err == nil && st.IsDir() {
 			return fmt.Errorf("is a directory")
 		}
-		if err := os.Rename(f.fullName, newname); err != nil {
+		oldname := f.fullName
+		if err := os.Rename(oldname, newname); err != nil {
 			return err
 		}
+		undo = append(undo, func() {
+			os.Rename(newname, oldname)
+			f.fullName = oldname
+		})
 		f.fullName = newname
 	}
 
-	if dir.Length != 0xFFFFFFFFFFFFFFFF {
-		changed = true
-		if err := os.Truncate(f.fullName, int64(dir.Length)); err != nil {
+	if shrink != nil {
+		if err := shrink.Truncate(int64(dir.Length)); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From cce9fb96033a9147c16065435dc26c8be3559aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 21/31] fix: server: keep error replies decodable

An error text longer than 65535 bytes, e.g. one that quotes a long version
string or many names, overflowed the 16 bit length of its string, and the reply
could not be decoded.
---
 protocol/gen.go    |  4 ++--
 protocol/genout.go | 48 +++++++++++++++++++++++-----------------------
 protocol/server.go | 10 ++++++++++
 3 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 5f06309..983c3d1 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -160,11 +160,11 @@ return
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	Marshal{{.R.MFunc}}Pkt(b, t, {{.R.MList}})
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index b595ccb..c30c58b 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -162,11 +162,11 @@ return
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRversionPkt(b, t, RMsize, RVersion)
 }
@@ -348,11 +348,11 @@ return
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRattachPkt(b, t, QID)
 }
@@ -451,11 +451,11 @@ return
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if  err := s.NS.Rflush(OTag); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRflushPkt(b, t, )
 }
@@ -650,11 +650,11 @@ return
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwalkPkt(b, t, QIDs)
 }
@@ -813,11 +813,11 @@ return
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRopenPkt(b, t, OQID, IOUnit)
 }
@@ -1003,11 +1003,11 @@ return
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRcreatePkt(b, t, OQID, IOUnit)
 }
@@ -1125,11 +1125,11 @@ return
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRstatPkt(b, t, B)
 }
@@ -1247,11 +1247,11 @@ return
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwstatPkt(b, t, )
 }
@@ -1354,11 +1354,11 @@ return
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRclunkPkt(b, t, )
 }
@@ -1461,11 +1461,11 @@ return
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if  err := s.NS.Rremove(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRremovePkt(b, t, )
 }
@@ -1619,11 +1619,11 @@ return
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRreadPkt(b, t, Data)
 }
@@ -1777,11 +1777,11 @@ return
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
 	if err != nil {
-		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		MarshalRerrorPkt(b, t, errorText(err))
 		return err
 	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorText(err))
 } else {
 	MarshalRwritePkt(b, t, RLen)
 }
diff --git a/protocol/server.go b/protocol/server.go
index efcdff4..22749bd 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -10,6 +10,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"sync"
 	"time"
@@ -247,6 +248,15 @@ func (c *conn) serve() {
 	}
 }
 
+// errorText returns the text of err, as much of it as an Rerror can carry.
+func errorText(err error) string {
+	s := fmt.Sprintf("%v", err)
+	if len(s) > math.MaxUint16 {
+		s = s[:math.MaxUint16]
+	}
+	return s
+}
+
 // Dispatch dispatches request to different functions.
 // It's also the the first place we try to establish server semantics.
 // We could do this with interface assertions and such a la rsc/fuse
-- 
2.43.0


From 6b0d1ccf83a3f8cb3ce51e1d664d032431d502a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 22/31] fix: ufs: a refused wstat leaves the modification time
 alone too

---
 filesystem/filesystem.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index a5dd33b..98077dc 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -349,7 +349,10 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) (err error) {
 			if err := os.Truncate(f.fullName, int64(dir.Length)); err != nil {
 				return err
 			}
-			undo = append(undo, func() { os.Truncate(f.fullName, st.Size()) })
+			undo = append(undo, func() {
+				os.Truncate(f.fullName, st.Size())
+				os.Chtimes(f.fullName, st.ModTime(), st.ModTime())
+			})
 		} else {
 			if shrink, err = os.OpenFile(f.fullName, os.O_WRONLY, 0); err != nil {
 				return err
-- 
2.43.0


From 5367235437264a2e750de183da6ee904bf779b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 23/31] fix: ufs: refuse to create in what is not a directory

---
 filesystem/filesystem.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 98077dc..7ca6d7a 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -250,6 +250,13 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
+	st, err := os.Stat(f.fullName)
+	if err != nil {
+		return protocol.QID{}, 0, err
+	}
+	if !st.IsDir() {
+		return protocol.QID{}, 0, fmt.Errorf("not a directory")
+	}
 	n, err := e.join(f.fullName, name)
 	if err != nil {
 		return protocol.QID{}, 0, err
-- 
2.43.0


From f463a5b2721ec9fe5c299ffaf0da925e559f960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:20 +0000
Subject: [PATCH 24/31] fix: ufs: reading a directory survives entries that
 vanish

---
 filesystem/filesystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 7ca6d7a..57c8bb6 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -520,6 +520,11 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 		// But we'll return nothing and keep the entry for the next read.
 		if f.oflow == nil {
 			st, err := f.file.Readdir(1)
+			// There is no error and nothing in st for an entry that is
+			// gone by the time it is looked at.
+			for err == nil && len(st) == 0 {
+				st, err = f.file.Readdir(1)
+			}
 			if err == io.EOF {
 				return nil, nil
 			}
-- 
2.43.0


From 640df6ed3499a5f869a8fecce9e03cca2dfa22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:24 +0000
Subject: [PATCH 25/31] fix: ufs: opening a fid reports and reads the file that
 was opened

The qid of a fid was taken when it was walked. When the file at its path
had been replaced since, open returned the qid of the old file, and when
it had been a directory and was a file by then, or the other way round,
reads failed.
---
 filesystem/filesystem.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 57c8bb6..fa36676 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -234,11 +234,18 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
 
-	var err error
-	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
+	of, err := os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
 	if err != nil {
 		return protocol.QID{}, 0, err
 	}
+	// It need not be the file any more that was there when fid was walked.
+	st, err := of.Stat()
+	if err != nil {
+		of.Close()
+		return protocol.QID{}, 0, err
+	}
+	f.file = of
+	f.QID = fileInfoToQID(st)
 
 	return f.QID, e.iounit(e.IOunit), nil
 }
-- 
2.43.0


From 10fe9ce54ec6592b7f2d0c73280137d359c17a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 26/31] fix: undo a change of mode by the real name of the file

A wstat that fails takes back the mode it set, by the name of the fid. If a
symbolic link in that name leads to a directory above the link, the name does
not lead there any more once the directory can not be searched, and the mode
stayed.
---
 filesystem/filesystem.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index fa36676..c15e31f 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -381,11 +381,17 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) (err error) {
 		if err != nil {
 			return err
 		}
+		// A link in the name may lead to a directory above the link. Once
+		// that can not be searched, the name does not lead there any more.
+		name, err := filepath.EvalSymlinks(f.fullName)
+		if err != nil {
+			return err
+		}
 		mode := dir.Mode & 0777
-		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
+		if err := os.Chmod(name, os.FileMode(mode)); err != nil {
 			return err
 		}
-		undo = append(undo, func() { os.Chmod(f.fullName, st.Mode()) })
+		undo = append(undo, func() { os.Chmod(name, st.Mode()) })
 	}
 
 	/*
-- 
2.43.0


From 3cc0ca5473c2408147fb5cf65e67ddf7dadfc16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 27/31] fix: do not rename a link over the file it leads to

The file was lost, and if new times were asked for as well the wstat failed,
with no way to take back the rename.
---
 filesystem/filesystem.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index c15e31f..559d483 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -432,6 +432,14 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) (err error) {
 			return fmt.Errorf("is a directory")
 		}
 		oldname := f.fullName
+		// A link can not take the place of the file it leads to: the file
+		// would be lost, and the link lead nowhere.
+		if st != nil && newname != oldname {
+			old, err := os.Stat(oldname)
+			if err == nil && isLink(oldname) && os.SameFile(old, st) {
+				return fmt.Errorf("is the same file")
+			}
+		}
 		if err := os.Rename(oldname, newname); err != nil {
 			return err
 		}
@@ -476,6 +484,11 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) (err error) {
 	return nil
 }
 
+func isLink(name string) bool {
+	st, err := os.Lstat(name)
+	return err == nil && st.Mode()&os.ModeSymlink != 0
+}
+
 func (e *FileServer) clunk(fid protocol.FID) (*file, error) {
 	e.mu.Lock()
 	defer e.mu.Unlock()
-- 
2.43.0


From 6884dc8ccb71388185c561b614b4ccaea59ac545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 28/31] fix: leave the access time alone when only the
 modification time is set

It became the time 0xFFFFFFFF, which is how a wstat says that the access time
is to stay.
---
 filesystem/filesystem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 559d483..75f64d7 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -365,7 +365,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) (err error) {
 			}
 			undo = append(undo, func() {
 				os.Truncate(f.fullName, st.Size())
-				os.Chtimes(f.fullName, st.ModTime(), st.ModTime())
+				os.Chtimes(f.fullName, time.Time{}, st.ModTime())
 			})
 		} else {
 			if shrink, err = os.OpenFile(f.fullName, os.O_WRONLY, 0); err != nil {
@@ -470,7 +470,8 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) (err error) {
 			case true:
 				mt = st.ModTime()
 			default:
-				//at = atime(st.Sys().(*syscall.Stat_t))
+				// os.Chtimes leaves a zero time as it is.
+				at = time.Time{}
 			}
 		}
 		if err := os.Chtimes(f.fullName, at, mt); err != nil {
-- 
2.43.0


From ab0ebfaa016d7203f2a637f50bbbd90edc7c8530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 29/31] fix: do not replace a file before a wstat that can not
 set the times

If the fid is a symbolic link that leads nowhere, no times can be set. That
was found out after the rename, when the file that had the new name was lost.
---
 filesystem/filesystem.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 75f64d7..850835d 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -432,6 +432,13 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) (err error) {
 			return fmt.Errorf("is a directory")
 		}
 		oldname := f.fullName
+		// What the rename replaces can not be brought back. So here we make
+		// sure that there is something to set the times of.
+		if dir.Mtime != ^uint32(0) || dir.Atime != ^uint32(0) {
+			if _, err := os.Stat(oldname); err != nil {
+				return err
+			}
+		}
 		// A link can not take the place of the file it leads to: the file
 		// would be lost, and the link lead nowhere.
 		if st != nil && newname != oldname {
-- 
2.43.0


From 20e277f0154eb4c9d18c67bc932c531c17e89762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:10 +0000
Subject: [PATCH 30/31] fix: close the files of a connection that has ended

---
 filesystem/filesystem.go | 9 +++++++--
 pkg/debugfs/debug.go     | 7 +++++++
 protocol/protocol.go     | 6 ++++++
 protocol/server.go       | 3 +++
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 850835d..b0edd08 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -75,7 +75,13 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	}
 	e.Versioned = true
 	e.msize = msize
-	// A version request starts a new session: all fids are clunked.
+	// A version request starts a new session.
+	e.EndSession()
+	return msize, version, nil
+}
+
+// EndSession clunks all fids.
+func (e *FileServer) EndSession() {
 	e.mu.Lock()
 	var fids []protocol.FID
 	for fid := range e.files {
@@ -85,7 +91,6 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	for _, fid := range fids {
 		e.clunk(fid)
 	}
-	return msize, version, nil
 }
 
 // join returns the path name leads to from p, which is in the served tree.
diff --git a/pkg/debugfs/debug.go b/pkg/debugfs/debug.go
index e157c9a..2e6ed09 100644
--- a/pkg/debugfs/debug.go
+++ b/pkg/debugfs/debug.go
@@ -26,6 +26,13 @@ func (dfs *DebugFileServer) Rversion(msize protocol.MaxSize, version string) (pr
 	return msize, version, err
 }
 
+// EndSession passes on the end of the session.
+func (dfs *DebugFileServer) EndSession() {
+	if e, ok := dfs.FileServer.(protocol.SessionEnder); ok {
+		e.EndSession()
+	}
+}
+
 func (dfs *DebugFileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string, aname string) (protocol.QID, error) {
 	log.Printf(">>> Tattach fid %v,  afid %v, uname %v, aname %v\n", fid, afid,
 		uname, aname)
diff --git a/protocol/protocol.go b/protocol/protocol.go
index b655e16..947107b 100644
--- a/protocol/protocol.go
+++ b/protocol/protocol.go
@@ -309,6 +309,12 @@ type NineServer interface {
 	Rflush(Otag Tag) error
 }
 
+// SessionEnder may be implemented by a NineServer that wants to know when the
+// connection it serves has ended. No more requests come then.
+type SessionEnder interface {
+	EndSession()
+}
+
 var (
 	RPCNames = map[MType]string{
 		Tversion: "Tversion",
diff --git a/protocol/server.go b/protocol/server.go
index 22749bd..81bad19 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -208,6 +208,9 @@ func (c *conn) serve() {
 	c.remoteAddr = c.rwc.RemoteAddr().String()
 
 	defer c.rwc.Close()
+	if e, ok := c.server.NS.(SessionEnder); ok {
+		defer e.EndSession()
+	}
 
 	c.logf("Starting readNetPackets")
 
-- 
2.43.0


From 3a6681cc831b32dc6cf12171de94e0cd87bfd1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 31/31] fix: close the connection of a client that has failed

---
 protocol/client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/protocol/client.go b/protocol/client.go
index 8b0462c..cc099a6 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -84,10 +84,17 @@ func (c *Client) GetFID() FID {
 }
 
 // die marks the client Dead and fails the outstanding and all further calls.
+// The connection is closed, so that nothing waits for it any more.
 func (c *Client) die() {
 	c.doneOnce.Do(func() {
 		c.Dead = true
 		close(c.done)
+		if c.ToNet != nil {
+			c.ToNet.Close()
+		}
+		if c.FromNet != nil {
+			c.FromNet.Close()
+		}
 	})
 }
 
-- 
2.43.0

