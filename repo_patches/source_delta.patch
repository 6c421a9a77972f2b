From 0675d35859d26a85b5329268a041a8adacee83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 01/22] fix: stop the KVScanner after the announced number of
 entries

A NOTIFY frame can carry several messages. The scanner of the first
message ignored its argument count and consumed the following messages
as arguments.
---
 pkg/encoding/kvscanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 5a5b5ab..56c317b 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -184,7 +184,9 @@ func (k *KVEntry) Reset() {
 }
 
 func (k *KVScanner) Next(e *KVEntry) bool {
-	if len(k.buf) == 0 {
+	// A negative count means the whole buffer consists of entries. Otherwise,
+	// the entries may be followed by data that doesn't belong to this list.
+	if len(k.buf) == 0 || k.left == 0 {
 		return false
 	}
 
-- 
2.43.0


From d8c9520793d53609c36a9528a98780289bb064ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 02/22] fix: don't write a partial action for an invalid
 address

SetAddr wrote the action header before it noticed that the address is
not valid, which left a truncated action in the ACK frame.
---
 pkg/encoding/actionwriter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/encoding/actionwriter.go b/pkg/encoding/actionwriter.go
index 168b269..55ea63c 100644
--- a/pkg/encoding/actionwriter.go
+++ b/pkg/encoding/actionwriter.go
@@ -220,6 +220,10 @@ func (aw *ActionWriter) SetUInt64(s varScope, name string, v uint64) error {
 }
 
 func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
+	if !v.IsValid() {
+		return fmt.Errorf("invalid address")
+	}
+
 	if err := aw.actionHeader(ActionTypeSetVar, s, []byte(name)); err != nil {
 		return err
 	}
-- 
2.43.0


From a226ee9f2cecf83b36735584b5c0f211afc6d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 03/22] fix: only treat a true healthcheck item as a
 healthcheck

HAPROXY-HELLO with healthcheck=false closed the connection.
---
 spop/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a742d68..a02118f 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -145,7 +145,9 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		case k.NameEquals(helloKeyHealthcheck):
 			// as described in the protocol, close connection after hello
 			// AGENT-HELLO + close()
-			defer c.ctxCancel(nil)
+			if k.ValueBool() {
+				defer c.ctxCancel(nil)
+			}
 		}
 	}
 
-- 
2.43.0


From bee5ebad99efe5493c37e8a2279a2d3a29d67ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 04/22] fix: don't interleave frames of the same connection

A frame is written with up to three writes, and all workers write the
ACK frames of a connection concurrently.
---
 spop/frame.go    |  6 ++++++
 spop/protocol.go | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/spop/frame.go b/spop/frame.go
index 9868f62..b5fb252 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -87,6 +87,12 @@ func (f *frame) writeTo(w io.Writer, payload []byte) (int64, error) {
 	}
 	binary.BigEndian.PutUint32(f.length, uint32(frameLen))
 
+	// Frames of the same connection must not be interleaved.
+	if l, ok := w.(sync.Locker); ok {
+		l.Lock()
+		defer l.Unlock()
+	}
+
 	n, err := w.Write(f.length)
 	written := int64(n)
 	if err != nil {
diff --git a/spop/protocol.go b/spop/protocol.go
index a02118f..9e6b6fb 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"sync"
 	"syscall"
 
 	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
@@ -13,14 +14,24 @@ import (
 func newProtocolClient(ctx context.Context, rw io.ReadWriter, as *asyncScheduler, handler Handler) *protocolClient {
 	var c protocolClient
 	c.rw = rw
+	c.w = &lockedWriter{Writer: rw}
 	c.handler = handler
 	c.ctx, c.ctxCancel = context.WithCancelCause(ctx)
 	c.as = as
 	return &c
 }
 
+// lockedWriter is shared by everything that writes frames to a connection.
+// Since writing a frame takes multiple writes, it has to be locked for the
+// whole frame.
+type lockedWriter struct {
+	io.Writer
+	sync.Mutex
+}
+
 type protocolClient struct {
 	rw      io.ReadWriter
+	w       *lockedWriter
 	handler Handler
 	ctx     context.Context
 
@@ -42,7 +53,7 @@ func (c *protocolClient) Close() error {
 	// best effort anyway.
 	_, _ = (&AgentDisconnectFrame{
 		ErrCode: ErrorUnknown,
-	}).WriteTo(c.rw)
+	}).WriteTo(c.w)
 
 	c.ctxCancel(fmt.Errorf("closing client"))
 
@@ -162,7 +173,7 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		Version:      version,
 		MaxFrameSize: c.maxFrameSize,
 		Capabilities: []string{},
-	}).WriteTo(c.rw)
+	}).WriteTo(c.w)
 	return err
 }
 
@@ -195,7 +206,7 @@ func (c *protocolClient) onNotify(f *frame) error {
 		FrameID:              f.meta.FrameID,
 		StreamID:             f.meta.StreamID,
 		ActionWriterCallback: fn,
-	}).writeTo(c.rw, c.maxFrameSize)
+	}).writeTo(c.w, c.maxFrameSize)
 	return err
 }
 
-- 
2.43.0


From a8577e8751c28b1dd54ca5899e1846bf7cb8e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 05/22] fix: answer HAPROXY-DISCONNECT and close the connection

The frame was handed to a worker that only cancelled the context, while
the connection stayed open until HAProxy closed it.
---
 spop/protocol.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index 9e6b6fb..519f66a 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -111,6 +111,10 @@ func (c *protocolClient) Serve() error {
 			continue
 		}
 
+		if f.frameType == frameTypeIDHaproxyDisconnect {
+			return c.frameHandler(f)
+		}
+
 		c.as.schedule(f, c)
 	}
 }
@@ -247,5 +251,12 @@ func (c *protocolClient) onHAProxyDisconnect(f *frame) error {
 	}
 
 	c.ctxCancel(err)
+
+	// HAProxy expects us to answer with a disconnect frame and to close the
+	// connection. As in Close, this is best effort.
+	_, _ = (&AgentDisconnectFrame{
+		ErrCode: ErrorNone,
+	}).WriteTo(c.w)
+
 	return err
 }
-- 
2.43.0


From 43535b3088043d54d46c6901088ddadc2e0c03d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 06/22] fix: close the connections when the base context is
 done

Connections stayed open until HAProxy closed them.
---
 spop/agent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spop/agent.go b/spop/agent.go
index 545944b..be6d3c9 100644
--- a/spop/agent.go
+++ b/spop/agent.go
@@ -62,6 +62,10 @@ func (a *Agent) Serve(l net.Listener) error {
 
 		p := newProtocolClient(a.BaseContext, nc, as, a.Handler)
 		go func() {
+			// A pending read or write doesn't notice that the context is done.
+			stop := context.AfterFunc(a.BaseContext, func() { nc.Close() })
+			defer stop()
+
 			defer nc.Close()
 			defer p.Close()
 
-- 
2.43.0


From 181ace1b0ba6000fb24b15410f6cda4449e7b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 07/22] fix: decode the period of glitch_rate columns

---
 peers/sticktable/constants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d41c3ac..d8826df 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -110,7 +110,8 @@ func (d DataType) IsDelay() bool {
 		DataTypeBytesInRate,
 		DataTypeBytesOutRate,
 		DataTypeGPC1Rate,
-		DataTypeHttpFailRate:
+		DataTypeHttpFailRate,
+		DataTypeGlitchRate:
 		return true
 	default:
 		return false
-- 
2.43.0


From d0dd5b4dd92464b1351f7a44556d7e13c374ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 08/22] fix: encode and decode dictionary entries like HAProxy
 does

---
 peers/sticktable/values.go | 57 ++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 97fdc92..7b436c0 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -191,6 +191,9 @@ func (f *DictData) String() string {
 	return fmt.Sprintf("%d: %v", f.ID, f.Value)
 }
 
+// Unmarshal decodes a dictionary entry: the length of the remaining data,
+// the ID of the entry in the cache of the sender and, unless the value was
+// sent before, the length of the value and the value itself.
 func (f *DictData) Unmarshal(b []byte) (int, error) {
 	var offset int
 	length, n, err := encoding.Varint(b[offset:])
@@ -204,29 +207,34 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
-	id, n, err := encoding.Varint(b[offset:])
+	if length > uint64(len(b)-offset) {
+		return offset, fmt.Errorf("invalid dictionary entry length: %d", length)
+	}
+	end := offset + int(length)
+
+	id, n, err := encoding.Varint(b[offset:end])
 	offset += n
 	if err != nil {
 		return offset, err
 	}
 	f.ID = id
 
-	if length == 1 {
+	if offset == end {
 		return offset, nil
 	}
 
-	valueLength, n, err := encoding.Varint(b[offset:])
+	valueLength, n, err := encoding.Varint(b[offset:end])
 	offset += n
 	if err != nil {
 		return offset, err
 	}
 
-	if valueLength == 0 {
-		return offset, nil
+	if valueLength != uint64(end-offset) {
+		return offset, fmt.Errorf("invalid dictionary value length: %d", valueLength)
 	}
 
 	value := make([]byte, valueLength)
-	offset += copy(value, b[offset:])
+	offset += copy(value, b[offset:end])
 	f.Value = value
 
 	return offset, nil
@@ -305,30 +313,37 @@ func (v *UnsignedLongLongData) Marshal(b []byte) (int, error) {
 }
 
 func (f *DictData) Marshal(b []byte) (int, error) {
-	var offset int
-
-	n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
-	offset += n
-	if err != nil {
-		return offset, err
+	if f.ID == 0 {
+		// No entry
+		return encoding.PutVarint(b, 0)
 	}
 
-	n, err = encoding.PutVarint(b[offset:], uint64(f.ID))
-	offset += n
+	var header [20]byte
+	idLength, err := encoding.PutVarint(header[:], f.ID)
 	if err != nil {
-		return offset, err
+		return 0, err
 	}
 
-	if len(f.Value) > 0 {
-		n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
-		offset += n
+	headerLength := idLength
+	if f.Value != nil {
+		n, err := encoding.PutVarint(header[idLength:], uint64(len(f.Value)))
 		if err != nil {
-			return offset, err
+			return 0, err
 		}
+		headerLength += n
+	}
+
+	// The length of everything that follows it.
+	offset, err := encoding.PutVarint(b, uint64(headerLength+len(f.Value)))
+	if err != nil {
+		return 0, err
+	}
 
-		copy(b[offset:], f.Value)
-		offset += len(f.Value)
+	if len(b)-offset < headerLength+len(f.Value) {
+		return offset, encoding.ErrInsufficientSpace
 	}
+	offset += copy(b[offset:], header[:headerLength])
+	offset += copy(b[offset:], f.Value)
 
 	return offset, nil
 }
-- 
2.43.0


From 7177b9bc55441dcafc43d29593695b6cac1d5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 09/22] fix: reject truncated and malformed stick-table
 messages instead of panicking

---
 peers/sticktable/constants.go   |  2 +-
 peers/sticktable/sticktables.go |  9 +++++++++
 peers/sticktable/values.go      | 22 ++++++++++++++++++++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d8826df..cc5ff3b 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -33,7 +33,7 @@ func (t KeyType) New() MapKey {
 	case KeyTypeBinary:
 		return new(BinaryKey)
 	default:
-		panic("unknown key type: " + t.String())
+		return nil
 	}
 }
 
diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 134d0b1..bc08be2 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -38,6 +38,9 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if nameLength > uint64(len(b)-offset) {
+		return offset, errShortMessage
+	}
 	name := make([]byte, nameLength)
 	offset += copy(name, b[offset:])
 	s.Name = string(name)
@@ -224,11 +227,17 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	// We already have a correct update ID loaded from the caller,
 	// so we just override it when the message has its own
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, errShortMessage
+		}
 		e.LocalUpdateID = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, errShortMessage
+		}
 		e.Expiry = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 7b436c0..2c50f4e 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -2,12 +2,15 @@ package sticktable
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"net/netip"
 
 	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
 )
 
+var errShortMessage = errors.New("message is too short")
+
 type MapKey interface {
 	fmt.Stringer
 	Unmarshal(b []byte, keySize uint64) (int, error)
@@ -17,6 +20,10 @@ type MapKey interface {
 type SignedIntegerKey int32
 
 func (v *SignedIntegerKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, errShortMessage
+	}
+
 	*v = SignedIntegerKey(binary.BigEndian.Uint32(b))
 	return 4, nil
 }
@@ -32,6 +39,10 @@ func (v *IPv4AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
 
+	if len(b) < 4 {
+		return 0, errShortMessage
+	}
+
 	*v = IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
 	return 4, nil
 }
@@ -47,6 +58,10 @@ func (v *IPv6AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
 
+	if len(b) < 16 {
+		return 0, errShortMessage
+	}
+
 	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
 
 	return 16, nil
@@ -66,6 +81,9 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if valueLength == 0 {
 		return n, nil
 	}
+	if valueLength > uint64(len(b)-n) {
+		return n, errShortMessage
+	}
 	*v = StringKey(b[n : n+int(valueLength)])
 	return n + int(valueLength), nil
 }
@@ -77,6 +95,10 @@ func (v *StringKey) String() string {
 type BinaryKey []byte
 
 func (v *BinaryKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, errShortMessage
+	}
+
 	*v = b[:keySize]
 	return int(keySize), nil
 }
-- 
2.43.0


From 151f09181b7547093c2dcc1f020907cc84497c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 10/22] fix: report stick-table messages that don't fit instead
 of truncating them

---
 peers/sticktable/sticktables.go |  9 +++++++++
 peers/sticktable/values.go      | 24 +++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index bc08be2..39cda00 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -122,6 +122,9 @@ func (s *Definition) Marshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if len(b)-offset < len(s.Name) {
+		return offset, encoding.ErrInsufficientSpace
+	}
 	offset += copy(b[offset:], s.Name)
 
 	n, err = encoding.PutVarint(b[offset:], uint64(s.KeyType))
@@ -196,11 +199,17 @@ func (e *EntryUpdate) String() string {
 func (e *EntryUpdate) Marshal(b []byte) (int, error) {
 	var offset int
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.LocalUpdateID)
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.Expiry)
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 2c50f4e..4320bc6 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -263,6 +263,9 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
 	binary.BigEndian.PutUint32(b, uint32(*v))
 	return 4, nil
 }
@@ -271,6 +274,12 @@ func (v *IPv4AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
+	if addr := (*netip.Addr)(v); !addr.Is4() && !addr.Is4In6() {
+		return 0, fmt.Errorf("invalid ipv4 key: %s", addr)
+	}
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
 	a := (*netip.Addr)(v).As4()
 	copy(b, a[:])
 	return 4, nil
@@ -280,6 +289,9 @@ func (v *IPv6AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
+	if len(b) < 16 {
+		return 0, encoding.ErrInsufficientSpace
+	}
 	a := (*netip.Addr)(v).As16()
 	copy(b, a[:])
 	return 16, nil
@@ -291,11 +303,21 @@ func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
 		return n, err
 	}
 
+	if len(b)-n < len(*v) {
+		return n, encoding.ErrInsufficientSpace
+	}
+
 	return n + copy(b[n:], *v), nil
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
-	return copy(b[:keySize], *v), nil
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
+	// A binary key always has the length of the table's keys.
+	clear(b[copy(b[:keySize], *v):keySize])
+	return int(keySize), nil
 }
 
 func (f *FreqData) Marshal(b []byte) (int, error) {
-- 
2.43.0


From 24d567a8bc4a1a55909a8a3bc2250b31b7f0e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 11/22] fix: don't keep the connection locked when marshaling
 an entry panics

---
 peers/writer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/peers/writer.go b/peers/writer.go
index 2a378e3..e4dcf7b 100644
--- a/peers/writer.go
+++ b/peers/writer.go
@@ -170,6 +170,8 @@ func marshalEntry(buf []byte, entry *sticktable.EntryUpdate, updateID uint32) (i
 // Note: for bulk operations, prefer SendEntries which batches writes and flushes once.
 func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	updateID := w.nextUpdateID
 	w.nextUpdateID++
 
@@ -180,7 +182,6 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 
 	offset, err := marshalEntry(w.buf, entry, updateID)
 	if err != nil {
-		w.mu.Unlock()
 		return fmt.Errorf("marshaling entry update: %w", err)
 	}
 
@@ -189,13 +190,10 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 		byte(msgType),
 		w.buf[:offset],
 	); err != nil {
-		w.mu.Unlock()
 		return err
 	}
 
-	err = w.bw.Flush()
-	w.mu.Unlock()
-	return err
+	return w.bw.Flush()
 }
 
 // SendEntries sends multiple stick table entry updates in a single
-- 
2.43.0


From 8c8ecf20b231f714f1c1ffbb29a0e325223f0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 12/22] fix: don't allocate memory for message data that was
 only announced

---
 peers/protocol.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index f51b2b7..8b9de9b 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -2,11 +2,13 @@ package peers
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net"
 	"sync"
 	"time"
@@ -187,7 +189,7 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 	m.MessageClass = MessageClass(header[0])
 	m.MessageType = header[1]
 
-	var readData int
+	var dataRead int
 	// All messages with type >= 128 have a payload
 	if m.MessageType >= 128 {
 		dataLength, err := encoding.ReadVarint(r)
@@ -195,17 +197,37 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 			return int64(n), fmt.Errorf("failed decoding data length: %v", err)
 		}
 
-		m.Data = make([]byte, dataLength)
-		readData, err = io.ReadFull(r, m.Data)
+		m.Data, err = readData(r, dataLength)
+		dataRead = len(m.Data)
 		if err != nil {
-			return int64(n + readData), fmt.Errorf("failed reading message data: %v", err)
-		}
-		if uint64(readData) != dataLength {
-			return int64(n + readData), fmt.Errorf("invalid amount read: %d != %d", dataLength, readData)
+			return int64(n + dataRead), fmt.Errorf("failed reading message data: %v", err)
 		}
 	}
 
-	return int64(n + readData), nil
+	return int64(n + dataRead), nil
+}
+
+// readData reads length bytes. The length is chosen by the remote peer, so
+// memory is only allocated for data that actually arrives.
+func readData(r io.Reader, length uint64) ([]byte, error) {
+	const chunk = 64 * 1024
+
+	if length <= chunk {
+		data := make([]byte, length)
+		n, err := io.ReadFull(r, data)
+		return data[:n], err
+	}
+
+	if length > math.MaxInt64 {
+		return nil, fmt.Errorf("invalid length: %d", length)
+	}
+
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, int64(length))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
 }
 
 func (t ErrorMessageType) OnMessage(m *rawMessage, c *protocolClient) error {
-- 
2.43.0


From e0c2247bd734a591177acffbb5bdf79cb7b84830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 13/22] fix: don't swallow the messages following the hello
 message

---
 peers/messages.go | 58 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/peers/messages.go b/peers/messages.go
index 228e47e..6a3b615 100644
--- a/peers/messages.go
+++ b/peers/messages.go
@@ -2,6 +2,7 @@ package peers
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -41,26 +42,59 @@ func NewHandshake(remotePeer string) *Handshake {
 	}
 }
 
+// maxHandshakeLine is the maximum length of a line of the hello message.
+const maxHandshakeLine = 64 * 1024
+
+// ReadFrom reads the three lines of the hello message. When r is an
+// io.ByteReader nothing behind the hello message is consumed.
 func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
-	scanner := bufio.NewScanner(r)
+	br, ok := r.(io.ByteReader)
+	if !ok {
+		br = bufio.NewReader(r)
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %s", &h.ProtocolIdentifier, &h.Version)
-	if err != nil {
-		return -1, err
+	readLine := func() (string, error) {
+		var line []byte
+		for {
+			b, err := br.ReadByte()
+			if err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
+				return "", err
+			}
+			n++
+
+			if b == '\n' {
+				return string(bytes.TrimSuffix(line, []byte{'\r'})), nil
+			}
+			if len(line) == maxHandshakeLine {
+				return "", bufio.ErrTooLong
+			}
+			line = append(line, b)
+		}
 	}
 
-	scanner.Scan()
-	h.RemotePeer = scanner.Text()
+	line, err := readLine()
+	if err != nil {
+		return n, err
+	}
+	_, err = fmt.Sscanf(line, "%s %s", &h.ProtocolIdentifier, &h.Version)
+	if err != nil {
+		return n, err
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	h.RemotePeer, err = readLine()
 	if err != nil {
-		return -1, err
+		return n, err
 	}
 
-	//TODO: find out how many bytes where read.
-	return -1, scanner.Err()
+	line, err = readLine()
+	if err != nil {
+		return n, err
+	}
+	_, err = fmt.Sscanf(line, "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	return n, err
 }
 
 func (h *Handshake) WriteTo(w io.Writer) (nw int64, err error) {
-- 
2.43.0


From 89c2a66aa68d7c0c867d96901fc56e5a0cb390b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 14/22] fix: send the handshake status before the handler can
 push updates

---
 peers/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 8b9de9b..1146122 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -69,12 +69,14 @@ func (c *protocolClient) peerHandshake() error {
 		return err
 	}
 
-	c.handler.HandleHandshake(c.ctx, &h)
-
 	if _, err := c.lockedWrite([]byte(fmt.Sprintf("%d\n", HandshakeStatusHandshakeSucceeded))); err != nil {
 		return fmt.Errorf("handshake failed: %v", err)
 	}
 
+	// The handler may start to push updates, but the remote peer expects the
+	// status to be the first thing it receives.
+	c.handler.HandleHandshake(c.ctx, &h)
+
 	return nil
 }
 
-- 
2.43.0


From 5ebf322775568e734fde8eaa9d8d441398f16f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 15/22] fix: close the connection when its peer is dead or the
 base context is done

---
 peers/peers.go    |  5 +++++
 peers/protocol.go | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/peers/peers.go b/peers/peers.go
index 2a4d056..db3d9cb 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -65,6 +65,11 @@ func (a *Peer) Serve(l net.Listener) error {
 		ctx = context.WithValue(ctx, writerKey, w)
 		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
 		go func() {
+			// Reading doesn't stop when the context is done, so close
+			// the connection to not leak it.
+			stop := context.AfterFunc(p.ctx, func() { nc.Close() })
+			defer stop()
+
 			defer nc.Close()
 			defer p.Close()
 
diff --git a/peers/protocol.go b/peers/protocol.go
index 1146122..0780d93 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -30,7 +30,8 @@ type protocolClient struct {
 	lastTableDefinition *sticktable.Definition
 	lastEntryUpdate     *sticktable.EntryUpdate
 
-	handler Handler
+	handler      Handler
+	closeHandler sync.Once
 }
 
 func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, wmu *sync.Mutex, bw *bufio.Writer) *protocolClient {
@@ -44,13 +45,16 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, w
 	return &c
 }
 
+// Close closes the handler. It is only called by the goroutine that runs
+// Serve, so that the handler isn't closed while it handles an update.
 func (c *protocolClient) Close() error {
 	defer c.ctxCancel()
-	if c.ctx.Err() != nil {
-		return c.ctx.Err()
-	}
 
-	return c.handler.Close()
+	var err error
+	c.closeHandler.Do(func() {
+		err = c.handler.Close()
+	})
+	return err
 }
 
 func (c *protocolClient) lockedWrite(data []byte) (int, error) {
@@ -108,19 +112,34 @@ func (c *protocolClient) resetLastMessage() {
 }
 
 func (c *protocolClient) heartbeat() {
-	for range c.nextHeartbeat.C {
+	defer c.nextHeartbeat.Stop()
+
+	for {
+		select {
+		case <-c.nextHeartbeat.C:
+		case <-c.ctx.Done():
+			return
+		}
+
 		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
 		if err != nil {
-			_ = c.Close()
+			c.ctxCancel()
 			return
 		}
 	}
 }
 
 func (c *protocolClient) lastMessage() {
-	<-c.lastMessageTimer.C
+	defer c.lastMessageTimer.Stop()
+
+	select {
+	case <-c.lastMessageTimer.C:
+	case <-c.ctx.Done():
+		return
+	}
+
 	log.Println("last message timer expired: closing connection")
-	_ = c.Close()
+	c.ctxCancel()
 }
 
 func (c *protocolClient) Serve() error {
-- 
2.43.0


From 8bf404b2861ab8b9ff60163e3cbbed5463f0ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 16/22] fix: don't allocate memory for a frame that was only
 announced

---
 spop/frame.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/spop/frame.go b/spop/frame.go
index b5fb252..f424a9f 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -64,13 +64,23 @@ func (f *frame) readFrom(r io.Reader, limit uint32) (int64, error) {
 	}
 
 	f.buf.Reset()
-	f.buf.Grow(int(frameLen))
-	dataBuf := f.buf.WriteNBytes(int(frameLen))
 
-	// read full frame into buffer
-	n, err := io.ReadFull(r, dataBuf)
-	if err != nil {
-		return int64(n + len(f.length)), fmt.Errorf("reading frame payload: %w", err)
+	// read full frame into buffer. The length is chosen by the client, so
+	// memory beyond the initial buffer is only allocated for data that
+	// actually arrives.
+	n := 0
+	for n < int(frameLen) {
+		chunk := min(int(frameLen)-n, max(n, maxFrameSize))
+		f.buf.Grow(chunk)
+
+		nr, err := io.ReadFull(r, f.buf.WriteNBytes(chunk))
+		n += nr
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return int64(n + len(f.length)), fmt.Errorf("reading frame payload: %w", err)
+		}
 	}
 
 	return int64(n + len(f.length)), f.decodeHeader()
-- 
2.43.0


From 6df275c68176224135494bee101f0bbaf410bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 17/22] fix: don't stop serving when a socket option can't be
 set

A client that is already gone when its connection is accepted makes
setting the buffer sizes fail on some platforms, and that ended Serve for
all other clients.
---
 spop/agent.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spop/agent.go b/spop/agent.go
index be6d3c9..487ce7b 100644
--- a/spop/agent.go
+++ b/spop/agent.go
@@ -50,13 +50,15 @@ func (a *Agent) Serve(l net.Listener) error {
 		}
 
 		if tcp, ok := nc.(*net.TCPConn); ok {
+			// The client may already be gone, which is no reason to stop
+			// serving the others.
 			err = tcp.SetWriteBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
 			if err != nil {
-				return err
+				log.Println(err)
 			}
 			err = tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
 			if err != nil {
-				return err
+				log.Println(err)
 			}
 		}
 
-- 
2.43.0


From 86a028ee4611dfb08986405cf08f25977b2f685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 18/22] fix: let a Peer with a Handler serve more than once

Serve stored the handler's source in HandlerSource and refused to run again
because then both Handler and HandlerSource were set.
---
 peers/peers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peers/peers.go b/peers/peers.go
index db3d9cb..59b4311 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -45,8 +45,10 @@ func (a *Peer) Serve(l net.Listener) error {
 		return fmt.Errorf("cannot set Handler and HandlerSource at the same time")
 	}
 
+	// HandlerSource itself is left alone, so that Serve can be called again.
+	handlerSource := a.HandlerSource
 	if a.Handler != nil {
-		a.HandlerSource = func() Handler {
+		handlerSource = func() Handler {
 			return a.Handler
 		}
 	}
@@ -63,7 +65,7 @@ func (a *Peer) Serve(l net.Listener) error {
 		wmu := &sync.Mutex{}
 		w := newWriter(nc, wmu)
 		ctx = context.WithValue(ctx, writerKey, w)
-		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
+		p := newProtocolClient(ctx, nc, handlerSource(), wmu, w.bufferedWriter())
 		go func() {
 			// Reading doesn't stop when the context is done, so close
 			// the connection to not leak it.
-- 
2.43.0


From 62dcb62a7f7fee5c4093e185227b7cdf97a94ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 19/22] fix: report key-value entries that don't fit instead of
 panicking

---
 pkg/encoding/kvwriter.go | 62 ++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/pkg/encoding/kvwriter.go b/pkg/encoding/kvwriter.go
index 4465d8b..fb09f89 100644
--- a/pkg/encoding/kvwriter.go
+++ b/pkg/encoding/kvwriter.go
@@ -45,24 +45,30 @@ func (aw *KVWriter) Bytes() []byte {
 	return aw.data[:aw.off]
 }
 
-func (aw *KVWriter) writeKey(name []byte) error {
+// writeKey writes the name and type of an entry whose value takes up another
+// size bytes. Nothing is written if the whole entry has no room.
+func (aw *KVWriter) writeKey(name []byte, t byte, size int) error {
+	if varintLen(uint64(len(name)))+len(name)+1+size > len(aw.data)-aw.off {
+		return ErrInsufficientSpace
+	}
+
 	n, err := PutBytes(aw.data[aw.off:], name)
 	if err != nil {
 		return err
 	}
-
 	aw.off += n
+
+	aw.data[aw.off] = t
+	aw.off++
+
 	return nil
 }
 
 func (aw *KVWriter) SetString(name string, v string) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	if err := aw.writeKey([]byte(name), byte(DataTypeString), varintLen(uint64(len(v)))+len(v)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(DataTypeString)
-	aw.off++
-
 	n, err := PutBytes(aw.data[aw.off:], []byte(v))
 	if err != nil {
 		return err
@@ -73,13 +79,10 @@ func (aw *KVWriter) SetString(name string, v string) error {
 }
 
 func (aw *KVWriter) SetBinary(name string, v []byte) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	if err := aw.writeKey([]byte(name), byte(DataTypeBinary), varintLen(uint64(len(v)))+len(v)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(DataTypeBinary)
-	aw.off++
-
 	n, err := PutBytes(aw.data[aw.off:], v)
 	if err != nil {
 		return err
@@ -90,27 +93,15 @@ func (aw *KVWriter) SetBinary(name string, v []byte) error {
 }
 
 func (aw *KVWriter) SetNull(name string) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
-	aw.data[aw.off] = byte(DataTypeNull)
-	aw.off++
-
-	return nil
+	return aw.writeKey([]byte(name), byte(DataTypeNull), 0)
 }
 func (aw *KVWriter) SetBool(name string, v bool) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
-	aw.data[aw.off] = byte(DataTypeBool)
+	t := byte(DataTypeBool)
 	if v {
-		aw.data[aw.off] |= dataFlagTrue
+		t |= dataFlagTrue
 	}
-	aw.off++
 
-	return nil
+	return aw.writeKey([]byte(name), t, 0)
 }
 
 func (aw *KVWriter) SetUInt32(name string, v uint32) error {
@@ -122,13 +113,10 @@ func (aw *KVWriter) SetInt32(name string, v int32) error {
 }
 
 func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	if err := aw.writeKey([]byte(name), byte(d), varintLen(uint64(v))); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(d)
-	aw.off++
-
 	n, err := PutVarint(aw.data[aw.off:], uint64(v))
 	if err != nil {
 		return err
@@ -146,19 +134,19 @@ func (aw *KVWriter) SetUInt64(name string, v uint64) error {
 }
 
 func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
+	var t DataType
 	switch {
 	case v.Is6():
-		aw.data[aw.off] = byte(DataTypeIPV6)
+		t = DataTypeIPV6
 	case v.Is4():
-		aw.data[aw.off] = byte(DataTypeIPV4)
+		t = DataTypeIPV4
 	default:
 		return fmt.Errorf("invalid address")
 	}
-	aw.off++
+
+	if err := aw.writeKey([]byte(name), byte(t), v.BitLen()/8); err != nil {
+		return err
+	}
 
 	n, err := PutAddr(aw.data[aw.off:], v)
 	if err != nil {
-- 
2.43.0


From 4e51b5f7074d36db00fe1041a3662f09f68cf9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 20/22] fix: refuse frame sizes that are only acceptable modulo
 2^32

---
 spop/protocol.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index 519f66a..c45dffb 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -143,13 +143,15 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
-			c.maxFrameSize = uint32(k.ValueInt())
-			if c.maxFrameSize < 256 {
-				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", c.maxFrameSize)
+			// Check the size as it was sent, not what is left of it as uint32.
+			size := k.ValueInt()
+			if size < 256 {
+				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", size)
 			}
-			if c.maxFrameSize > maxHAProxyFrameSize {
-				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", c.maxFrameSize)
+			if size > maxHAProxyFrameSize {
+				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", size)
 			}
+			c.maxFrameSize = uint32(size)
 
 		case k.NameEquals(helloKeyEngineID):
 			// Engine ID allocation is necessary since we need to store it beyond the lifetime
-- 
2.43.0


From 86d436a19758ecb549c05b4725b2e4b79764c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 21/22] fix: do not wait forever for a client that doesn't read
 when its connection ends

The AGENT-DISCONNECT frame at the end of a connection, and ACKs still being
written, waited for as long as the client neither read nor went away. Until
then the connection stayed open, its workers were blocked and the contexts of
its handlers were not cancelled.
---
 spop/protocol.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index c45dffb..e58c274 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"sync"
 	"syscall"
+	"time"
 
 	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
 )
@@ -49,6 +50,8 @@ func (c *protocolClient) Close() error {
 		return c.ctx.Err()
 	}
 
+	c.limitWrites()
+
 	// We ignore any error since the disconnect frame is delivered on
 	// best effort anyway.
 	_, _ = (&AgentDisconnectFrame{
@@ -60,6 +63,15 @@ func (c *protocolClient) Close() error {
 	return nil
 }
 
+// limitWrites makes sure that the end of the connection doesn't wait forever
+// for a client that doesn't read, be it for the disconnect frame or for an ACK
+// that is still being written.
+func (c *protocolClient) limitWrites() {
+	if d, ok := c.rw.(interface{ SetWriteDeadline(time.Time) error }); ok {
+		_ = d.SetWriteDeadline(time.Now().Add(disconnectTimeout))
+	}
+}
+
 func (c *protocolClient) frameHandler(f *frame) error {
 	defer releaseFrame(f)
 
@@ -127,6 +139,10 @@ const (
 
 	// HAProxy advertises tune.bufsize-4, and tune.bufsize is bounded by a C int.
 	maxHAProxyFrameSize = 1<<31 - 1
+
+	// disconnectTimeout is how long a client may take to read what is left
+	// when its connection ends.
+	disconnectTimeout = 5 * time.Second
 )
 
 func (c *protocolClient) onHAProxyHello(f *frame) error {
@@ -253,6 +269,7 @@ func (c *protocolClient) onHAProxyDisconnect(f *frame) error {
 	}
 
 	c.ctxCancel(err)
+	c.limitWrites()
 
 	// HAProxy expects us to answer with a disconnect frame and to close the
 	// connection. As in Close, this is best effort.
-- 
2.43.0


From 661ddda4dcf65334aeefbf376fed75985ecf1eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:02 +0000
Subject: [PATCH 22/22] fix: do not cut off a frame when the connection is
 closed in order

An ACK that a worker was still writing when the connection ended (because of
HAPROXY-DISCONNECT, the end of the stream, or a frame that isn't acceptable)
was cut off by closing the connection below it. Wait for the frame that is
being written, for as long as the write deadline allows, and refuse others.
---
 spop/protocol.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index e58c274..666b711 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net"
 	"sync"
 	"syscall"
 	"time"
@@ -30,6 +31,18 @@ type lockedWriter struct {
 	sync.Mutex
 }
 
+// stop waits for the frame that is being written and refuses all others, so
+// that closing the connection doesn't cut one off.
+func (w *lockedWriter) stop() {
+	w.Lock()
+	defer w.Unlock()
+	w.Writer = stoppedWriter{}
+}
+
+type stoppedWriter struct{}
+
+func (stoppedWriter) Write([]byte) (int, error) { return 0, net.ErrClosed }
+
 type protocolClient struct {
 	rw      io.ReadWriter
 	w       *lockedWriter
@@ -46,6 +59,8 @@ type protocolClient struct {
 }
 
 func (c *protocolClient) Close() error {
+	defer c.w.stop()
+
 	if c.ctx.Err() != nil {
 		return c.ctx.Err()
 	}
-- 
2.43.0

