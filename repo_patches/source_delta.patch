From 16304ae279dae039ebcaac4460066c7bc0afdb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 01/33] fix: read primitives completely from readers that
 return short reads

---
 mqtt/packets/primitives/io.go     | 2 +-
 mqtt/packets/primitives/string.go | 2 +-
 mqtt/packets/primitives/varint.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/primitives/io.go b/mqtt/packets/primitives/io.go
index d9b762d..0d7537d 100644
--- a/mqtt/packets/primitives/io.go
+++ b/mqtt/packets/primitives/io.go
@@ -44,6 +44,6 @@ func WriteByte(b byte, w io.Writer) error {
 
 //go:inline
 func ReadByte(r io.Reader) (b byte, err error) {
-	_, err = r.Read(unsafe.Slice(&b, 1))
+	_, err = io.ReadFull(r, unsafe.Slice(&b, 1))
 	return
 }
diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index fde2b7b..eda9712 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -74,7 +74,7 @@ func (p *PrimitiveString) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the string
 	var count int
-	if count, err = r.Read(buf); err != nil {
+	if count, err = io.ReadFull(r, buf); err != nil {
 		return 0, err
 	} else {
 		n += int64(count)
diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 6a00e6d..e104672 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -92,7 +92,7 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 
 	for {
 		var b [1]byte
-		if _, err = r.Read(b[:]); err != nil {
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		n++
-- 
2.43.0


From 3375bb73ae2c3fd465dd25318fe36d9a3f3f8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 02/33] fix: refuse variable byte integers longer than four
 bytes

---
 mqtt/packets/primitives/varint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index e104672..7aa0021 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -53,6 +53,10 @@ func (v *VariableByteInt) Length(property bool) (result VariableByteInt) {
 }
 
 func (v *VariableByteInt) WriteTo(w io.Writer) (int64, error) {
+	if *v > 268_435_455 {
+		return 0, errors.New("variable byte integer is too large")
+	}
+
 	result := make([]byte, 0, 4)
 	tmp := uint32(*v)
 
@@ -106,6 +110,11 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 			break
 		}
 
+		// SPEC: The maximum number of bytes in the Variable Byte Integer field is four.
+		if n == 4 {
+			return 0, errors.New("malformed variable byte integer")
+		}
+
 		mul += 7
 	}
 
-- 
2.43.0


From 535de7db692226ee44b22f48eaba964a99220c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 03/33] fix: refuse strings longer than 65535 bytes instead of
 truncating their length

---
 mqtt/packets/primitives/string.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index eda9712..8f08c03 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -26,12 +26,18 @@ package primitives
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 )
 
 type PrimitiveString string
 
 func (p *PrimitiveString) WriteTo(w io.Writer) (n int64, err error) {
+	// SPEC: The maximum size of a UTF-8 Encoded String is 65,535 bytes.
+	if len(*p) > 65535 {
+		return 0, errors.New("string is too long")
+	}
+
 	// Write the length of the string
 	if err = binary.Write(w, binary.BigEndian, uint16(len(*p))); err != nil {
 		return 0, err
-- 
2.43.0


From 64cf5b20376cbf19898b747e7ce367551d8c7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 04/33] fix: count the identifier byte of string properties

---
 mqtt/packets/primitives/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index 8f08c03..61bed02 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -58,11 +58,11 @@ func (p *PrimitiveString) WriteToAsProperty(identifier byte, w io.Writer) (n int
 	if _, err = w.Write([]byte{identifier}); err != nil {
 		return 0, err
 	}
-	n++
 
 	if n, err = p.WriteTo(w); err != nil {
 		return 0, err
 	}
+	n++
 
 	return
 }
-- 
2.43.0


From 9f146e510c155972bd3359b2f797cba82e17b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 05/33] fix: apply the no local rule of shared subscriptions
 when encoding, for filters of any length

---
 mqtt/packets/subscribe.go |  3 ++-
 mqtt/packets/topic.go     | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/mqtt/packets/subscribe.go b/mqtt/packets/subscribe.go
index 9ea435e..3377a64 100644
--- a/mqtt/packets/subscribe.go
+++ b/mqtt/packets/subscribe.go
@@ -132,7 +132,8 @@ func (s *Subscribe) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 
-		if count, err = topic.options.WriteTo(w); err != nil {
+		options := topic.encodedOptions()
+		if count, err = options.WriteTo(w); err != nil {
 			return 0, err
 		}
 		n += count
diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index c1da7b3..d1b23a6 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -44,11 +44,6 @@ func (t *Topic) Filter() string {
 }
 
 func (t *Topic) SetFilter(filter string) *Topic {
-	if len(t.filter) >= 6 && t.filter[:6] == "$share" {
-		// Unset no local option
-		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-		t.SetNoLocal(false)
-	}
 	t.filter = primitives.PrimitiveString(filter)
 	return t
 }
@@ -57,14 +52,22 @@ func (t *Topic) SetNoLocal(on bool) *Topic {
 	// Set bit 2
 	t.options &= ^primitives.PrimitiveByte(1 << 2)
 
-	// Leave bit unset if this is a shared subscription
-	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-	if on && t.filter[:6] != "$share" {
+	if on {
 		t.options |= primitives.PrimitiveByte(1 << 2)
 	}
 	return t
 }
 
+// encodedOptions returns the subscription options byte to send for this topic.
+func (t *Topic) encodedOptions() primitives.PrimitiveByte {
+	// Leave the no local bit unset if this is a shared subscription
+	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
+	if len(t.filter) >= 7 && t.filter[:7] == "$share/" {
+		return t.options &^ primitives.PrimitiveByte(1<<2)
+	}
+	return t.options
+}
+
 func (t *Topic) SetRetainAsPublished(on bool) *Topic {
 	// Set bit 3
 	t.options &= ^primitives.PrimitiveByte(1 << 3)
-- 
2.43.0


From e41ac61b50056db99c09ccf319160634c9f49f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 06/33] fix: write to the publish payload from the cursor on

---
 mqtt/packets/publish.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6b7c45a..7d68cf6 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -63,9 +63,14 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	}
 
 	// Copy into payload
-	n = copy(p.Payload[:p.offset], buf)
+	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
+	// Report that not all of buf fit into the payload
+	if n < len(buf) {
+		return n, io.ErrShortWrite
+	}
+
 	return
 }
 
-- 
2.43.0


From 1e81dc5dfe57393cdd02c63ea986d6389a7a35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 07/33] fix: compute the lengths of CONNECT and its will
 properties exactly

---
 mqtt/packets/connect.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c83d947..d248425 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -73,7 +73,7 @@ type Connect struct {
 
 func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	var flags primitives.PrimitiveByte
-	variableHeaderLen := primitives.VariableByteInt(11)
+	variableHeaderLen := primitives.VariableByteInt(10)
 	propertiesLen := primitives.VariableByteInt(0)
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
@@ -112,7 +112,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += c.AuthenticationData.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Set flags bits
 	if c.CleanSession {
@@ -145,7 +145,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		flags |= primitives.PrimitiveByte(c.WillQos) << 3
 
 		// The will and will topic are actually a part of the payload
-		payloadLen += 1 + c.Will.Length(false) // Includes byte for payload property indicator
+		payloadLen += c.Will.Length(false)
 		payloadLen += c.WillTopic.Length(false)
 
 		if c.WillDelayInterval > 0 {
@@ -171,9 +171,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		for k, v := range c.WillUserProperties {
 			willPropertiesLen += 1 + k.Length(false) + v.Length(false)
 		}
-	}
 
-	payloadLen += willPropertiesLen
+		// Will payload format indicator
+		willPropertiesLen += 2
+
+		payloadLen += willPropertiesLen.Length(false) + willPropertiesLen
+	}
 
 	/* Fixed header begin */
 	fh := FixedHeader{
-- 
2.43.0


From 1d7d3061bf598b3107d67ddda4821da8105fd085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 08/33] fix: write the right property identifiers in CONNECT

---
 mqtt/packets/connect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index d248425..b93c0fa 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -241,7 +241,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.TopicAliasMaximum > 0 {
-		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x12, w); err != nil {
+		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x22, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -255,7 +255,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.RequestProblemInformation > 0 {
-		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x19, w); err != nil {
+		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x17, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -323,7 +323,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 		// Will message expiry interval
 		if c.WillMessageExpiryInterval > 0 {
-			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x12, w); err != nil {
+			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 				return 0, err
 			}
 			n += count
-- 
2.43.0


From d56e4c902620af81d4192114e5cb70dedf3f304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 09/33] fix: write all properties of DISCONNECT and count them
 in its lengths

---
 mqtt/packets/disconnect.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 5d8f426..7af7924 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -109,7 +109,7 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
-	variableHeaderLen := primitives.VariableByteInt(2) // Account for reason code and properties length var
+	variableHeaderLen := primitives.VariableByteInt(1) // Account for reason code
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate properties length
@@ -125,7 +125,11 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.ServerReference.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	if len(d.ReasonString) > 0 {
+		propertiesLen += d.ReasonString.Length(true)
+	}
+
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Write fixed header
 	d.Header.SetType(DISCONNECT)
@@ -181,6 +185,14 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 	}
+
+	// Server reference
+	if len(d.ServerReference) > 0 {
+		if count, err = d.ServerReference.WriteToAsProperty(0x1C, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
 	/* Properties end */
 
 	return
-- 
2.43.0


From 1790d74488ac175d371583aa466de765411193f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 10/33] fix: write the reason code and the property length of
 AUTH

---
 mqtt/packets/auth.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index fc925da..e2c0fd8 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -117,17 +117,11 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 	// Calculate remaining length
 	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
 	//       Properties. In this case the AUTH has a Remaining Length of 0.
-	if a.AuthenticateReasonCode != 0 {
-		variableHeaderLen++
-	}
-
 	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationMethod))
 		propertiesLen += 3 + l
-	}
 
-	if len(a.AuthenticationData) > 0 {
-		l := primitives.VariableByteInt(len(a.AuthenticationData))
+		l = primitives.VariableByteInt(len(a.AuthenticationData))
 		propertiesLen += 3 + l
 	}
 
@@ -140,7 +134,10 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
-	variableHeaderLen += propertiesLen
+	omit := a.AuthenticateReasonCode == 0 && propertiesLen == 0
+	if !omit {
+		variableHeaderLen += 1 + propertiesLen.Length(false) + propertiesLen
+	}
 
 	a.Header.SetType(AUTH)
 	a.Header.Remaining = variableHeaderLen
@@ -150,7 +147,21 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, err
 	}
 
+	if omit {
+		return
+	}
+
+	if count, err = a.AuthenticateReasonCode.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	/* Properties begin */
+	if count, err = propertiesLen.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	if len(a.AuthenticationMethod) > 0 {
 		if count, err = a.AuthenticationMethod.WriteToAsProperty(0x15, w); err != nil {
 			return 0, err
-- 
2.43.0


From 10fbce6b83d0f5130a0a6685d5630b879f49bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 11/33] fix: report the number of bytes read by CONNACK once

---
 mqtt/packets/connack.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 451df38..45f0716 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -190,7 +190,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
-	n += int64(c.Header.Remaining)
 	/* Properties end */
 	return
 }
-- 
2.43.0


From 6b3107f5c03dc3b884da2843cba39388e4adede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 12/33] fix: read the whole payload of PUBLISH

---
 mqtt/packets/publish.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 7d68cf6..730161a 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -100,7 +100,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 		n += count
-		offset = 2
+		offset = count
 	}
 
 	// Parse flags
@@ -128,10 +128,6 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -192,7 +188,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	payloadLen := int64(p.Header.Remaining) - n + offset
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
-		if count, err := r.Read(p.Payload); err != nil {
+		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
 			n += int64(count)
-- 
2.43.0


From 4f27c2f6fcd624e0061fdd68c1188e0381c25511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 13/33] fix: decode the payload format indicator of PUBLISH

---
 mqtt/packets/publish.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 730161a..1159652 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -44,6 +44,7 @@ type Publish struct {
 	offset  int
 
 	/* Properties */
+	PayloadFormat          primitives.PrimitiveByte
 	MessageExpiryInterval  primitives.PrimitiveUint32
 	TopicAlias             primitives.PrimitiveUint16
 	ResponseTopic          primitives.PrimitiveString
@@ -139,6 +140,10 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining--
 
 		switch identifier {
+		case 0x01: // Payload format indicator
+			if count, err = p.PayloadFormat.ReadFrom(r); err != nil {
+				return 0, err
+			}
 		case 0x02: // Message expiry interval
 			if count, err = p.MessageExpiryInterval.ReadFrom(r); err != nil {
 				return 0, err
@@ -220,6 +225,10 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 		variableHeaderLen += p.PacketIdentifier.Length(false)
 	}
 
+	if p.PayloadFormat > 0 {
+		propertiesLen += p.PayloadFormat.Length(true)
+	}
+
 	if p.MessageExpiryInterval > 0 {
 		propertiesLen += p.MessageExpiryInterval.Length(true)
 	}
@@ -290,6 +299,13 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 	}
 	n += count
 
+	if p.PayloadFormat > 0 {
+		if count, err = p.PayloadFormat.WriteToAsProperty(0x01, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
+
 	if p.MessageExpiryInterval > 0 {
 		if count, err = p.MessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 			return 0, err
-- 
2.43.0


From af8395953bee2ca59f6927f13109e4326761464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 14/33] fix: decode DISCONNECT and AUTH with a remaining length
 of zero

---
 mqtt/packets/auth.go       | 5 +++++
 mqtt/packets/disconnect.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index e2c0fd8..c53e790 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,6 +43,11 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: If the Remaining Length is 0, the value 0x00 is used for the reason code and there are no properties.
+	if a.Header.Remaining == 0 {
+		return
+	}
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 7af7924..9b83470 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,6 +43,11 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: If the Remaining Length is 0, the value 0x00 is used for the reason code and there are no properties.
+	if d.Header.Remaining == 0 {
+		return
+	}
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
-- 
2.43.0


From 3c4d99fb065b0d819d9534e6d324be0b90d465e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 15/33] fix: refuse packets with unknown properties

---
 mqtt/packets/auth.go       | 3 +++
 mqtt/packets/connack.go    | 3 +++
 mqtt/packets/disconnect.go | 3 +++
 mqtt/packets/puback.go     | 3 +++
 mqtt/packets/publish.go    | 3 +++
 mqtt/packets/suback.go     | 3 +++
 mqtt/packets/unsuback.go   | 3 +++
 7 files changed, 21 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index c53e790..bd966aa 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -107,6 +107,9 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			a.UserProperties[k] = v
+		default:
+			// The property is not known, or not allowed in this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 45f0716..9ade126 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -185,6 +185,9 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.AuthenticationData.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			// The property is not known, or not allowed in this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 9b83470..a632f67 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -103,6 +103,9 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = d.ServerReference.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			// The property is not known, or not allowed in this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 0ba20de..b382ecc 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -133,6 +133,9 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			p.UserProperties[k] = v
+		default:
+			// The property is not known, or not allowed in this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 1159652..bdc5464 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -183,6 +183,9 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = p.ContentType.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			// The property is not known, or not allowed in this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 8067620..cd694c1 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -96,6 +96,9 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			s.UserProperties[k] = v
+		default:
+			// The property is not known, or not allowed in this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 4542153..233ca25 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -96,6 +96,9 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			u.UserProperties[k] = v
+		default:
+			// The property is not known, or not allowed in this control packet
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
-- 
2.43.0


From 38bad4f550a91b9001517c6a240d73246fa1ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 16/33] fix: refuse properties that exceed the property length

---
 mqtt/packets/auth.go       | 5 +++++
 mqtt/packets/connack.go    | 5 +++++
 mqtt/packets/disconnect.go | 5 +++++
 mqtt/packets/puback.go     | 5 +++++
 mqtt/packets/publish.go    | 5 +++++
 mqtt/packets/suback.go     | 5 +++++
 mqtt/packets/unsuback.go   | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index bd966aa..4df13a3 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -115,6 +115,11 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the length of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 9ade126..d993556 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -193,6 +193,11 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the length of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	/* Properties end */
 	return
 }
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index a632f67..1314fe6 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -110,6 +110,11 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 		n += count
 		remaining -= count
 	}
+
+	// Fail if the last property exceeds the length of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 	/* Variable header end */
 
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index b382ecc..b1cfb9a 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -141,6 +141,11 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the length of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index bdc5464..5bb951a 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -190,6 +190,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		n += count
 		remaining -= count
 	}
+
+	// Fail if the last property exceeds the length of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 
 	// Read the payload
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index cd694c1..2a75b5e 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -104,6 +104,11 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the length of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(s.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 233ca25..a9fb6c2 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -104,6 +104,11 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the length of the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(u.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
-- 
2.43.0


From 09607a5a72efd724c37b40c77fcca720d22979c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 17/33] fix: refuse acknowledgements and publishes that end
 before their mandatory fields

---
 mqtt/packets/auth.go     | 4 ----
 mqtt/packets/connack.go  | 7 ++-----
 mqtt/packets/publish.go  | 4 ++++
 mqtt/packets/suback.go   | 7 ++-----
 mqtt/packets/unsuback.go | 7 ++-----
 5 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 4df13a3..cb30556 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -65,10 +65,6 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(a.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index d993556..cd42da3 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -68,8 +68,9 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 
 	c.SessionPresent = (c.Flags & 0x01) != 0
 
+	// Fail if this is the end of the control packet. The reason code is not optional.
 	if n >= int64(c.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	if count, err = c.ReasonCode.ReadFrom(r); err != nil {
@@ -90,10 +91,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 
 	for remaining > 0 {
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 5bb951a..b235422 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -199,6 +199,10 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the payload
 	payloadLen := int64(p.Header.Remaining) - n + offset
+	if payloadLen < 0 {
+		// The variable header exceeds the control packet
+		return 0, ErrControlPacketIsMalformed
+	}
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
 		if count, err := io.ReadFull(r, p.Payload); err != nil {
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 2a75b5e..5b1dfba 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -50,8 +50,9 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, err
 	}
 
+	// Fail if this is the end of the control packet
 	if n >= int64(s.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
@@ -62,10 +63,6 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(s.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index a9fb6c2..007106c 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -50,8 +50,9 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, err
 	}
 
+	// Fail if this is the end of the control packet
 	if n >= int64(u.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
@@ -62,10 +63,6 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(u.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
-- 
2.43.0


From ccad574c587af8c379a01810f11e0f26b7da578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 18/33] fix: match topic filters level by level to the end of
 filter and topic

---
 mqtt/client.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 03339fe..5358856 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1124,7 +1124,19 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	// TODO: Support matching for shared topics
 	var filterPos int
 	var topicPos int
+
+	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names
+	//       beginning with a $ character [MQTT-4.7.2-1].
+	if len(topic) > 0 && topic[0] == '$' && len(filter) > 0 && (filter[0] == '#' || filter[0] == '+') {
+		return false
+	}
+
 	for filterPos < len(filter) {
+		// SPEC: The multi-level wildcard represents the parent and any number of child levels.
+		if topicPos == len(topic) && filterPos > 0 && filter[filterPos:] == "/#" {
+			return true
+		}
+
 		if filter[filterPos] == '#' {
 			// Encountered multi-level wildcard.
 
@@ -1155,15 +1167,10 @@ func (c *Client) matchTopic(topic, filter string) bool {
 				topicPos++
 			}
 
-			if topicPos == len(topic) {
-				// No levels left. Return true.
-				return true
-			}
-
 			// Advance the filter pos and continue at the beginning of the loop
 			filterPos++
 			continue
-		} else if filterPos >= len(topic) {
+		} else if topicPos >= len(topic) {
 			// The length of the filter exceeded the length of the topic. No way these can match.
 			return false
 		} else if filter[filterPos] != topic[topicPos] {
@@ -1175,7 +1182,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	}
 
 	// Check if there is more characters in the topic that went unprocessed
-	if len(filter) != len(topic) && topicPos < len(topic) {
+	if topicPos < len(topic) {
 		// Topic couldn't have matched the filter
 		return false
 	}
-- 
2.43.0


From 52e83c498a17390ee35439f4421b8b9050ebfe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 19/33] fix: disconnect when connected, refuse when not

---
 mqtt/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 5358856..38f06f4 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -338,7 +338,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
@@ -395,7 +395,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 }
 
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
-- 
2.43.0


From 70b36961a6d1f4910d6dd78203ffec31cec240b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 20/33] fix: guard the connection state and take the locks in
 one order

---
 mqtt/client.go | 135 +++++++++++++++++++++----------------------------
 1 file changed, 59 insertions(+), 76 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 38f06f4..9259e6c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -209,18 +209,15 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
+	// The connection is locked before the state of the client everywhere.
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -253,8 +250,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// Did the server send an error response?
 	// SPEC: If a Server sends a CONNACK packet containing a Reason code of 128 or greater it MUST then close the
 	//       Network Connection [MQTT-3.2.2-7].
@@ -268,6 +263,8 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return ReasonCode(connack.ReasonCode)
 	}
 
+	c.mutex.Lock()
+
 	// Handle server keep alive specification
 	if connack.ServerKeepAlive > 0 {
 		// Use the keep alive interval returned by the server
@@ -307,6 +304,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 
 	// Successful connection!
 	c.isConnected = true
+	c.mutex.Unlock()
 
 	// Signal CONNACK event
 	c.signal(packets.CONNACK, connack, nil)
@@ -317,6 +315,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.isConnected
 }
 
@@ -335,22 +336,18 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 // time. Setting a zero value for the sessionExpiryInterval parameter will cause the server to default to the value
 // specified in the CONNECT control packet.
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
+
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -369,7 +366,10 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// packet.
 	// SPEC: If the Session Expiry Interval in the CONNECT packet was zero, then it is a Protocol Error to set a
 	//       non-zero Session Expiry Interval in the DISCONNECT packet sent by the Client.
-	if c.sessionExpiryInterval != 0 {
+	c.mutex.RLock()
+	expiryAllowed := c.sessionExpiryInterval != 0
+	c.mutex.RUnlock()
+	if expiryAllowed {
 		disconnect.SessionExpiryInterval = primitives.PrimitiveUint32(sessionExpiryInterval)
 	}
 
@@ -381,12 +381,10 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.setDisconnected()
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
-
-	c.isConnected = false
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -394,26 +392,9 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	return nil
 }
 
-func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
+// disconnectWithReason sends the DISCONNECT packet with the specified reason code to the server and closes the network
+// connection. It is only meant to be called by Poll, which holds the lock of the connection.
+func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err error) {
 	disconnect := &packets.Disconnect{
 		ReasonCode: reason,
 	}
@@ -427,19 +408,15 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	//}
 
 	// Send the DISCONNECT packet to the server
-	if err = c.send(disconnect); err != nil {
-		return err
-	}
+	err = c.send(disconnect)
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
-	if err = c.conn.Close(); err != nil {
-		return
+	c.setDisconnected()
+	if closeErr := c.conn.Close(); err == nil {
+		err = closeErr
 	}
-	unlockConn.Do(c.connMutex.Unlock)
-
-	c.isConnected = false
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -447,6 +424,14 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	return
 }
 
+// setDisconnected marks the client as not connected.
+func (c *Client) setDisconnected() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	c.isConnected = false
+}
+
 // Subscribe sends the SUBSCRIBE control packet to the server with the specified topic filters and options.
 func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	// Do nothing if topics list is empty
@@ -454,10 +439,6 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
@@ -468,6 +449,10 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -611,10 +596,6 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
@@ -625,6 +606,10 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -754,6 +739,9 @@ func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err
 // KeepAliveInterval returns the interval at which frequent PINGREQ packets must be sent. The server may specify a
 // different value in the CONNACK packet than what was originally specified by the CONNECT packet.
 func (c *Client) KeepAliveInterval() time.Duration {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.keepAliveInterval
 }
 
@@ -764,10 +752,10 @@ func (c *Client) KeepAliveInterval() time.Duration {
 //
 //	PINGREQ packet. [MQTT-3.1.2-20]
 func (c *Client) KeepAlive() (err error) {
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
 
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -775,7 +763,7 @@ func (c *Client) KeepAlive() (err error) {
 	// SPEC: If the Keep Alive value is non-zero and the Server does not receive an MQTT Control Packet from the Client
 	//       within one and a half times the Keep Alive time period, it MUST close the Network Connection to the Client
 	//       as if the network had failed. [MQTT-3.1.2-22]
-	ctx, cancel := context.WithTimeout(context.Background(), time.Second*time.Duration(c.keepAliveInterval.Seconds()*1.5))
+	ctx, cancel := context.WithTimeout(context.Background(), time.Second*time.Duration(c.KeepAliveInterval().Seconds()*1.5))
 	defer cancel()
 
 	var deadline time.Time
@@ -784,10 +772,6 @@ func (c *Client) KeepAlive() (err error) {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -801,8 +785,6 @@ func (c *Client) KeepAlive() (err error) {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// NOTE: Poll handles receiving the response and disconnecting if no response has been sent within twice the keep
 	// alive interval.
 	return
@@ -813,20 +795,20 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
 
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
 	if time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.isConnected = false
+		c.setDisconnected()
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
@@ -887,10 +869,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       [MQTT-3.3.4-9]. If it receives more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets where it
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
-			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
-				c.mutex.Unlock()
+			c.mutex.Unlock()
+			if err = c.disconnectWithReason(0x93); err != nil {
 				return err
 			}
+			return ReasonCode(0x93)
 		} else {
 			// Decrement the receive quota counter
 			c.receiveQuota--
@@ -1097,10 +1080,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return
 		}
 		// Close the connection
-		if err = c.conn.Close(); err != nil {
-			return
-		}
+		c.setDisconnected()
+		err = c.conn.Close()
 		c.signal(packets.DISCONNECT, disconnect, nil)
+		return err
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
 		if _, err = auth.ReadFrom(c.conn); err != nil {
-- 
2.43.0


From 476ff7aab921b0c1abc3fd6dbb98f43ffdc29790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 21/33] fix: read packets within their remaining length and
 close the connection on malformed data

---
 mqtt/client.go | 77 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 9259e6c..af038af 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -232,12 +232,12 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	// Receive response header
 	header := packets.FixedHeader{}
 	if _, err = header.ReadFrom(c.conn); err != nil {
-		return err
+		return c.abort(err)
 	}
 
 	// Response must be CONNACK
 	if header.GetType() != packets.CONNACK {
-		return ErrUnexpectedPacketTypeReceived
+		return c.abort(ErrUnexpectedPacketTypeReceived)
 	}
 
 	// Create the Connack packet
@@ -246,8 +246,8 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Receive the CONNACK response
-	if _, err = connack.ReadFrom(c.conn); err != nil {
-		return err
+	if err = c.receive(header, connack); err != nil {
+		return c.abort(err)
 	}
 
 	// Did the server send an error response?
@@ -840,7 +840,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		return nil
 	} else if err != nil {
 		// Some other error occurred. Return it
-		return
+		return c.abort(err)
 	}
 
 	if !deadline.IsZero() {
@@ -857,8 +857,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	switch header.GetType() {
 	case packets.PUBLISH:
 		publish := &packets.Publish{Header: header}
-		if _, err = publish.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(header, publish); err != nil {
+			return c.abort(err)
 		}
 
 		c.mutex.Lock()
@@ -916,8 +916,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.PUBLISH, publish, nil)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
-		if _, err = puback.ReadFrom(c.conn); err != nil {
-			return err
+		if err = c.receive(header, puback); err != nil {
+			return c.abort(err)
 		}
 
 		// Perform rate limiting related operations
@@ -946,8 +946,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
-		if _, err = pubrec.ReadFrom(c.conn); err != nil {
-			return err
+		if err = c.receive(header, pubrec); err != nil {
+			return c.abort(err)
 		}
 
 		// Increment the send quota counter if it contains a failure reason code
@@ -988,8 +988,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
-		if _, err = pubrel.ReadFrom(c.conn); err != nil {
-			return err
+		if err = c.receive(header, pubrel); err != nil {
+			return c.abort(err)
 		}
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
@@ -1022,8 +1022,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
-		if _, err = pubcomp.ReadFrom(c.conn); err != nil {
-			return err
+		if err = c.receive(header, pubcomp); err != nil {
+			return c.abort(err)
 		}
 
 		// Perform rate limiting related operations
@@ -1052,8 +1052,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.PUBCOMP, pubcomp, nil)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
-		if _, err = suback.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(header, suback); err != nil {
+			return c.abort(err)
 		}
 
 		// Respond to the call to client.Subscribe
@@ -1064,8 +1064,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.SUBACK, suback, nil)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
-		if _, err = unsuback.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(header, unsuback); err != nil {
+			return c.abort(err)
 		}
 
 		// Respond to the call to client.Unsubscribe
@@ -1076,8 +1076,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.UNSUBACK, unsuback, nil)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
-		if _, err = disconnect.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(header, disconnect); err != nil {
+			return c.abort(err)
 		}
 		// Close the connection
 		c.setDisconnected()
@@ -1086,15 +1086,20 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		return err
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
-		if _, err = auth.ReadFrom(c.conn); err != nil {
-			return
+		if err = c.receive(header, auth); err != nil {
+			return c.abort(err)
 		}
 		c.signal(packets.AUTH, auth, nil)
 	case packets.PINGRESP:
+		// SPEC: The PINGRESP packet has no Variable Header and no Payload.
+		if header.Remaining != 0 {
+			return c.abort(packets.ErrControlPacketIsMalformed)
+		}
+
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 	default:
-		return ErrUnexpectedPacketTypeReceived
+		return c.abort(ErrUnexpectedPacketTypeReceived)
 	}
 
 	// TODO: Process control packet
@@ -1173,6 +1178,30 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	return true
 }
 
+// receive reads the part of a control packet that follows the fixed header. It must take up exactly the remaining
+// length.
+func (c *Client) receive(header packets.FixedHeader, packet io.ReaderFrom) (err error) {
+	r := &io.LimitedReader{R: c.conn, N: int64(header.Remaining)}
+	if _, err = packet.ReadFrom(r); err != nil {
+		return err
+	}
+
+	if r.N != 0 {
+		return packets.ErrControlPacketIsMalformed
+	}
+
+	return nil
+}
+
+// abort closes the network connection after an error that makes it impossible to make sense of any further data, and
+// returns that error.
+func (c *Client) abort(err error) error {
+	c.setDisconnected()
+	c.conn.Close()
+
+	return err
+}
+
 func (c *Client) send(w io.WriterTo) (err error) {
 	// Allocate a new buffer
 	buf := bytes.NewBuffer(make([]byte, 0, 128))
-- 
2.43.0


From 9e87ade410f0db112ca09758e4185b7227220933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 22/33] fix: keep Poll from losing bytes and acknowledgements
 at its deadline

---
 mqtt/client.go | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index af038af..0bcfda6 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -665,23 +665,12 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	puback := &packets.Puback{
 		PacketIdentifier: publish.PacketIdentifier,
 	}
@@ -703,23 +692,12 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 
 // sendPubrec will send the PUBREC control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	pubrec := &packets.Pubrec{
 		Puback: packets.Puback{
 			PacketIdentifier: publish.PacketIdentifier,
@@ -835,7 +813,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	// Attempt to receive a control packet header
 	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
+	if _, err = header.Header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
 		// No incoming data
 		return nil
 	} else if err != nil {
@@ -844,15 +822,20 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	}
 
 	if !deadline.IsZero() {
-		// Extend I/O deadline
+		// Extend I/O deadline for the rest of the control packet and its acknowledgement
 		if err = c.conn.SetDeadline(time.Now().Add(time.Second * 30)); err != nil {
-			return
+			return c.abort(err)
 		}
 	} else {
 		// Unset any deadline
 		c.conn.SetDeadline(time.Time{})
 	}
 
+	// Receive the rest of the control packet header
+	if _, err = header.Remaining.ReadFrom(c.conn); err != nil {
+		return c.abort(err)
+	}
+
 	// Read control packet
 	switch header.GetType() {
 	case packets.PUBLISH:
@@ -882,11 +865,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
-			if err = c.sendPuback(ctx, publish); err != nil {
+			if err = c.sendPuback(publish); err != nil {
 				return err
 			}
 		} else if publish.QoS == packets.QoS2 {
-			if err = c.sendPubrec(ctx, publish); err != nil {
+			if err = c.sendPubrec(publish); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From a885e9c5d9d26450876cc1270f1bb9b204cddbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 23/33] fix: default an absent receive maximum to 65535

---
 mqtt/client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 0bcfda6..aec1f05 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -277,11 +277,15 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
-	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	// SPEC: If the Receive Maximum value is absent then its value defaults to 65,535.
+	if connack.ReceiveMaximum == 0 {
+		c.serverReceiveMaximum = 65535
+	} else {
+		c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	}
 
 	if packet.ReceiveMaximum == 0 {
-		// Default to that of the server
-		c.clientReceiveMaximum = c.serverReceiveMaximum
+		c.clientReceiveMaximum = 65535
 	} else {
 		// Use the value from the connect control packet
 		c.clientReceiveMaximum = packet.ReceiveMaximum.Value()
-- 
2.43.0


From 1dce32fe1dbf19aa089a11061cd5b249b21d635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 24/33] fix: honour a keep alive interval of zero

---
 mqtt/client.go          | 20 +++++++++++---------
 mqtt/packets/connack.go |  8 ++++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index aec1f05..bb2e2b9 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -266,12 +266,12 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.mutex.Lock()
 
 	// Handle server keep alive specification
-	if connack.ServerKeepAlive > 0 {
+	if connack.HasServerKeepAlive() {
 		// Use the keep alive interval returned by the server
 		// SPEC: If the Server returns a Server Keep Alive on the CONNACK packet, the Client MUST use that value instead
 		//       of the value it sent as the Keep Alive. [MQTT-3.1.2-21]
 		c.keepAliveInterval = time.Second * time.Duration(connack.ServerKeepAlive)
-	} else if packet.KeepAlive > 0 {
+	} else {
 		// Use the keep alive interval defined in the CONNECT packet
 		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
 	}
@@ -745,13 +745,10 @@ func (c *Client) KeepAlive() (err error) {
 	// SPEC: If the Keep Alive value is non-zero and the Server does not receive an MQTT Control Packet from the Client
 	//       within one and a half times the Keep Alive time period, it MUST close the Network Connection to the Client
 	//       as if the network had failed. [MQTT-3.1.2-22]
-	ctx, cancel := context.WithTimeout(context.Background(), time.Second*time.Duration(c.KeepAliveInterval().Seconds()*1.5))
-	defer cancel()
-
+	// A keep alive interval of zero turns off the keep alive mechanism, so nothing is due then.
 	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
+	if interval := c.KeepAliveInterval(); interval > 0 {
+		deadline = time.Now().Add(time.Second * time.Duration(interval.Seconds()*1.5))
 	}
 
 	// Set I/O deadline
@@ -787,7 +784,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if time.Now().After(c.pingRespDeadline) {
+	c.mutex.RLock()
+	timeout := c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline)
+	c.mutex.RUnlock()
+	if timeout {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		c.setDisconnected()
@@ -1084,7 +1084,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Extend the ping response deadline
+		c.mutex.Lock()
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
+		c.mutex.Unlock()
 	default:
 		return c.abort(ErrUnexpectedPacketTypeReceived)
 	}
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index cd42da3..297ea84 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -54,6 +54,13 @@ type Connack struct {
 	ServerReference         primitives.PrimitiveString
 	AuthenticationMethod    primitives.PrimitiveString
 	AuthenticationData      primitives.PrimitiveString
+
+	hasServerKeepAlive bool
+}
+
+// HasServerKeepAlive returns true if the server specified a keep alive interval, which can be zero.
+func (c *Connack) HasServerKeepAlive() bool {
+	return c.hasServerKeepAlive
 }
 
 func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
@@ -166,6 +173,7 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.ServerKeepAlive.ReadFrom(r); err != nil {
 				return 0, err
 			}
+			c.hasServerKeepAlive = true
 		case 0x1A: // Response Information
 			if count, err = c.ResponseInformation.ReadFrom(r); err != nil {
 				return 0, err
-- 
2.43.0


From 3097c10334e175e6f65bb941f1a2681a724efa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 25/33] fix: route and signal an incoming publish in one step,
 once per channel, and close event channels once

---
 mqtt/client.go | 96 +++++++++++++++++++++++++++-----------------------
 mqtt/events.go |  3 ++
 2 files changed, 55 insertions(+), 44 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index bb2e2b9..a9334ee 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -131,6 +131,7 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 
 		channel: channel,
 		done:    done,
+		closed:  new(bool),
 	}
 
 	// Track this chan so fanout signalling can occur later
@@ -148,7 +149,14 @@ func (c *Client) CloseEventChannel(channel EventChannel) {
 	c.closeEventChannelInternal(channel)
 }
 
+// closeEventChannelInternal closes the event channel unless it was closed before. It must be called with the event mutex
+// held.
 func (c *Client) closeEventChannelInternal(channel EventChannel) {
+	if channel.closed == nil || *channel.closed {
+		return
+	}
+	*channel.closed = true
+
 	// Close the channel so that no further signals can occur on it
 	close(channel.channel)
 
@@ -167,7 +175,7 @@ func (c *Client) closeEventChannelInternal(channel EventChannel) {
 
 // signal signals on all event channels in a fanout fashion. This function is only meant to be called by the client
 // internally.
-func (c *Client) signal(packetType packets.PacketType, data any, channel chan<- *Event) {
+func (c *Client) signal(packetType packets.PacketType, data any) {
 	c.eventMutex.Lock()
 	defer c.eventMutex.Unlock()
 
@@ -176,36 +184,45 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 		Data:       data,
 	}
 
-	if channel != nil {
-		// Signal this channel directly
-		select {
-		case channel <- e:
-			// Signalled
-		default:
-			// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-			//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-			//       event channels will stop receiving new events when they are full.
-			// Already has a pending event. This channel will miss the current event
-		}
-	} else {
-		// Fanout to all other channels
-		for _, channel := range c.eventChans {
-			select {
-			case channel.channel <- e:
-				// Signalled
-			default:
-				// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-				//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-				//       event channels will stop receiving new events when they are full.
-				// Already has a pending event. This channel will miss the current event
+	if publish, ok := data.(*packets.Publish); ok {
+		// Route the PUBLISH to the correct event channels as configured by the Subscribe API. A channel that is bound
+		// to more than one matching filter is signalled once.
+		signalled := make(map[int]struct{})
+		for filter, channel := range c.topicChans {
+			if _, done := signalled[channel.id]; done {
+				continue
+			}
+
+			// Does the topic match any known filter?
+			if c.matchTopic(string(publish.Topic), filter) {
+				signalled[channel.id] = struct{}{}
+				c.signalChannel(channel, e)
 			}
 		}
 	}
 
+	// Fanout to all other channels
+	for _, channel := range c.eventChans {
+		c.signalChannel(channel, e)
+	}
+
 	// Sleep this goroutine to allow other goroutines to consume their event channels
 	time.Sleep(time.Nanosecond)
 }
 
+// signalChannel signals on the event channel directly. It must be called with the event mutex held.
+func (c *Client) signalChannel(channel EventChannel, e *Event) {
+	select {
+	case channel.channel <- e:
+		// Signalled
+	default:
+		// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
+		//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
+		//       event channels will stop receiving new events when they are full.
+		// Already has a pending event. This channel will miss the current event
+	}
+}
+
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
@@ -311,7 +328,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.mutex.Unlock()
 
 	// Signal CONNACK event
-	c.signal(packets.CONNACK, connack, nil)
+	c.signal(packets.CONNACK, connack)
 
 	return
 }
@@ -391,7 +408,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	}
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return nil
 }
@@ -423,7 +440,7 @@ func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err erro
 	}
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return
 }
@@ -878,15 +895,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
-		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
-		for filter, channel := range c.topicChans {
-			// Does the topic match any known filter?
-			if c.matchTopic(publish.Topic.String(), filter) {
-				// Signal the publish on this channel
-				c.signal(packets.PUBLISH, publish, channel.channel)
-			}
-		}
-
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
 		c.mutex.RLock()
@@ -900,7 +908,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.RUnlock()
 
-		c.signal(packets.PUBLISH, publish, nil)
+		c.signal(packets.PUBLISH, publish)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if err = c.receive(header, puback); err != nil {
@@ -929,7 +937,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBACK, puback, nil)
+		c.signal(packets.PUBACK, puback)
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
@@ -971,7 +979,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBREC, pubrec, nil)
+		c.signal(packets.PUBREC, pubrec)
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
@@ -1005,7 +1013,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			c.receiveQuota++
 		}
 
-		c.signal(packets.PUBREL, pubrel, nil)
+		c.signal(packets.PUBREL, pubrel)
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
@@ -1036,7 +1044,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBCOMP, pubcomp, nil)
+		c.signal(packets.PUBCOMP, pubcomp)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
 		if err = c.receive(header, suback); err != nil {
@@ -1048,7 +1056,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- suback
 		}
 
-		c.signal(packets.SUBACK, suback, nil)
+		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
 		if err = c.receive(header, unsuback); err != nil {
@@ -1060,7 +1068,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- unsuback
 		}
 
-		c.signal(packets.UNSUBACK, unsuback, nil)
+		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
 		if err = c.receive(header, disconnect); err != nil {
@@ -1069,14 +1077,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Close the connection
 		c.setDisconnected()
 		err = c.conn.Close()
-		c.signal(packets.DISCONNECT, disconnect, nil)
+		c.signal(packets.DISCONNECT, disconnect)
 		return err
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
 		if err = c.receive(header, auth); err != nil {
 			return c.abort(err)
 		}
-		c.signal(packets.AUTH, auth, nil)
+		c.signal(packets.AUTH, auth)
 	case packets.PINGRESP:
 		// SPEC: The PINGRESP packet has no Variable Header and no Payload.
 		if header.Remaining != 0 {
diff --git a/mqtt/events.go b/mqtt/events.go
index 8125fae..da9f020 100644
--- a/mqtt/events.go
+++ b/mqtt/events.go
@@ -44,4 +44,7 @@ type EventChannel struct {
 	id      int
 	channel chan *Event
 	done    chan struct{}
+
+	// closed is shared by all copies of this struct. It is guarded by the event mutex of the client.
+	closed *bool
 }
-- 
2.43.0


From efd5d3746bf09836cb7adf691a439e822a896a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 26/33] fix: apply each SUBACK and UNSUBACK to the call it
 acknowledges

---
 mqtt/client.go | 178 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 129 insertions(+), 49 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index a9334ee..b70f314 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -58,7 +58,7 @@ type Client struct {
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
 
-	responseChan map[int]chan any
+	responseChan map[int]*response
 
 	evChanIdCounter int
 	eventMutex      sync.Mutex
@@ -81,12 +81,24 @@ func (t *Topic) SetEventChannel(channel EventChannel) *Topic {
 	return t
 }
 
+// response is a call to Subscribe or Unsubscribe that waits for its acknowledgement.
+type response struct {
+	packetType packets.PacketType
+	channel    chan any
+
+	// count is the number of topics, each of which is acknowledged by one reason code
+	count int
+
+	// apply applies the reason codes of the acknowledgement to the event channels
+	apply func(reasonCodes []byte)
+}
+
 func NewClient(conn net.Conn) *Client {
 	return &Client{
 		conn:            conn,
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
-		responseChan:    make(map[int]chan any),
+		responseChan:    make(map[int]*response),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -496,52 +508,111 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
-	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
+	c.responseChan[int(subscribe.PacketIdentifier)] = &response{
+		packetType: packets.SUBACK,
+		channel:    respChan,
+		count:      len(topics),
+		apply:      func(reasonCodes []byte) { c.bindTopics(topics, reasonCodes) },
+	}
+	c.mutex.Unlock()
 
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
+		c.mutex.Lock()
+		delete(c.responseChan, int(subscribe.PacketIdentifier))
 		c.mutex.Unlock()
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
-	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
 	select {
 	case resp := <-respChan:
 		suback := resp.(*packets.Suback)
 
+		if len(suback.ReasonCodes) != len(topics) {
+			return packets.ErrControlPacketIsMalformed
+		}
+
 		// Check all reason codes
-		for i, code := range suback.ReasonCodes {
+		for _, code := range suback.ReasonCodes {
 			if code >= 0x80 {
 				// TODO: Return all failure reason codes to caller somehow
 				return ReasonCode(code)
-			} else {
-				// TODO: Consider session retention details here
-
-				if chanid := topics[i].channel.id; chanid != 0 {
-					// Map the event channel to the topic
-					c.mutex.Lock()
-					c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
-
-					// Remove this channel from the general event channel map
-					delete(c.eventChans, chanid)
-					c.mutex.Unlock()
-				}
 			}
 		}
 	}
 
-	// Close the chan
-	close(respChan)
+	return
+}
+
+// bindTopics maps the event channels of all topics that were granted by the server to these topics. It is called while
+// the acknowledgement is processed, so that any PUBLISH that follows it will be signalled on the event channel.
+func (c *Client) bindTopics(topics []Topic, reasonCodes []byte) {
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	for i, code := range reasonCodes {
+		// TODO: Consider session retention details here
+
+		channel := topics[i].channel
+		if code >= 0x80 || channel.closed == nil || *channel.closed {
+			continue
+		}
+
+		// Map the event channel to the topic
+		c.topicChans[topics[i].Topic.Filter()] = channel
+
+		// Remove this channel from the general event channel map
+		delete(c.eventChans, channel.id)
+	}
+}
+
+// unbindTopics unmaps all topic filters that the server accepted to unsubscribe from. Event channels are closed when
+// they are not mapped to any other topic filter.
+func (c *Client) unbindTopics(topics []string, reasonCodes []byte) {
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	for i, code := range reasonCodes {
+		channel, ok := c.topicChans[topics[i]]
+		if code >= 0x80 || !ok {
+			continue
+		}
+		delete(c.topicChans, topics[i])
+
+		// Close the event channel if this was the last topic filter bound to it
+		last := true
+		for _, topicChan := range c.topicChans {
+			if topicChan.id == channel.id {
+				last = false
+			}
+		}
+		if last {
+			c.closeEventChannelInternal(channel)
+		}
+	}
+}
 
+// respond hands the acknowledgement over to the call to Subscribe or Unsubscribe that waits for it, if there is any.
+func (c *Client) respond(packetType packets.PacketType, identifier primitives.PrimitiveUint16, ack any, reasonCodes []byte) {
 	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(subscribe.PacketIdentifier))
-	c.mutex.Unlock()
+	defer c.mutex.Unlock()
 
-	return
+	resp, ok := c.responseChan[int(identifier)]
+	if !ok || resp.packetType != packetType {
+		return
+	}
+
+	// Remove the response from the map
+	delete(c.responseChan, int(identifier))
+
+	// Apply the reason codes if there is one for each topic
+	if len(reasonCodes) == resp.count {
+		resp.apply(reasonCodes)
+	}
+	resp.channel <- ack
 }
 
 // Unsubscribe sends the UNSUBSCRIBE control packet to the server with the specified topic filters. Any event channels
@@ -552,18 +623,20 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
-	c.mutex.Lock()
-
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -575,6 +648,8 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+
+	c.mutex.Lock()
 	unsubscribe := &packets.Unsubscribe{
 		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
 		Topics:           _topics,
@@ -585,33 +660,42 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
-	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
+	c.responseChan[int(unsubscribe.PacketIdentifier)] = &response{
+		packetType: packets.UNSUBACK,
+		channel:    respChan,
+		count:      len(topics),
+		apply:      func(reasonCodes []byte) { c.unbindTopics(topics, reasonCodes) },
+	}
+	c.mutex.Unlock()
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		c.mutex.Lock()
+		delete(c.responseChan, int(unsubscribe.PacketIdentifier))
+		c.mutex.Unlock()
 		return err
 	}
 
-	c.mutex.Unlock()
+	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
 	select {
-	case <-respChan:
-		c.mutex.Lock()
-		// Close any event channels bound to the topics
-		for _, topic := range topics {
-			if channel, ok := c.topicChans[topic]; ok {
-				c.closeEventChannelInternal(channel)
+	case resp := <-respChan:
+		unsuback := resp.(*packets.Unsuback)
+
+		if len(unsuback.ReasonCodes) != len(topics) {
+			return packets.ErrControlPacketIsMalformed
+		}
+
+		// Check all reason codes
+		for _, code := range unsuback.ReasonCodes {
+			if code >= 0x80 {
+				// TODO: Return all failure reason codes to caller somehow
+				return ReasonCode(code)
 			}
 		}
-		c.mutex.Unlock()
 	}
 
-	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(unsubscribe.PacketIdentifier))
-	c.mutex.Unlock()
-
 	return
 }
 
@@ -1052,9 +1136,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Subscribe
-		if respChan, ok := c.responseChan[int(suback.PacketIdentifier)]; ok {
-			respChan <- suback
-		}
+		c.respond(packets.SUBACK, suback.PacketIdentifier, suback, suback.ReasonCodes)
 
 		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
@@ -1064,9 +1146,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Unsubscribe
-		if respChan, ok := c.responseChan[int(unsuback.PacketIdentifier)]; ok {
-			respChan <- unsuback
-		}
+		c.respond(packets.UNSUBACK, unsuback.PacketIdentifier, unsuback, unsuback.ReasonCodes)
 
 		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
-- 
2.43.0


From ce1bec4cd0312ba6dc51cc743562367a19aab1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 27/33] fix: let Subscribe and Unsubscribe return when their
 context is done or the client is disconnected

---
 mqtt/client.go | 127 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 87 insertions(+), 40 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index b70f314..0556338 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -69,6 +69,9 @@ type Client struct {
 	rngFn func() uint32
 
 	pendingSendSemaphore chan struct{}
+
+	// disconnected is closed when the connected state ends
+	disconnected chan struct{}
 }
 
 type Topic struct {
@@ -83,8 +86,13 @@ func (t *Topic) SetEventChannel(channel EventChannel) *Topic {
 
 // response is a call to Subscribe or Unsubscribe that waits for its acknowledgement.
 type response struct {
-	packetType packets.PacketType
-	channel    chan any
+	packetType   packets.PacketType
+	channel      chan any
+	disconnected chan struct{}
+
+	// abandoned is true when the call returned before the acknowledgement was received. The packet identifier stays in
+	// use until then.
+	abandoned bool
 
 	// count is the number of topics, each of which is acknowledged by one reason code
 	count int
@@ -337,6 +345,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 
 	// Successful connection!
 	c.isConnected = true
+	c.disconnected = make(chan struct{})
 	c.mutex.Unlock()
 
 	// Signal CONNACK event
@@ -457,12 +466,15 @@ func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err erro
 	return
 }
 
-// setDisconnected marks the client as not connected.
+// setDisconnected marks the client as not connected and releases all calls that wait for the server.
 func (c *Client) setDisconnected() {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	c.isConnected = false
+	if c.isConnected {
+		c.isConnected = false
+		close(c.disconnected)
+	}
 }
 
 // Subscribe sends the SUBSCRIBE control packet to the server with the specified topic filters and options.
@@ -508,12 +520,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
-	c.responseChan[int(subscribe.PacketIdentifier)] = &response{
-		packetType: packets.SUBACK,
-		channel:    respChan,
-		count:      len(topics),
-		apply:      func(reasonCodes []byte) { c.bindTopics(topics, reasonCodes) },
-	}
+	pending := &response{
+		packetType:   packets.SUBACK,
+		channel:      respChan,
+		disconnected: c.disconnected,
+		count:        len(topics),
+		apply:        func(reasonCodes []byte) { c.bindTopics(topics, reasonCodes) },
+	}
+	c.responseChan[int(subscribe.PacketIdentifier)] = pending
 	c.mutex.Unlock()
 
 	// Send the SUBSCRIBE control packet
@@ -527,20 +541,21 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
-	select {
-	case resp := <-respChan:
-		suback := resp.(*packets.Suback)
+	resp, err := c.await(ctx, pending)
+	if err != nil {
+		return err
+	}
+	suback := resp.(*packets.Suback)
 
-		if len(suback.ReasonCodes) != len(topics) {
-			return packets.ErrControlPacketIsMalformed
-		}
+	if len(suback.ReasonCodes) != len(topics) {
+		return packets.ErrControlPacketIsMalformed
+	}
 
-		// Check all reason codes
-		for _, code := range suback.ReasonCodes {
-			if code >= 0x80 {
-				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
-			}
+	// Check all reason codes
+	for _, code := range suback.ReasonCodes {
+		if code >= 0x80 {
+			// TODO: Return all failure reason codes to caller somehow
+			return ReasonCode(code)
 		}
 	}
 
@@ -595,6 +610,30 @@ func (c *Client) unbindTopics(topics []string, reasonCodes []byte) {
 	}
 }
 
+// await waits for the acknowledgement until the context is done or the client is disconnected.
+func (c *Client) await(ctx context.Context, resp *response) (ack any, err error) {
+	select {
+	case ack = <-resp.channel:
+		return ack, nil
+	case <-ctx.Done():
+		err = ctx.Err()
+	case <-resp.disconnected:
+		err = ErrClientNotConnected
+	}
+
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	// The acknowledgement could have been received in the meantime
+	select {
+	case ack = <-resp.channel:
+		return ack, nil
+	default:
+		resp.abandoned = true
+		return nil, err
+	}
+}
+
 // respond hands the acknowledgement over to the call to Subscribe or Unsubscribe that waits for it, if there is any.
 func (c *Client) respond(packetType packets.PacketType, identifier primitives.PrimitiveUint16, ack any, reasonCodes []byte) {
 	c.mutex.Lock()
@@ -608,6 +647,11 @@ func (c *Client) respond(packetType packets.PacketType, identifier primitives.Pr
 	// Remove the response from the map
 	delete(c.responseChan, int(identifier))
 
+	// Nobody waits for this acknowledgement anymore
+	if resp.abandoned {
+		return
+	}
+
 	// Apply the reason codes if there is one for each topic
 	if len(reasonCodes) == resp.count {
 		resp.apply(reasonCodes)
@@ -660,12 +704,14 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
-	c.responseChan[int(unsubscribe.PacketIdentifier)] = &response{
-		packetType: packets.UNSUBACK,
-		channel:    respChan,
-		count:      len(topics),
-		apply:      func(reasonCodes []byte) { c.unbindTopics(topics, reasonCodes) },
-	}
+	pending := &response{
+		packetType:   packets.UNSUBACK,
+		channel:      respChan,
+		disconnected: c.disconnected,
+		count:        len(topics),
+		apply:        func(reasonCodes []byte) { c.unbindTopics(topics, reasonCodes) },
+	}
+	c.responseChan[int(unsubscribe.PacketIdentifier)] = pending
 	c.mutex.Unlock()
 
 	// Send the UNSUBSCRIBE control packet
@@ -679,20 +725,21 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
-	select {
-	case resp := <-respChan:
-		unsuback := resp.(*packets.Unsuback)
+	resp, err := c.await(ctx, pending)
+	if err != nil {
+		return err
+	}
+	unsuback := resp.(*packets.Unsuback)
 
-		if len(unsuback.ReasonCodes) != len(topics) {
-			return packets.ErrControlPacketIsMalformed
-		}
+	if len(unsuback.ReasonCodes) != len(topics) {
+		return packets.ErrControlPacketIsMalformed
+	}
 
-		// Check all reason codes
-		for _, code := range unsuback.ReasonCodes {
-			if code >= 0x80 {
-				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
-			}
+	// Check all reason codes
+	for _, code := range unsuback.ReasonCodes {
+		if code >= 0x80 {
+			// TODO: Return all failure reason codes to caller somehow
+			return ReasonCode(code)
 		}
 	}
 
-- 
2.43.0


From 6d87a5a70a1f835e4342e4f3d8ab782da043a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 28/33] fix: choose packet identifiers that are not zero and
 not in use; store and send only publishes that can be encoded

---
 mqtt/client.go | 157 ++++++++++++++++++++++++++++++++++++++++---------
 mqtt/errors.go |   1 +
 2 files changed, 131 insertions(+), 27 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 0556338..4fab836 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -66,6 +66,10 @@ type Client struct {
 	sendQuota    uint16
 	receiveQuota uint16
 
+	// inFlight holds the packet identifiers of the QoS 1 and QoS 2 publishes that were sent over the connection and are
+	// not yet fully acknowledged
+	inFlight map[uint16]packets.QoS
+
 	rngFn func() uint32
 
 	pendingSendSemaphore chan struct{}
@@ -107,6 +111,7 @@ func NewClient(conn net.Conn) *Client {
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]*response),
+		inFlight:        make(map[uint16]packets.QoS),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -116,8 +121,8 @@ func NewClient(conn net.Conn) *Client {
 // QoS 1 and QoS 2. No persistence will take place if no storage implementation is set which cause message delivery
 // retry to be effectively disabled. No storage implementation is set by default.
 func (c *Client) SetStorage(storage storage.Storage) {
-	c.eventMutex.Lock()
-	defer c.eventMutex.Unlock()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	c.storage = storage
 }
@@ -125,6 +130,9 @@ func (c *Client) SetStorage(storage storage.Storage) {
 // SetRngFn set the random number generator function that will be used to generate random packet identifiers. The
 // default is rand.Uint32.
 func (c *Client) SetRngFn(fn func() uint32) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.rngFn = fn
 }
 
@@ -466,6 +474,41 @@ func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err erro
 	return
 }
 
+// newPacketIdentifier returns a random packet identifier that is not zero and not in use. It must be called with the
+// mutex held.
+// SPEC: Each time a Client sends a new SUBSCRIBE, UNSUBSCRIBE, or PUBLISH (where QoS > 0) MQTT Control Packet it MUST
+//
+//	assign it a non-zero Packet Identifier that is currently unused [MQTT-2.2.1-3].
+func (c *Client) newPacketIdentifier() (identifier primitives.PrimitiveUint16, err error) {
+	identifier = primitives.PrimitiveUint16(c.rngFn())
+	for i := 0; i < 65536; i++ {
+		used := identifier == 0
+		if !used {
+			_, used = c.inFlight[uint16(identifier)]
+		}
+
+		if !used {
+			_, used = c.responseChan[int(identifier)]
+		}
+
+		// An unfinished publish of an earlier connection could be in the storage
+		if !used && c.storage != nil {
+			if _, err = c.storage.Get(uint16(identifier)); err == nil {
+				used = true
+			} else if !errors.Is(err, storage.ErrNoEntry) {
+				return 0, err
+			}
+		}
+
+		if !used {
+			return identifier, nil
+		}
+		identifier++
+	}
+
+	return 0, ErrNoPacketIdentifierAvailable
+}
+
 // setDisconnected marks the client as not connected and releases all calls that wait for the server.
 func (c *Client) setDisconnected() {
 	c.mutex.Lock()
@@ -509,8 +552,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	}
 
 	c.mutex.Lock()
+	identifier, err := c.newPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: identifier,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -694,8 +743,14 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	}
 
 	c.mutex.Lock()
+	identifier, err := c.newPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: identifier,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -767,24 +822,6 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		return err
 	}
 
-	// Perform preflight packet persistence operations
-	if pub.QoS > 0 {
-		// Assign a packet identifier if none is set
-		c.mutex.Lock()
-		if pub.PacketIdentifier == 0 {
-			pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
-		}
-
-		if c.storage != nil {
-			// Store this publish control packet
-			if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); err != nil {
-				c.mutex.Unlock()
-				return err
-			}
-		}
-		c.mutex.Unlock()
-	}
-
 	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
 	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
 	//       [MQTT-4.9.0-2].
@@ -798,8 +835,51 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		c.pendingSendSemaphore <- struct{}{}
 		c.connMutex.Lock()
 	}
+
+	// Perform preflight packet persistence operations
+	assigned := false
+	if pub.QoS > 0 {
+		// Assign a packet identifier if none is set
+		c.mutex.Lock()
+		if pub.PacketIdentifier == 0 {
+			if pub.PacketIdentifier, err = c.newPacketIdentifier(); err != nil {
+				c.mutex.Unlock()
+				return err
+			}
+			assigned = true
+		}
+		c.mutex.Unlock()
+	}
+
+	// Encode the publish before any of it is stored or sent, as this fails if it cannot be represented
+	var buf []byte
+	if buf, err = c.encode(pub); err == nil && pub.QoS > 0 {
+		c.mutex.Lock()
+		if _, ok = c.inFlight[uint16(pub.PacketIdentifier)]; ok {
+			// The caller chose the identifier of a publish that is not yet acknowledged
+			err = storage.ErrDuplicateEntry
+		} else if c.storage != nil {
+			// Store this publish control packet
+			err = c.storage.Store(uint16(pub.PacketIdentifier), pub)
+		}
+
+		if err == nil {
+			c.inFlight[uint16(pub.PacketIdentifier)] = pub.QoS
+		}
+		c.mutex.Unlock()
+	}
+	if err != nil {
+		if assigned {
+			pub.PacketIdentifier = 0
+		}
+		return err
+	}
+
 	// Write the publish
-	if err = c.send(pub); err != nil {
+	if err = c.write(buf); err != nil {
+		c.mutex.Lock()
+		delete(c.inFlight, uint16(pub.PacketIdentifier))
+		c.mutex.Unlock()
 		return err
 	}
 
@@ -1048,6 +1128,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
+		delete(c.inFlight, puback.PacketIdentifier.Value())
 		if c.sendQuota < c.serverReceiveMaximum {
 			// Increment the sent publish counter
 			c.sendQuota++
@@ -1079,7 +1160,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Increment the send quota counter if it contains a failure reason code
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode > 0x80 {
+		if pubrec.ReasonCode >= 0x80 {
+			delete(c.inFlight, pubrec.PacketIdentifier.Value())
 			if c.sendQuota < c.serverReceiveMaximum {
 				c.sendQuota++
 			}
@@ -1154,6 +1236,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
+		delete(c.inFlight, pubcomp.PacketIdentifier.Value())
 		if c.sendQuota < c.serverReceiveMaximum {
 			// Increment the sent publish counter
 			c.sendQuota++
@@ -1327,16 +1410,36 @@ func (c *Client) abort(err error) error {
 }
 
 func (c *Client) send(w io.WriterTo) (err error) {
+	var buf []byte
+	if buf, err = c.encode(w); err != nil {
+		return err
+	}
+
+	return c.write(buf)
+}
+
+// encode encodes a control packet.
+func (c *Client) encode(w io.WriterTo) ([]byte, error) {
 	// Allocate a new buffer
 	buf := bytes.NewBuffer(make([]byte, 0, 128))
 
 	// Write to the buffer
-	if _, err = w.WriteTo(buf); err != nil {
-		return err
+	if _, err := w.WriteTo(buf); err != nil {
+		return nil, err
 	}
 
+	return buf.Bytes(), nil
+}
+
+// write writes an encoded control packet to the connection.
+func (c *Client) write(buf []byte) (err error) {
 	// Finally, write to the open connection
-	if _, err = c.conn.Write(buf.Bytes()); err != nil {
+	var n int
+	if n, err = c.conn.Write(buf); err != nil {
+		if n > 0 {
+			// Nothing can follow a part of a control packet
+			return c.abort(err)
+		}
 		return err
 	}
 
diff --git a/mqtt/errors.go b/mqtt/errors.go
index b2e4b09..72e45aa 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -30,6 +30,7 @@ var (
 	ErrUnexpectedPacketTypeReceived = errors.New("unexpected packet type received")
 	ErrClientNotConnected           = errors.New("the client is not connected")
 	ErrInvalidArgument              = errors.New("invalid argument")
+	ErrNoPacketIdentifierAvailable  = errors.New("all packet identifiers are in use")
 )
 
 type ReasonCode byte
-- 
2.43.0


From 4307b7ab0f1c26818115b09b90e4f7f9f92d5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 29/33] fix: hold the send quota from before a publish is sent
 until it is fully acknowledged

---
 mqtt/client.go | 115 ++++++++++++++++++++++++-------------------------
 1 file changed, 57 insertions(+), 58 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 4fab836..7c4891d 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -63,7 +63,6 @@ type Client struct {
 	evChanIdCounter int
 	eventMutex      sync.Mutex
 
-	sendQuota    uint16
 	receiveQuota uint16
 
 	// inFlight holds the packet identifiers of the QoS 1 and QoS 2 publishes that were sent over the connection and are
@@ -337,10 +336,10 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Initialize quotas
-	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
 
-	c.pendingSendSemaphore = make(chan struct{}) //, c.sendQuota)
+	// The send quota is what is left of the capacity of this channel
+	c.pendingSendSemaphore = make(chan struct{}, c.serverReceiveMaximum)
 
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
@@ -803,15 +802,46 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
+	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
+	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
+	//       [MQTT-4.9.0-2].
+	//
+	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
+	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
+	//       is zero [MQTT-4.9.0-3].
+	if pub.QoS > 0 {
+		c.mutex.RLock()
+		semaphore, disconnected, connected := c.pendingSendSemaphore, c.disconnected, c.isConnected
+		c.mutex.RUnlock()
+		if !connected {
+			return ErrClientNotConnected
+		}
+
+		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
+		select {
+		case semaphore <- struct{}{}:
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-disconnected:
+			return ErrClientNotConnected
+		}
+
+		// Nothing will be acknowledged if this publish is not sent
+		defer func() {
+			if err != nil {
+				<-semaphore
+			}
+		}()
+	}
+
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
 
 	if !c.IsConnected() {
 		return ErrClientNotConnected
@@ -822,20 +852,6 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		return err
 	}
 
-	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
-	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
-	//       [MQTT-4.9.0-2].
-	//
-	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
-	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
-	//       is zero [MQTT-4.9.0-3].
-	if c.sendQuota == 0 && pub.QoS > 0 {
-		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
-		c.connMutex.Unlock()
-		c.pendingSendSemaphore <- struct{}{}
-		c.connMutex.Lock()
-	}
-
 	// Perform preflight packet persistence operations
 	assigned := false
 	if pub.QoS > 0 {
@@ -855,8 +871,10 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	var buf []byte
 	if buf, err = c.encode(pub); err == nil && pub.QoS > 0 {
 		c.mutex.Lock()
-		if _, ok = c.inFlight[uint16(pub.PacketIdentifier)]; ok {
-			// The caller chose the identifier of a publish that is not yet acknowledged
+		_, publishing := c.inFlight[uint16(pub.PacketIdentifier)]
+		_, waiting := c.responseChan[int(pub.PacketIdentifier)]
+		if publishing || waiting {
+			// The caller chose an identifier that is not yet acknowledged
 			err = storage.ErrDuplicateEntry
 		} else if c.storage != nil {
 			// Store this publish control packet
@@ -876,23 +894,29 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	}
 
 	// Write the publish
-	if err = c.write(buf); err != nil {
+	if err = c.write(buf); err != nil && pub.QoS > 0 {
 		c.mutex.Lock()
 		delete(c.inFlight, uint16(pub.PacketIdentifier))
 		c.mutex.Unlock()
-		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
+	return
+}
 
-	if pub.QoS > 0 {
-		c.mutex.Lock()
-		// Decrement the send quota counter
-		c.sendQuota--
-		c.mutex.Unlock()
+// finishPublish increments the send quota if a publish with the packet identifier was sent over the connection and
+// makes its packet identifier available again. It must be called with the mutex held.
+func (c *Client) finishPublish(identifier uint16, qos packets.QoS) {
+	if sent, ok := c.inFlight[identifier]; !ok || sent != qos {
+		return
 	}
+	delete(c.inFlight, identifier)
 
-	return
+	// Potentially allow a blocked call to Publish to continue.
+	// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
+	select {
+	case <-c.pendingSendSemaphore:
+	default:
+	}
 }
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
@@ -1128,18 +1152,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		delete(c.inFlight, puback.PacketIdentifier.Value())
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.finishPublish(puback.PacketIdentifier.Value(), packets.QoS1)
 
 		// Drop any persisted publish with the same packet identifier
 		if c.storage != nil {
@@ -1161,10 +1174,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
 		if pubrec.ReasonCode >= 0x80 {
-			delete(c.inFlight, pubrec.PacketIdentifier.Value())
-			if c.sendQuota < c.serverReceiveMaximum {
-				c.sendQuota++
-			}
+			c.finishPublish(pubrec.PacketIdentifier.Value(), packets.QoS2)
 		}
 
 		if c.storage != nil {
@@ -1236,18 +1246,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		delete(c.inFlight, pubcomp.PacketIdentifier.Value())
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.finishPublish(pubcomp.PacketIdentifier.Value(), packets.QoS2)
 
 		if c.storage != nil {
 			// Discard original PUBREC control packet from persistent storage
-- 
2.43.0


From 57a695347612c00b073283de36c78b29c87a037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 30/33] fix: send nothing on behalf of a context that is done

---
 mqtt/client.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 7c4891d..8c5560c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -540,6 +540,11 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrClientNotConnected
 	}
 
+	// The context could be done by now
+	if err = ctx.Err(); err != nil {
+		return err
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -729,6 +734,11 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrClientNotConnected
 	}
 
+	// The context could be done by now
+	if err = ctx.Err(); err != nil {
+		return err
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -847,6 +857,11 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		return ErrClientNotConnected
 	}
 
+	// The context could be done by now
+	if err = ctx.Err(); err != nil {
+		return err
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
-- 
2.43.0


From db12816d91580122f4c037e3ed89d8899f338a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 31/33] fix: keep outgoing publishes in storage until their own
 acknowledgement and ignore unknown identifiers

---
 mqtt/client.go | 122 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 91 insertions(+), 31 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 8c5560c..0892607 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -934,6 +934,78 @@ func (c *Client) finishPublish(identifier uint16, qos packets.QoS) {
 	}
 }
 
+// stored returns the packet in persistent storage with the packet identifier, or nil if there is none. It must be called
+// with the mutex held.
+func (c *Client) stored(identifier uint16) (packet any, err error) {
+	if c.storage == nil {
+		return nil, nil
+	}
+
+	if packet, err = c.storage.Get(identifier); errors.Is(err, storage.ErrNoEntry) {
+		return nil, nil
+	}
+
+	return packet, err
+}
+
+// isPublish returns true if the stored packet is an outgoing publish with the QoS level, or the PUBREC that replaced it,
+// as opposed to the record of an incoming publish that happens to have the same packet identifier.
+func (c *Client) isPublish(identifier uint16, packet any, qos packets.QoS) bool {
+	switch p := packet.(type) {
+	case nil:
+		return false
+	case *packets.Publish:
+		if sent, ok := c.inFlight[identifier]; ok {
+			return sent == qos
+		}
+		return p.QoS == qos
+	case *packets.Pubrec:
+		return qos == packets.QoS2 && !isRecord(packet)
+	}
+
+	return true
+}
+
+// isRecord returns true if the stored packet is the record of an incoming publish. The header of its PUBREC control
+// packet is not set, as opposed to one that was received.
+func isRecord(packet any) bool {
+	pubrec, ok := packet.(*packets.Pubrec)
+	return ok && pubrec.Header.GetType() == 0
+}
+
+// dropPublish removes an outgoing publish from persistent storage. It must be called with the mutex held.
+func (c *Client) dropPublish(identifier uint16, qos packets.QoS) error {
+	packet, err := c.stored(identifier)
+	if err != nil || !c.isPublish(identifier, packet, qos) {
+		return err
+	}
+
+	return c.storage.Drop(identifier)
+}
+
+// replacePublish replaces an outgoing publish in persistent storage by the PUBREC that was received for it. It must be
+// called with the mutex held.
+func (c *Client) replacePublish(pubrec *packets.Pubrec) error {
+	identifier := pubrec.PacketIdentifier.Value()
+	packet, err := c.stored(identifier)
+	if err != nil || !c.isPublish(identifier, packet, packets.QoS2) {
+		return err
+	}
+
+	// The PUBREC was received before
+	if _, ok := packet.(*packets.Pubrec); ok {
+		return nil
+	}
+
+	// Discard original publish from persistent storage
+	if err = c.storage.Drop(identifier); err != nil {
+		return err
+	}
+
+	// Store the incoming PUBREC to persistent storage
+	return c.storage.Store(identifier, pubrec)
+}
+
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
 func (c *Client) sendPuback(publish *packets.Publish) (err error) {
@@ -1167,17 +1239,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		c.finishPublish(puback.PacketIdentifier.Value(), packets.QoS1)
 
 		// Drop any persisted publish with the same packet identifier
-		if c.storage != nil {
-			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
+		err = c.dropPublish(puback.PacketIdentifier.Value(), packets.QoS1)
+		c.finishPublish(puback.PacketIdentifier.Value(), packets.QoS1)
 		c.mutex.Unlock()
 
 		c.signal(packets.PUBACK, puback)
+		return err
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
@@ -1188,21 +1257,16 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Increment the send quota counter if it contains a failure reason code
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode >= 0x80 {
-			c.finishPublish(pubrec.PacketIdentifier.Value(), packets.QoS2)
-		}
-
-		if c.storage != nil {
+		failed := pubrec.ReasonCode >= 0x80
+		if failed {
 			// Discard original publish from persistent storage
-			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-
-			// Store the incoming PUBREC to persistent storage
-			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
-				return err
-			}
+			err = c.dropPublish(pubrec.PacketIdentifier.Value(), packets.QoS2)
+			c.finishPublish(pubrec.PacketIdentifier.Value(), packets.QoS2)
+		} else {
+			// Replace the original publish by the incoming PUBREC in persistent storage
+			err = c.replacePublish(pubrec)
 		}
+		c.mutex.Unlock()
 
 		// Send PUBREL control packet
 		pubrel := &packets.Pubrel{
@@ -1211,13 +1275,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			},
 		}
 
-		if err = c.send(pubrel); err != nil {
-			return err
+		// SPEC: The exchange ends with a PUBREC that reports a failure.
+		if err == nil && !failed {
+			err = c.send(pubrel)
 		}
 
-		c.mutex.Unlock()
-
 		c.signal(packets.PUBREC, pubrec)
+		return err
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
@@ -1261,18 +1325,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		c.finishPublish(pubcomp.PacketIdentifier.Value(), packets.QoS2)
-
-		if c.storage != nil {
-			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
 
+		// Discard original PUBREC control packet from persistent storage
+		err = c.dropPublish(pubcomp.PacketIdentifier.Value(), packets.QoS2)
+		c.finishPublish(pubcomp.PacketIdentifier.Value(), packets.QoS2)
 		c.mutex.Unlock()
 
 		c.signal(packets.PUBCOMP, pubcomp)
+		return err
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
 		if err = c.receive(header, suback); err != nil {
-- 
2.43.0


From 552c186bbebdd87c32289b6aaba04d5c041d4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 32/33] fix: deliver QoS 2 publishes once and record only
 these; count the receive quota of QoS 1 and QoS 2 only

---
 mqtt/client.go | 113 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 83 insertions(+), 30 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 0892607..08a3da9 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -51,6 +51,7 @@ type Client struct {
 	keepAliveInterval     time.Duration
 	pingRespDeadline      time.Time
 	sessionExpiryInterval uint32
+	sessionPresent        bool
 
 	clientReceiveMaximum uint16
 	serverReceiveMaximum uint16
@@ -69,6 +70,10 @@ type Client struct {
 	// not yet fully acknowledged
 	inFlight map[uint16]packets.QoS
 
+	// received holds the packet identifiers of the QoS 2 publishes that were received over the connection and are not
+	// yet released
+	received map[uint16]struct{}
+
 	rngFn func() uint32
 
 	pendingSendSemaphore chan struct{}
@@ -111,6 +116,7 @@ func NewClient(conn net.Conn) *Client {
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]*response),
 		inFlight:        make(map[uint16]packets.QoS),
+		received:        make(map[uint16]struct{}),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -350,6 +356,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	//       non-zero Session Expiry Interval in the DISCONNECT packet sent by the Client.
 	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)
 
+	// The records of incoming publishes in the storage are meaningless if the server does not resume the session
+	c.sessionPresent = connack.SessionPresent
+
 	// Successful connection!
 	c.isConnected = true
 	c.disconnected = make(chan struct{})
@@ -1006,6 +1015,52 @@ func (c *Client) replacePublish(pubrec *packets.Pubrec) error {
 	return c.storage.Store(identifier, pubrec)
 }
 
+// recordPublish records that the QoS 2 publish was received until it is released. It returns true if it was received
+// over an earlier connection of the same session. It must be called with the mutex held.
+func (c *Client) recordPublish(publish *packets.Publish) (known bool, err error) {
+	identifier := publish.PacketIdentifier.Value()
+	packet, err := c.stored(identifier)
+	if err != nil {
+		return false, err
+	}
+
+	// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
+	// It will be removed when a PUBREL control packet comes in.
+	if packet == nil && c.storage != nil {
+		pubrec := &packets.Pubrec{
+			Puback: packets.Puback{
+				PacketIdentifier: publish.PacketIdentifier,
+			},
+		}
+		if err = c.storage.Store(identifier, pubrec); err != nil {
+			return false, err
+		}
+	}
+	c.received[identifier] = struct{}{}
+
+	return c.sessionPresent && isRecord(packet), nil
+}
+
+// releasePublish forgets an incoming QoS 2 publish. It must be called with the mutex held.
+func (c *Client) releasePublish(identifier uint16) error {
+	if _, ok := c.received[identifier]; ok {
+		delete(c.received, identifier)
+
+		// Increment receive quota counter
+		if c.receiveQuota < c.clientReceiveMaximum {
+			c.receiveQuota++
+		}
+	}
+
+	// Discard original PUBREC control packet from persistent storage
+	packet, err := c.stored(identifier)
+	if err != nil || !isRecord(packet) {
+		return err
+	}
+
+	return c.storage.Drop(identifier)
+}
+
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
 func (c *Client) sendPuback(publish *packets.Publish) (err error) {
@@ -1187,8 +1242,16 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return c.abort(err)
 		}
 
+		// The packet identifier MUST be set
+		if publish.QoS > packets.QoS2 || (publish.QoS > 0 && publish.PacketIdentifier == 0) {
+			return c.abort(packets.ErrControlPacketIsMalformed)
+		}
+
 		c.mutex.Lock()
-		if c.receiveQuota == 0 && publish.QoS > 0 {
+		// A QoS 2 publish can be received again before it is released
+		_, duplicate := c.received[publish.PacketIdentifier.Value()]
+		duplicate = duplicate && publish.QoS == packets.QoS2
+		if c.receiveQuota == 0 && publish.QoS > 0 && !duplicate {
 			// The server has sent more publishes than this client is willing to accept. Send disconnect.
 			// SPEC: The Server MUST NOT send more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets for which it has
 			//       not received PUBACK, PUBCOMP, or PUBREC with a Reason Code of 128 or greater from the Client
@@ -1200,12 +1263,26 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 				return err
 			}
 			return ReasonCode(0x93)
-		} else {
+		} else if publish.QoS > 0 && !duplicate {
 			// Decrement the receive quota counter
 			c.receiveQuota--
 		}
+
+		if publish.QoS == packets.QoS2 {
+			var known bool
+			if known, err = c.recordPublish(publish); err != nil {
+				c.mutex.Unlock()
+				return err
+			}
+			duplicate = duplicate || known
+		}
 		c.mutex.Unlock()
 
+		// Signal before the acknowledgement is sent. The server will not send the publish again after that.
+		if !duplicate {
+			c.signal(packets.PUBLISH, publish)
+		}
+
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
 			if err = c.sendPuback(publish); err != nil {
@@ -1216,21 +1293,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 				return err
 			}
 		}
-
-		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
-		// It will be removed when a PUBREL control packet comes in.
-		c.mutex.RLock()
-		if publish.QoS > 0 && c.storage != nil {
-			pubrec := &packets.Pubrec{
-				Puback: packets.Puback{
-					PacketIdentifier: publish.PacketIdentifier,
-				},
-			}
-			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
-		}
-		c.mutex.RUnlock()
-
-		c.signal(packets.PUBLISH, publish)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if err = c.receive(header, puback); err != nil {
@@ -1291,12 +1353,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
-		if c.storage != nil {
-			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
+		err = c.releasePublish(pubrel.PacketIdentifier.Value())
 		c.mutex.Unlock()
 
 		// Send PUBCOMP control packet
@@ -1306,16 +1363,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			},
 		}
 
-		if err = c.send(pubcomp); err != nil {
-			return err
-		}
-
-		// Increment receive quota counter
-		if c.receiveQuota < c.clientReceiveMaximum {
-			c.receiveQuota++
+		if err == nil {
+			err = c.send(pubcomp)
 		}
 
 		c.signal(packets.PUBREL, pubrel)
+		return err
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
-- 
2.43.0


From ba34ab71ced5fc6e64f3b42ff8ed68a974769aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 33/33] fix: refuse a QoS or retain handling above 2 instead of
 writing it

PUBLISH, CONNECT (will) and SUBSCRIBE put any value into their flag bits, so that a QoS of 3 was written as such and a
larger one changed neighbouring bits.
---
 mqtt/packets/connect.go   |  5 +++++
 mqtt/packets/publish.go   |  5 +++++
 mqtt/packets/subscribe.go |  3 +++
 mqtt/packets/topic.go     | 14 ++++++++++++++
 4 files changed, 27 insertions(+)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index b93c0fa..39f0786 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -78,6 +78,11 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
 
+	// SPEC: If the Will Flag is set to 1, the value of Will QoS can be 0 (0x00), 1 (0x01), or 2 (0x02) [MQTT-3.1.2-12].
+	if len(c.Will) > 0 && c.WillQos > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	if c.SessionExpiryInterval > 0 {
 		propertiesLen += c.SessionExpiryInterval.Length(true)
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index b235422..7e02c5a 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -230,6 +230,11 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	// SPEC: A PUBLISH Packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4].
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	variableHeaderLen += p.Topic.Length(false)
 
diff --git a/mqtt/packets/subscribe.go b/mqtt/packets/subscribe.go
index 3377a64..001c4b9 100644
--- a/mqtt/packets/subscribe.go
+++ b/mqtt/packets/subscribe.go
@@ -65,6 +65,9 @@ func (s *Subscribe) WriteTo(w io.Writer) (n int64, err error) {
 
 	// Calculate length of payload
 	for _, topic := range s.Topics {
+		if !topic.valid() {
+			return 0, ErrControlPacketIsMalformed
+		}
 		payloadLen += topic.filter.Length(false) + topic.options.Length(false)
 	}
 
diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index d1b23a6..36e9556 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -35,6 +35,10 @@ func (t *Topic) SetQoS(qos QoS) *Topic {
 	// Set bits [1 - 0]
 	t.options &= ^primitives.PrimitiveByte(1 << 0)
 	t.options &= ^primitives.PrimitiveByte(1 << 1)
+	if qos > QoS2 {
+		// Both bits are an invalid value, which is refused when encoding
+		qos = 3
+	}
 	t.options |= primitives.PrimitiveByte(qos)
 	return t
 }
@@ -58,6 +62,12 @@ func (t *Topic) SetNoLocal(on bool) *Topic {
 	return t
 }
 
+// valid returns false if the options cannot be sent.
+// SPEC: It is a Protocol Error if the Maximum QoS field has the value 3, and to send a Retain Handling value of 3.
+func (t *Topic) valid() bool {
+	return t.options&0x03 != 0x03 && t.options&0x30 != 0x30
+}
+
 // encodedOptions returns the subscription options byte to send for this topic.
 func (t *Topic) encodedOptions() primitives.PrimitiveByte {
 	// Leave the no local bit unset if this is a shared subscription
@@ -81,6 +91,10 @@ func (t *Topic) SetRetainHandling(handling RetainHandlingOption) *Topic {
 	// Set bits [5 - 4]
 	t.options &= ^primitives.PrimitiveByte(1 << 5)
 	t.options &= ^primitives.PrimitiveByte(1 << 4)
+	if handling > 2 {
+		// Both bits are an invalid value, which is refused when encoding
+		handling = 3
+	}
 	t.options |= primitives.PrimitiveByte(handling << 4)
 	return t
 }
-- 
2.43.0

