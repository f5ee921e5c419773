From efc6d9a1d92f26e95f917f495fbf2918e4017301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 01/30] fix: Collector: reject unsupported TPDU types before
 creating a pipe

TPDUs of all unsupported types shared the pipe with an empty key, so a second one with a
different segment count could index out of range.
---
 collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collect.go b/collect.go
index 445585e..ca35b0b 100644
--- a/collect.go
+++ b/collect.go
@@ -107,6 +107,9 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 		return nil, ErrReassemblyInconsistency
 	}
 	key, err := pduKey(pdu, segments, concatRef)
+	if err != nil {
+		return nil, err
+	}
 	p, ok := c.pipes[key]
 	if ok {
 		if p.segments[seqno-1] != nil {
-- 
2.43.0


From 89afbaa2bbe5c040e465ffca1e361714a5428a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 02/30] fix: Collector.Pipes returns a copy of the segments,
 not the live slices

---
 collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index ca35b0b..591e674 100644
--- a/collect.go
+++ b/collect.go
@@ -82,7 +82,7 @@ func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
 	c.Lock()
 	m := map[string][]*tpdu.TPDU{}
 	for k, v := range c.pipes {
-		m[k] = v.segments
+		m[k] = append([]*tpdu.TPDU(nil), v.segments...)
 	}
 	c.Unlock()
 	return m
-- 
2.43.0


From 7b5568024106935314acf06a00685f45fc0c5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 03/30] fix: Decode: do not append into the backing array of
 the previous UD

---
 sms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8deb5cd..d5fcbcd 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,7 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append([]byte(danglingSurrogate), ud...)
+			ud = append(append([]byte(nil), danglingSurrogate...), ud...)
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From 2ad9722c8dbe376c7d730ecbf4b12051731c9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 04/30] fix: Segment: do not write to spare capacity of the
 template UDH

---
 encoding/tpdu/tpdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index b6ca697..5ea7a6b 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -204,7 +204,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		return []TPDU{t}
 	}
 	// add contcat IE and recalc bs
-	t.SetUDH(append(t.UDH, cfg.ief(0, 0, 0)))
+	t.SetUDH(append(t.UDH[:len(t.UDH):len(t.UDH)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
-- 
2.43.0


From 176c74d374b3b82d3f04c01844a6c306b533587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 05/30] fix: Encoder.Encode: per-call options no longer write
 shared option storage

---
 encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encode.go b/encode.go
index 63e9d05..05d885d 100644
--- a/encode.go
+++ b/encode.go
@@ -87,6 +87,8 @@ func NewEncoder(options ...EncoderOption) *Encoder {
 // For implicit UCS-2 encoding (the fallback with 7-bit fails) the message is
 // assumed to contain UTF-8.
 func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
+	// per-call options must not share spare capacity with other calls
+	e.eopts = e.eopts[:len(e.eopts):len(e.eopts)]
 	for _, option := range options {
 		option.ApplyEncoderOption(&e)
 	}
-- 
2.43.0


From a7a07cd88f589a37a5f0d3eebfaa80a93ae9dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 06/30] fix: pdumode: unmarshalled PDU does not alias the
 source buffer

---
 encoding/pdumode/pdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/pdumode/pdu.go b/encoding/pdumode/pdu.go
index 8f3b69f..d50a6c5 100644
--- a/encoding/pdumode/pdu.go
+++ b/encoding/pdumode/pdu.go
@@ -47,7 +47,7 @@ func (p *PDU) UnmarshalBinary(src []byte) error {
 	if err != nil {
 		return err
 	}
-	p.TPDU = src[n:]
+	p.TPDU = append([]byte(nil), src[n:]...)
 	return nil
 }
 
-- 
2.43.0


From 9521a38e3d5390caec1ae3a570bca47b2b420e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 07/30] fix: UDH unmarshal: an IE may not extend past the end
 of the UDH

---
 encoding/tpdu/userdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index de19912..60fd1f1 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -85,7 +85,7 @@ func (udh *UserDataHeader) UnmarshalBinary(src []byte) (int, error) {
 		ri++
 		iedl := int(src[ri])
 		ri++
-		if len(src) < ri+iedl {
+		if udhl < ri+iedl {
 			return ri, NewDecodeError("ied", ri, ErrUnderflow)
 		}
 		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
-- 
2.43.0


From 73211089dd7d516df47b996d9acc219d718758d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 08/30] fix: TPDU unmarshal: trailing octets after an empty UD
 are an error

---
 encoding/tpdu/tpdu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 5ea7a6b..26c0765 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -836,6 +836,9 @@ func (t *TPDU) decodeUserData(src []byte) error {
 	}
 	udl := int(src[0])
 	if udl == 0 {
+		if len(src) > 1 {
+			return NewDecodeError("ud", 1, ErrOverlength)
+		}
 		return nil
 	}
 	var udh UserDataHeader
-- 
2.43.0


From 37791dce441f95e98259c019996aea1ab9016e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 09/30] fix: relative validity period of 5 minutes encodes as
 0, as do shorter and negative periods

---
 encoding/tpdu/validityperiod.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index e0dce80..a63ba2e 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -213,12 +213,10 @@ const (
 
 func durationToRelative(d time.Duration) byte {
 	switch {
+	case d < time.Minute*5:
+		return 0
 	case d < time.Hour*12:
-		t := byte(d / (time.Minute * 5))
-		if t > 1 {
-			t--
-		}
-		return t
+		return byte(d/(time.Minute*5)) - 1
 	case d < time.Hour*24:
 		return 119 + byte(d/(time.Minute*30))
 	case d < time.Hour*24*30:
-- 
2.43.0


From e4fdb0c246cdd2ec8848e921d01c7bed9f9680e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 10/30] fix: enhanced validity period in seconds does not wrap
 negative durations

---
 encoding/tpdu/validityperiod.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index a63ba2e..34a2166 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -69,6 +69,9 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 			if secs > 255 {
 				secs = 255
 			}
+			if secs < 0 {
+				secs = 0
+			}
 			dst[1] = byte(secs)
 		case EvpfRelativeHHMMSS:
 			f := []int{int(v.Duration.Hours()) % 100, int(v.Duration.Minutes()) % 60, int(v.Duration.Seconds()) % 60}
-- 
2.43.0


From b39ad2eb224814d163ecb5f489ff6203ca233d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:06 +0000
Subject: [PATCH 11/30] fix: WithUDH sets the UDHI flag along with the UDH

---
 encoding/tpdu/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/options.go b/encoding/tpdu/options.go
index d1956f9..c7a6557 100644
--- a/encoding/tpdu/options.go
+++ b/encoding/tpdu/options.go
@@ -48,7 +48,7 @@ type UDHOption struct {
 
 // ApplyTPDUOption applies the UDH to the TPDU.
 func (o UDHOption) ApplyTPDUOption(t *TPDU) error {
-	t.UDH = o.udh
+	t.SetUDH(o.udh)
 	return nil
 }
 
-- 
2.43.0


From 0915f7deea87f905a1906ca7d4af5627a6506979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 12/30] fix: SetUDH with an empty UDH does not set UDHI, as no
 header is marshalled

---
 encoding/tpdu/tpdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 26c0765..3dcc4a6 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -287,7 +287,7 @@ func (t *TPDU) SetUD(ud UserData) {
 // SetUDH sets the User Data Header of the TPDU and the TP-UDHI flag.
 func (t *TPDU) SetUDH(udh UserDataHeader) {
 	t.UDH = udh
-	if udh == nil {
+	if len(udh) == 0 {
 		t.FirstOctet &^= FoUDHI
 	} else {
 		t.PI |= PiUDL
-- 
2.43.0


From 2fb338f51ea5d6a5a9a86d848637ae124a17dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 13/30] fix: WithAllCharsets can be used as a decode option, as
 documented

---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index 744f7f6..29f9f12 100644
--- a/options.go
+++ b/options.go
@@ -100,6 +100,11 @@ func (o AllCharsetsOption) ApplyEncoderOption(e *Encoder) {
 	e.eopts = append(e.eopts, tpdu.WithAllCharsets)
 }
 
+// ApplyDecodeOption applies the AllCharsetsOption to decoding.
+func (o AllCharsetsOption) ApplyDecodeOption(cc *DecodeConfig) {
+	cc.dopts = append(cc.dopts, tpdu.WithAllCharsets)
+}
+
 // WithCharset creates an CharsetOption.
 func WithCharset(nli ...int) CharsetOption {
 	return CharsetOption{nli}
-- 
2.43.0


From d939412bd0fdb12e2ca5e859a33443e2bc875fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 14/30] fix: FirstOctet.WithMTI and WithVPF only alter their
 own bits

---
 encoding/tpdu/firstoctet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/firstoctet.go b/encoding/tpdu/firstoctet.go
index 9acaefa..5e7d573 100644
--- a/encoding/tpdu/firstoctet.go
+++ b/encoding/tpdu/firstoctet.go
@@ -55,14 +55,14 @@ func (f FirstOctet) VPF() ValidityPeriodFormat {
 // WithMTI returns a FirstOctet with the TP-MTI field set.
 func (f FirstOctet) WithMTI(mti MessageType) FirstOctet {
 	f &^= FoMTIMask
-	f |= FirstOctet(mti << FoMTIShift)
+	f |= FirstOctet(mti<<FoMTIShift) & FoMTIMask
 	return f
 }
 
 // WithVPF returns a FirstOctet with the TP-VPF field set.
 func (f FirstOctet) WithVPF(vpf ValidityPeriodFormat) FirstOctet {
 	f &^= FoVPFMask
-	f |= FirstOctet(vpf << FoVPFShift)
+	f |= FirstOctet(vpf<<FoVPFShift) & FoVPFMask
 	return f
 }
 
-- 
2.43.0


From 2fac2cdc15f30ce949a2fec6bf7bbf818c3f2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 15/30] fix: DCS.WithAlphabet and WithClass reject values that
 do not fit their field

---
 encoding/tpdu/dcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/tpdu/dcs.go b/encoding/tpdu/dcs.go
index 0317180..9b507d8 100644
--- a/encoding/tpdu/dcs.go
+++ b/encoding/tpdu/dcs.go
@@ -83,6 +83,8 @@ func (d DCS) String() string {
 // An error is returned if the state is incompatible with setting the alphabet.
 func (d DCS) WithAlphabet(a Alphabet) (DCS, error) {
 	switch {
+	case a < Alpha7Bit || a > AlphaReserved:
+		return d, ErrInvalid
 	case d&0x80 == 0x00: // 0xxx
 		return d&^0x0c | (DCS(a) << 2), nil
 	case d&0xe0 == 0xc0 && a == Alpha7Bit: // 110x is 7Bit
@@ -145,6 +147,8 @@ func (d DCS) Class() (MessageClass, error) {
 // class.
 func (d DCS) WithClass(c MessageClass) (DCS, error) {
 	switch {
+	case c < MClass0 || c > MClass3:
+		return d, ErrInvalid
 	case d&0x80 == 0x00: // 0xxx
 		return (d&^0x03 | 0x10 | DCS(c)), nil
 	case d&0xf0 == 0xf0: // 1111
-- 
2.43.0


From 20c8648d33780700b466b026c1f705ebf98fad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 16/30] fix: UDH marshal: a header that does not fit the UDHL
 octet is an error

---
 encoding/tpdu/tpdu.go     | 1 -
 encoding/tpdu/userdata.go | 4 ++++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 3dcc4a6..64fca88 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -931,7 +931,6 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 func (t *TPDU) encodeUserData() (b []byte, err error) {
 	udh, err := t.UDH.MarshalBinary()
 	if err != nil {
-		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
 	}
 	ud := t.UD
diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index 60fd1f1..59b70d4 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -50,6 +50,10 @@ func (udh UserDataHeader) MarshalBinary() ([]byte, error) {
 		return nil, nil
 	}
 	udhl := udh.UDHL()
+	if udhl > 255 {
+		// also covers the length of each IE
+		return nil, EncodeError("udhl", ErrOverlength)
+	}
 	b := make([]byte, 0, udhl+1)
 	b = append(b, byte(udhl))
 	for _, ie := range udh {
-- 
2.43.0


From f48ab1afb52171636b49a9050beee332034a9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 17/30] fix: UD marshal: user data that does not fit the UDL
 octet is an error

---
 encoding/tpdu/tpdu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 64fca88..c6214c7 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -961,6 +961,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 		// udl is in octets
 		udl = udl + len(udh)
 	}
+	if udl > 255 {
+		return nil, EncodeError("udl", ErrOverlength)
+	}
 	b = make([]byte, 0, 1+len(udh)+len(ud))
 	b = append(b, byte(udl))
 	b = append(b, udh...)
-- 
2.43.0


From 7c1a01c7207c0244c1a9885958d89ab11022d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 18/30] fix: SMS-COMMAND marshal: include the UDH, and check
 the command data length

---
 encoding/tpdu/tpdu.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index c6214c7..913def9 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -405,12 +405,20 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	cdl := len(t.UD)
+	udh, err := t.UDH.MarshalBinary()
+	if err != nil {
+		return nil, EncodeError("udh", err)
+	}
+	cdl := len(udh) + len(t.UD)
+	if cdl > 255 {
+		return nil, EncodeError("cdl", ErrOverlength)
+	}
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
 	b = append(b, da...)
 	b = append(b, byte(cdl))
+	b = append(b, udh...)
 	b = append(b, t.UD...)
 	return b, nil
 }
-- 
2.43.0


From 3d862e8766b219e4f3d00ddbae631ca048486d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 19/30] fix: Address marshal: an address that does not fit its
 length octet is an error

---
 encoding/tpdu/address.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/address.go b/encoding/tpdu/address.go
index 0f210df..fc07252 100644
--- a/encoding/tpdu/address.go
+++ b/encoding/tpdu/address.go
@@ -64,6 +64,9 @@ func (a *Address) MarshalBinary() (dst []byte, err error) {
 		}
 		l = len(a.Addr)
 	}
+	if l > 255 {
+		return nil, EncodeError("addr", ErrOverlength)
+	}
 	dst = make([]byte, 0, l+2)
 	dst = append(dst, byte(l), a.TOA)
 	dst = append(dst, addr...)
-- 
2.43.0


From 0f0eb505dcea903ee51b3e9321154027b3534455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 20/30] fix: SMSC address marshal: an address that does not fit
 its length octet is an error

---
 encoding/pdumode/smscaddress.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 6e7595f..08a6154 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -33,6 +33,9 @@ func (a *SMSCAddress) MarshalBinary() (dst []byte, err error) {
 		return []byte{0}, nil
 	}
 	l := len(addr) + 1 // in octets and includes the toa
+	if l > 255 {
+		return nil, tpdu.EncodeError("addr", tpdu.ErrOverlength)
+	}
 	dst = make([]byte, 2, l+1)
 	dst[0] = byte(l)
 	dst[1] = a.TOA
-- 
2.43.0


From b4f091435a1c3db2165d587577220d8ffc26e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 21/30] fix: GSM7 encode: the escape septet is not a character

---
 encoding/gsm7/gsm7.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 25e77d6..19af454 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -219,12 +219,12 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 	dst := make([]byte, 0, len(src))
 	for _, u := range string(src) {
 		g, ok := e.set[u]
-		if ok {
+		if ok && g != esc {
 			dst = append(dst, g)
 			continue
 		}
 		g, ok = e.ext[u]
-		if ok {
+		if ok && g != esc {
 			dst = append(dst, esc, g)
 			continue
 		}
-- 
2.43.0


From a3222a3f2921087fae8e9a5f47f2b62939cec543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:20 +0000
Subject: [PATCH 22/30] fix: Encoder keeps the template UDH when adding a
 language IE

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 05d885d..542f96c 100644
--- a/encode.go
+++ b/encode.go
@@ -109,7 +109,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			e.pdu.SetDCS(byte(dcs))
 		}
 		if udh != nil {
-			e.pdu.SetUDH(append(e.pdu.UDH[:0:0], udh...))
+			e.pdu.SetUDH(append(e.pdu.UDH[:len(e.pdu.UDH):len(e.pdu.UDH)], udh...))
 		}
 		return e.pdu.Segment(d, sopts...), nil
 	}
-- 
2.43.0


From 15a510704e5d710831a60329c7b6a64536d835e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 23/30] fix: charset: generating a table on first use is safe
 for concurrent use

---
 encoding/gsm7/charset/charset.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/encoding/gsm7/charset/charset.go b/encoding/gsm7/charset/charset.go
index 7e1f675..42c8ed9 100644
--- a/encoding/gsm7/charset/charset.go
+++ b/encoding/gsm7/charset/charset.go
@@ -5,8 +5,15 @@
 // Package charset provides encoders and decoders for GSM character sets.
 package charset
 
+import "sync"
+
+// mu covers the tables which are generated on first use.
+var mu sync.Mutex
+
 // DefaultDecoder returns the default mapping table from GSM7 to UTF8.
 func DefaultDecoder() Decoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultDecoder == nil {
 		defaultDecoder = generateDefaultDecoder()
 	}
@@ -16,6 +23,8 @@ func DefaultDecoder() Decoder {
 // NewDecoder returns the mapping table from GSM7 to UTF8 for the given language.
 func NewDecoder(nli int) Decoder {
 	if di, ok := decoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *di.e == nil {
 			*di.e = di.g()
 		}
@@ -39,6 +48,8 @@ func NewExtDecoder(nli int) Decoder {
 
 // DefaultEncoder returns the default mapping table from UTF8 to GSM7.
 func DefaultEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultEncoder == nil {
 		defaultEncoder = generateDefaultEncoder()
 	}
@@ -48,6 +59,8 @@ func DefaultEncoder() Encoder {
 // NewEncoder returns the mapping table from UTF8 to GSM7 for the given language.
 func NewEncoder(nli int) Encoder {
 	if ei, ok := encoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
@@ -58,6 +71,8 @@ func NewEncoder(nli int) Encoder {
 
 // DefaultExtEncoder returns the default extension mapping table from UTF8 to GSM7.
 func DefaultExtEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultExtEncoder == nil {
 		defaultExtEncoder = generateDefaultExtEncoder()
 	}
@@ -67,6 +82,8 @@ func DefaultExtEncoder() Encoder {
 // NewExtEncoder returns the extension mapping table from UTF8 to GSM7 for the given language.
 func NewExtEncoder(nli int) Encoder {
 	if ei, ok := extEncoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
-- 
2.43.0


From 71ea31b6128866c424017f9c9060ab96f07ab820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 24/30] fix: Segment: do not panic or loop forever when the UDH
 leaves no space for the message

---
 encoding/tpdu/tpdu.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 913def9..ef91c50 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -186,6 +186,8 @@ type SegmentationOption func(*segmentationConfig)
 // the message.  For multi-part messages, the UDH provided in the TPDU is
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
+//
+// Returns nil if the UDH does not leave sufficient space to carry the message.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -208,6 +210,9 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
+	if bs < minBlockSize(alpha) {
+		return nil
+	}
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
 	pdus := make([]TPDU, count)
@@ -1122,6 +1127,19 @@ const (
 	esc byte = 0x1b
 )
 
+// minBlockSize returns the size of the largest character that chunk will not
+// split, and so the smallest block that can carry any message.
+func minBlockSize(alpha Alphabet) int {
+	switch alpha {
+	case Alpha8Bit:
+		return 1
+	case AlphaUCS2: // surrogate pair
+		return 4
+	default: // escaped septet
+		return 2
+	}
+}
+
 // chunk splits a message into chunks that are not larger than bs.
 func chunk(msg []byte, alpha Alphabet, bs int) [][]byte {
 	switch alpha {
-- 
2.43.0


From 7bd471f9ed130db333b2f216b996710120592b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 25/30] fix: Segment: a message requiring more than 255
 segments cannot be labelled

---
 encoding/tpdu/tpdu.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index ef91c50..1bde643 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -187,7 +187,8 @@ type SegmentationOption func(*segmentationConfig)
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
 //
-// Returns nil if the UDH does not leave sufficient space to carry the message.
+// Returns nil if the UDH does not leave sufficient space to carry the message,
+// or the message requires more than 255 segments.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -215,6 +216,9 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	}
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
+	if count > maxSegments {
+		return nil
+	}
 	pdus := make([]TPDU, count)
 	concatRef := 1
 	if cfg.cr != nil {
@@ -1125,6 +1129,9 @@ func newInfoElement16bit(msgCount, segCount, segment int) InformationElement {
 
 const (
 	esc byte = 0x1b
+
+	// maxSegments is limited by the octet available in the concatenation IE.
+	maxSegments = 255
 )
 
 // minBlockSize returns the size of the largest character that chunk will not
-- 
2.43.0


From 9e5e91b49ae8778105c23a7c6e364f1c3a80d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 26/30] fix: Encode: a message that cannot be segmented is an
 error

---
 encode.go | 12 ++++++++++--
 error.go  |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 542f96c..6215d02 100644
--- a/encode.go
+++ b/encode.go
@@ -97,7 +97,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 	alpha, _ := e.pdu.DCS.Alphabet()
 	switch alpha {
 	case tpdu.Alpha8Bit, tpdu.AlphaUCS2:
-		return e.pdu.Segment(msg, sopts...), nil
+		return segment(e.pdu, msg, sopts)
 	default:
 		// encode as GSM7, or failing that UCS2...
 		d, udh, alpha := tpdu.EncodeUserData(msg, e.eopts...)
@@ -111,10 +111,18 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 		if udh != nil {
 			e.pdu.SetUDH(append(e.pdu.UDH[:len(e.pdu.UDH):len(e.pdu.UDH)], udh...))
 		}
-		return e.pdu.Segment(d, sopts...), nil
+		return segment(e.pdu, d, sopts)
 	}
 }
 
+func segment(t tpdu.TPDU, msg []byte, sopts []tpdu.SegmentationOption) ([]tpdu.TPDU, error) {
+	pdus := t.Segment(msg, sopts...)
+	if len(pdus) == 0 && len(msg) != 0 {
+		return nil, ErrMessageTooLong
+	}
+	return pdus, nil
+}
+
 // Counter is an implementation of the tpdu.Counter interface.
 //
 // It also provides a Read method on the current value for diagnostic purposes.
diff --git a/error.go b/error.go
index 375f432..337d37d 100644
--- a/error.go
+++ b/error.go
@@ -22,6 +22,10 @@ var (
 	// cannot be used to determine which of the two may better fit the
 	// reassembly, so the first is kept and the second discarded.
 	ErrDuplicateSegment = errors.New("duplicate segment")
+	// ErrMessageTooLong indicates the message cannot be segmented, as it requires
+	// more than the maximum number of segments, or the UDH in the template TPDU
+	// leaves no space for the message.
+	ErrMessageTooLong = errors.New("message too long")
 	// ErrReassemblyInconsistency indicates a segment has arrived for a
 	// reassembly that has a seqno greater than the number of segments in the
 	// reassembly.
-- 
2.43.0


From 2e7d237a87f01320bc2cde6a09f34163f6a7b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 27/30] fix: Encode: report the error from a template option

---
 encode.go  | 6 ++++++
 options.go | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 6215d02..f3c86c2 100644
--- a/encode.go
+++ b/encode.go
@@ -46,6 +46,9 @@ type Encoder struct {
 	// The template TPDU for encoding.
 	pdu tpdu.TPDU
 
+	// the first error returned by a template option
+	err error
+
 	// MsgCount is the number of TPDUs encoded.
 	MsgCount tpdu.Counter
 
@@ -92,6 +95,9 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 	for _, option := range options {
 		option.ApplyEncoderOption(&e)
 	}
+	if e.err != nil {
+		return nil, e.err
+	}
 	sopts := append(e.sopts, tpdu.WithMR(e.MsgCount), tpdu.WithConcatRef(e.ConcatRef))
 	// take the DCS in the template TPDU as a hint...
 	alpha, _ := e.pdu.DCS.Alphabet()
diff --git a/options.go b/options.go
index 29f9f12..8e7f3a4 100644
--- a/options.go
+++ b/options.go
@@ -39,7 +39,9 @@ type templateOption struct {
 }
 
 func (o templateOption) ApplyEncoderOption(e *Encoder) {
-	o.ApplyTPDUOption(&e.pdu)
+	if err := o.ApplyTPDUOption(&e.pdu); err != nil && e.err == nil {
+		e.err = err
+	}
 }
 
 // WithTemplateOption wraps a TPDU option in a TemplateOption so it can be
-- 
2.43.0


From 6afa5a070e24ec15c0db5209b268d27a3c44ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 28/30] fix: smssubmit: report errors marshalling the TPDU

---
 cmd/smssubmit/smssubmit.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/smssubmit/smssubmit.go b/cmd/smssubmit/smssubmit.go
index 9b56580..6239b21 100644
--- a/cmd/smssubmit/smssubmit.go
+++ b/cmd/smssubmit/smssubmit.go
@@ -39,12 +39,20 @@ func main() {
 		return
 	}
 	if len(pdus) == 1 {
-		b, _ := pdus[0].MarshalBinary()
+		b, err := pdus[0].MarshalBinary()
+		if err != nil {
+			log.Println(err)
+			return
+		}
 		fmt.Printf("Submit TPDU:\n%s\n", hex.EncodeToString(b))
 		return
 	}
 	for i, p := range pdus {
-		b, _ := p.MarshalBinary()
+		b, err := p.MarshalBinary()
+		if err != nil {
+			log.Println(err)
+			return
+		}
 		fmt.Printf("Submit TPDU %d:\n%s\n", i+1, hex.EncodeToString(b))
 	}
 }
-- 
2.43.0


From b31f0d63f1c5927d9ff222dbb53011dd9f7c063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:01 +0000
Subject: [PATCH 29/30] fix: USSD filler only goes into seven unused bits

Pack7BitUSSD took a final octet with seven zero high bits to have seven
unused bits, so a septet whose high bits are zero was overwritten by the
filler, and a message ending in @ was not filled.
Unpack7BitUSSD took any final octet that reads as CR to be filler whether
or not the last septet is aligned to the octet.
---
 encoding/gsm7/7bit.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 986e099..361ef40 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -90,11 +90,14 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 	if len(b) == 0 {
 		return append(b[:0:0], b...)
 	}
-	last := len(b) - 1
-	if b[last]&^0x1 == 0 && u[len(u)-1] != 0 {
-		b[last] = b[last] | (cr << 1)
-	} else if len(u)&0x7 == 0 && u[len(u)-1] == cr {
-		b = append(b, cr)
+	switch (len(u)*7 + fillBits) & 0x7 {
+	case 1:
+		// 7 bits unused in the final octet
+		b[len(b)-1] |= cr << 1
+	case 0:
+		if u[len(u)-1] == cr {
+			b = append(b, cr)
+		}
 	}
 	return b
 }
@@ -110,9 +113,22 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 // if it starts on an octet boundary and the previous character is also CR.
 func Unpack7BitUSSD(p []byte, fillBits int) []byte {
 	u := Unpack7Bit(p, fillBits)
+	if len(p) < 2 {
+		return u
+	}
 	// remove any trailing filler
-	if len(p) > 1 && ((p[len(p)-1]>>1 == cr) || (p[len(p)-1] == cr && p[len(p)-2]>>1 == cr)) {
-		u = u[:len(u)-1]
+	last := len(p) - 1
+	switch (len(p)*8 - fillBits) % 7 {
+	case 0:
+		// last septet ends on an octet boundary
+		if p[last]>>1 == cr {
+			u = u[:len(u)-1]
+		}
+	case 1:
+		// last septet starts on an octet boundary
+		if p[last] == cr && p[last-1]>>1 == cr {
+			u = u[:len(u)-1]
+		}
 	}
 	return u
 }
-- 
2.43.0


From 56f0e09e8bad4f95ba132d3fd74249a80d61a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:52 +0000
Subject: [PATCH 30/30] fix: ucs2: half a pair does not swallow the next
 character

Decode took the unit after any surrogate with it, even if the two are not a
pair, so a character that follows a stray surrogate was lost.
---
 encoding/ucs2/ucs2.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8ecc83c..80bfece 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -9,6 +9,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -31,9 +32,12 @@ func Decode(src []byte) ([]rune, error) {
 			if ri >= len(src)-3 {
 				return dst, ErrDanglingSurrogate(src[ri:])
 			}
-			ri += 2
-			r2 := rune(binary.BigEndian.Uint16(src[ri:]))
+			r2 := rune(binary.BigEndian.Uint16(src[ri+2:]))
 			r = utf16.DecodeRune(r, r2)
+			if r != unicode.ReplacementChar {
+				// the second is only part of this rune if they are a pair
+				ri += 2
+			}
 		}
 		dst = append(dst, r)
 	}
-- 
2.43.0

