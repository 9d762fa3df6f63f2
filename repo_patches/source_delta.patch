From 399e9a42d204e0451ca92962f31cb6c88069692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:17 +0000
Subject: [PATCH 01/27] fix: AMF0 object ends, truncation, nesting depth and
 array encoding

Object and ECMA array end markers were left in the input and decoded as an
extra value (or ended the enclosing object early); values cut off at their
first byte were taken for a clean end; nesting was unbounded; arrays,
pointers and structs were silently encoded as nothing.
---
 libamf/amf0.go | 135 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 82 insertions(+), 53 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index d58787c..7a78f69 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -44,7 +44,7 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	var i interface{}
 	var marker Marker
 	for {
-		marker, i, err = decodeamf0(r)
+		marker, i, err = decodeamf0(r, 0)
 		if err == io.EOF {
 			break
 		}
@@ -70,14 +70,31 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	return res, nil
 }
 
-func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
+// maxDepth bounds the nesting of complex types, so that hostile input cannot
+// exhaust the stack.
+const maxDepth = 256
+
+// decodeamf0 returns io.EOF only if there is no value at all; a value that is
+// cut off is io.ErrUnexpectedEOF.
+func decodeamf0(r easyio.EasyReader, depth int) (marker Marker, i interface{}, err error) {
 	var b []byte
 	b, err = r.ReadN(1)
 	if err != nil {
 		return InvalidMarker, nil, err
 	}
+	if depth > maxDepth {
+		return InvalidMarker, nil, errors.New("amf0 value is nested too deeply")
+	}
 
-	marker = Marker(b[0])
+	marker, i, err = decodeValueamf0(r, Marker(b[0]), depth)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return marker, i, err
+}
+
+func decodeValueamf0(r easyio.EasyReader, m Marker, depth int) (marker Marker, i interface{}, err error) {
+	marker = m
 	switch marker {
 	case NumberMarker:
 		i, err = decodeNumberamf0(r)
@@ -86,7 +103,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case StringMarker:
 		i, err = decodeStringamf0(r)
 	case ObjectMarker: //complex types
-		i, err = decodeObjectamf0(r)
+		i, err = decodeObjectamf0(r, depth)
 	case MovieclipMarker: //not supported, do nothing
 	case NULLMarker:
 		i, err = nil, nil
@@ -94,10 +111,11 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case ReferenceMarker:
 		i, err = decodeReferenceamf0(r)
 	case EcmaArrayMarker: //complex types
-		i, err = decodeEcmaArrayamf0(r)
-	case ObjectEndMarker: //no futher information is encoded, do nothing
+		i, err = decodeEcmaArrayamf0(r, depth)
+	case ObjectEndMarker: //only legal at the end of an object, where readPairamf0 consumes it
+		return InvalidMarker, nil, errors.New("unexpected amf0 object end marker")
 	case StrictArrayMarker:
-		i, err = decodeStrictArrayamf0(r)
+		i, err = decodeStrictArrayamf0(r, depth)
 	case DateMarker:
 		i, err = decodeDateamf0(r)
 	case LongStringMarker:
@@ -109,7 +127,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case TypedObjectMarker: //complex types
 		//XXX: get className, then?
 		var className string
-		className, i, err = decodeTypedObjectamf0(r)
+		className, i, err = decodeTypedObjectamf0(r, depth)
 		i = map[string]interface{}{
 			className: i,
 		}
@@ -154,24 +172,28 @@ func decodeLongStringamf0(r easyio.EasyReader) (str string, err error) {
 	return string(b), err
 }
 
-//TODO: utf-8 support
+// TODO: utf-8 support
 func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
-	b, err = r.ReadN(uint32(length))
+	//length comes from the peer: do not allocate it before the data is there.
+	b, err = io.ReadAll(io.LimitReader(r, int64(length)))
 	if err != nil {
 		return nil, err
 	}
+	if uint32(len(b)) != length {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return b, nil
 }
 
-func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeObjectamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var p *pair
 	res = make(map[string]interface{})
 	for {
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
-		if p.key == "" {
+		if p == nil {
 			break
 		}
 		res[p.key] = p.value
@@ -179,13 +201,13 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 	return res, nil
 }
 
-func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[string]interface{}, err error) {
+func decodeTypedObjectamf0(r easyio.EasyReader, depth int) (className string, res map[string]interface{}, err error) {
 	className, err = decodeStringamf0(r)
 	if err != nil {
 		return className, res, err
 	}
 
-	res, err = decodeObjectamf0(r)
+	res, err = decodeObjectamf0(r, depth)
 	return className, res, err
 }
 
@@ -194,17 +216,31 @@ type pair struct {
 	value interface{}
 }
 
-func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
+// readPairamf0 returns nil after consuming the end of the object, which is an
+// empty key followed by ObjectEndMarker.
+func readPairamf0(r easyio.EasyReader, depth int) (p *pair, err error) {
 	p = &pair{}
 	p.key, err = decodeStringamf0(r)
 	if err != nil {
 		return p, err
 	}
+
 	if p.key == "" {
-		return p, nil
+		var b []byte
+		b, err = r.ReadN(1)
+		if err != nil {
+			return p, err
+		}
+		if Marker(b[0]) == ObjectEndMarker {
+			return nil, nil
+		}
+		if depth >= maxDepth {
+			return p, errors.New("amf0 value is nested too deeply")
+		}
+		_, p.value, err = decodeValueamf0(r, Marker(b[0]), depth+1)
+	} else {
+		_, p.value, err = decodeamf0(r, depth+1)
 	}
-
-	_, p.value, err = decodeamf0(r)
 	if err != nil {
 		return p, err
 	}
@@ -216,30 +252,17 @@ func decodeReferenceamf0(r easyio.EasyReader) (index uint16, err error) {
 	return index, err
 }
 
-func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeEcmaArrayamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
+	//The count is only a hint, many encoders write 0: the array ends like an object.
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
 		return res, err
 	}
-
-	res = make(map[string]interface{})
-	var i uint32
-	var p *pair
-	for i = 0; i <= length; i++ { //length: 00 00 09
-		p, err = readPairamf0(r)
-		if err != nil {
-			return res, err
-		}
-		if p.key == "" {
-			break
-		}
-		res[p.key] = p.value
-	}
-	return res, nil
+	return decodeObjectamf0(r, depth)
 }
 
-func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
+func decodeStrictArrayamf0(r easyio.EasyReader, depth int) (res []interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -249,7 +272,7 @@ func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
 	var i uint32
 	var item interface{}
 	for i = 0; i < length; i++ {
-		_, item, err = decodeamf0(r)
+		_, item, err = decodeamf0(r, depth+1)
 		if err != nil {
 			return res, err
 		}
@@ -271,7 +294,8 @@ func decodeDateamf0(r easyio.EasyReader) (date time.Time, err error) {
 		return time.Unix(0, 0), err
 	}
 
-	return time.Unix(0, int64(timestamp)*1e6), nil
+	ms := int64(timestamp)
+	return time.Unix(ms/1000, ms%1000*1e6), nil
 }
 
 func decodeXMLDocumentamf0(r easyio.EasyReader) (xml []byte, err error) {
@@ -313,7 +337,8 @@ func encodeamf0(w easyio.EasyWriter, obj interface{}, encodeMarker bool) (err er
 		err = encodeBooleanamf0(w, v.Bool(), encodeMarker)
 	case reflect.String:
 		err = encodeStringamf0(w, v.String(), encodeMarker)
-	case reflect.Struct: //TODO: has some problem
+	case reflect.Struct:
+		return errors.New("amf0: cannot encode " + v.Type().String())
 	//TODO: XMLDocumentMarker
 	//TODO: DateMarker
 	//TypedObjectMarker
@@ -332,27 +357,18 @@ func encodeamf0(w easyio.EasyWriter, obj interface{}, encodeMarker bool) (err er
 	case reflect.Map: //ObjectMarker
 		err = encodeObjectamf0(w, v, encodeMarker)
 	case reflect.Ptr, reflect.Interface:
-		err = encodeamf0(w, v.Elem(), encodeMarker)
-		if err != nil {
-			return err
+		if v.IsNil() {
+			return encodeamf0(w, nil, encodeMarker)
 		}
+		err = encodeamf0(w, v.Elem().Interface(), encodeMarker)
 	case reflect.UnsafePointer: //XXX not support yet
 		fallthrough
 	case reflect.Uintptr: //XXX not support yet
 		return errors.New("invalid type")
 	case reflect.Slice, reflect.Array: //StrictArrayMarker, EcmaArrayMarker is not supported
-		// length := v.Len()
-		// binary.Write(w, binary.BigEndian, StrictArrayMarker)
-		// binary.Write(w, binary.BigEndian, uint32(length))
-		// for i := 0; i < length; i++ {
-		// err = encodeamf0(w, v.Index(i))
-		// if err != nil {
-		// return err
-		// }
-		// }
-		// binary.Write(w, binary.BigEndian, ObjectEndMarker)
+		err = encodeStrictArrayamf0(w, v)
 	default:
-		//TODO
+		return errors.New("amf0: cannot encode " + v.Type().String())
 	}
 	return err
 }
@@ -404,6 +420,9 @@ func encodeObjectamf0(w easyio.EasyWriter, obj reflect.Value, encodeMarker bool)
 		if key.Kind() != reflect.String {
 			return errors.New("invalid type")
 		}
+		if key.Len() > 0xffff {
+			return errors.New("amf0: object key is too long")
+		}
 		err = encodeamf0(w, key.String(), false)
 		if err != nil {
 			return err
@@ -418,3 +437,13 @@ func encodeObjectamf0(w easyio.EasyWriter, obj reflect.Value, encodeMarker bool)
 	err3 = binary.Write(w, binary.BigEndian, ObjectEndMarker)
 	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3)
 }
+
+func encodeStrictArrayamf0(w easyio.EasyWriter, array reflect.Value) (err error) {
+	err1 := binary.Write(w, binary.BigEndian, StrictArrayMarker)
+	err2 := binary.Write(w, binary.BigEndian, uint32(array.Len()))
+	err = easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2)
+	for i := 0; i < array.Len() && err == nil; i++ {
+		err = encodeamf0(w, array.Index(i).Interface(), true)
+	}
+	return err
+}
-- 
2.43.0


From 41a7e597dbd1bf29bf59b02a1885213a2317725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 02/27] fix: keep publisher metadata as sent and never drop a
 publisher over its types

Properties of an unexpected AMF type made the parser fail, unknown ones and
fractions were lost, absent ones appeared as zero; script data other than
onMetaData replaced the cached metadata.
---
 libflv/meta.go          | 39 ++++++++++++++++++++++++++++++++++-----
 librtmp/data_message.go |  6 ++++++
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/libflv/meta.go b/libflv/meta.go
index f8c299f..d4d6cdb 100644
--- a/libflv/meta.go
+++ b/libflv/meta.go
@@ -39,6 +39,11 @@ type MetaTag struct {
 	VideoCodecID    float64 `mapstructure:"videocodecid" structs:"videocodecid"`
 	VideoDataRate   float64 `mapstructure:"videodatarate" structs:"videodatarate"`
 	Width           int     `mapstructure:"width" structs:"width"`
+
+	//raw is the script data as received, without the @setDataFrame verb:
+	//name and properties. The fields above hold only what they can; viewers
+	//get what the publisher sent.
+	raw []byte
 }
 
 func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err error) {
@@ -55,7 +60,21 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 	//Canonicalise to always keep the onMetaData string in SecondField
 	//and the properties array in the last slot.
 	var props interface{}
+	meta.raw = b
 	switch {
+	case len(array) >= 2 && array[0] == "@setDataFrame":
+		meta.FirstField = "@setDataFrame"
+		if s, ok := array[1].(string); ok {
+			meta.SecondField = s
+		}
+		if len(array) >= 3 {
+			props = array[2]
+		}
+		verb := 3 + len(meta.FirstField) //marker, 16 bit length
+		if b[0] == byte(libamf.LongStringMarker) {
+			verb += 2
+		}
+		meta.raw = b[verb:]
 	case len(array) >= 3:
 		if s, ok := array[0].(string); ok {
 			meta.FirstField = s
@@ -73,13 +92,19 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 		return meta, errors.New("invalid onMetaData payload")
 	}
 
-	if props != nil {
-		if err = mapstructure.Decode(props, meta); err != nil {
-			fmt.Printf("decode data error, err:%+v\n", err)
-			err = errors.Wrap(err, "mapstructure.Decode data")
+	if m, ok := props.(map[string]interface{}); ok {
+		//Property by property: encoders disagree about the types (numbers
+		//for audiochannels or fps, say), and one that does not fit its
+		//field must not cost us the others, let alone the publisher.
+		first, second := meta.FirstField, meta.SecondField
+		for k, v := range m {
+			if err := mapstructure.Decode(map[string]interface{}{k: v}, meta); err != nil {
+				fmt.Printf("decode data error, err:%+v\n", err)
+			}
 		}
+		meta.TagBase, meta.FirstField, meta.SecondField = tb, first, second
 	}
-	return meta, err
+	return meta, nil
 }
 
 // Marshal serialises the metadata tag body in the form FLV players
@@ -88,6 +113,10 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 // verb, not part of the FLV script-data tag format, so we drop
 // FirstField even when Parse observed one.)
 func (mt *MetaTag) Marshal() (b []byte) {
+	if mt.raw != nil {
+		return mt.raw
+	}
+
 	buf := bytes.NewBuffer([]byte{})
 	writer := easyio.NewEasyWriter(buf)
 	amf := libamf.AMF0
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 9cb28d8..60c2b17 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -67,6 +67,12 @@ func (dm *DataMessage) Do() (err error) {
 	if dm.rtmp.room == nil {
 		return nil
 	}
+	if dm.metaTag.SecondField != "onMetaData" {
+		//Text data, cue points and the like belong to their place in the
+		//stream; they are not the metadata later viewers need.
+		dm.rtmp.room.GOP.Write(dm.metaTag)
+		return nil
+	}
 	dm.rtmp.room.setMeta(dm.metaTag)
 	dm.rtmp.room.GOP.WriteMeta(dm.metaTag)
 	fmt.Printf("write packet data :%+v\n", dm.metaTag)
-- 
2.43.0


From 6f16fbbbaa23f5ddca58741e2582e84f69b602bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 03/27] fix: AVC configuration with several parameter sets,
 Annex-B order, ADTS channels and HE-AAC

PPS took the rest of the record, further sets were ignored and a repeated
header appended to the old one; NAL types other than slices and SEI were
dropped and parameter sets written behind SEI; ADTS lost the high bit of the
channel configuration and wrote a wrong profile for explicit HE-AAC.
---
 libaac/aac.go |  28 +++++++--
 libavc/avc.go | 154 ++++++++++++++++++++++++--------------------------
 2 files changed, 97 insertions(+), 85 deletions(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 5823ceb..5ea83a0 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -8,21 +8,41 @@ var (
 	AACRates = [...]int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
 )
 
+const (
+	sbr = 5 //object types of explicitly signalled HE-AAC
+	ps  = 29
+)
+
 type AACHeader struct {
 	ObjectType uint8
 	SampleRate uint8
 	Channel    uint8
 }
 
-//XXX: copyed from livego
+// XXX: copyed from livego
 func (ah *AACHeader) Parse(data []byte) (err error) {
 	if len(data) < 2 {
 		return fmt.Errorf("invalid data, length:%d", len(data))
 	}
 
-	ah.ObjectType = (data[0] >> 3) & 0xff
+	ah.ObjectType = data[0] >> 3
 	ah.SampleRate = ((data[0] & 0x07) << 1) | data[1]>>7
 	ah.Channel = (data[1] >> 3) & 0x0f
+	if ah.ObjectType == sbr || ah.ObjectType == ps {
+		//Explicitly signalled HE-AAC: what the frames (and ADTS) carry is the
+		//core codec, whose object type follows the extension sample rate.
+		if len(data) < 3 {
+			return fmt.Errorf("invalid data, length:%d", len(data))
+		}
+		if (data[1]&0x07)<<1|data[2]>>7 != 0x0f {
+			ah.ObjectType = data[2] >> 2 & 0x1f
+		} else {
+			if len(data) < 6 {
+				return fmt.Errorf("invalid data, length:%d", len(data))
+			}
+			ah.ObjectType = data[5] >> 2 & 0x1f
+		}
+	}
 	return nil
 }
 
@@ -31,8 +51,8 @@ func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2),
-		((ah.Channel << 2) << 4) | uint8((frameLen<<3)>>14),
+		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | (ah.Channel >> 2 & 0x01),
+		((ah.Channel & 0x03) << 6) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
 		0xfc,
diff --git a/libavc/avc.go b/libavc/avc.go
index 017a5f5..2355eb4 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -64,8 +64,6 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 	if len(src) < 9 {
 		return decDataNil
 	}
-	sps := []byte{}
-	pps := []byte{}
 
 	var seq sequenceHeader
 	seq.configVersion = src[0]
@@ -75,37 +73,51 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 	seq.reserved1 = src[4] & 0xfc
 	seq.naluLen = src[4]&0x03 + 1
 	seq.reserved2 = src[5] >> 5
-
-	//get sps
 	seq.spsNum = src[5] & 0x1f
-	seq.spsLen = int(src[6])<<8 | int(src[7])
 
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
-		return spsDataError
+	//get sps
+	info, rest, err := appendParameterSets(nil, src[6:], int(seq.spsNum), spsDataError)
+	if err != nil {
+		return err
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
 
 	//get pps
-	tmpBuf := src[(8 + seq.spsLen):]
-	if len(tmpBuf) < 4 {
+	if len(rest) < 4 {
 		return ppsHeaderError
 	}
-	seq.ppsNum = tmpBuf[0]
-	seq.ppsLen = int(0)<<16 | int(tmpBuf[1])<<8 | int(tmpBuf[2])
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
-		return ppsDataError
+	seq.ppsNum = rest[0]
+	info, _, err = appendParameterSets(info, rest[1:], int(seq.ppsNum), ppsDataError)
+	if err != nil {
+		return err
 	}
 
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
-
-	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
-	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
-
+	//a later sequence header replaces the earlier one
+	parser.SpecificInfo = info
 	return nil
 }
 
+// appendParameterSets appends num length-prefixed parameter sets of src to dst,
+// each with a start code, and returns what follows them in src.
+func appendParameterSets(dst, src []byte, num int, invalid error) (info, rest []byte, err error) {
+	if num == 0 {
+		return nil, nil, invalid
+	}
+	for ; num > 0; num-- {
+		if len(src) < 2 {
+			return nil, nil, invalid
+		}
+		size := int(src[0])<<8 | int(src[1])
+		src = src[2:]
+		if size == 0 || len(src) < size {
+			return nil, nil, invalid
+		}
+		dst = append(dst, startCode...)
+		dst = append(dst, src[:size]...)
+		src = src[size:]
+	}
+	return dst, src, nil
+}
+
 func (parser *Parser) IsNaluHeader(src []byte) bool {
 	if len(src) < naluBytesLen {
 		return false
@@ -128,76 +140,56 @@ func (parser *Parser) naluSize(src []byte) (int, error) {
 	return size, nil
 }
 
+// GetAnnexbH264 converts one access unit. The NAL units keep their order; an
+// access unit with an IDR picture but without a parameter set of its own gets the
+// ones of the sequence header. Nothing is written if src is malformed.
 func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
-	dataSize := len(src)
-	if dataSize < naluBytesLen {
+	if len(src) < naluBytesLen {
 		return videoDataInvalid
 	}
-	parser.Pps.Reset()
-	_, err := w.Write(naluAud)
-	if err != nil {
-		return err
-	}
-
-	index := 0
-	nalLen := 0
-	hasSpsPps := false
-	hasWriteSpsPps := false
 
-	for dataSize > 0 {
-		nalLen, err = parser.naluSize(src[index:])
+	hasIdr := false
+	hasSps := false
+	for index := 0; index < len(src); {
+		nalLen, err := parser.naluSize(src[index:])
 		if err != nil {
 			return dataSizeNotMatch
 		}
 		index += naluBytesLen
-		dataSize -= naluBytesLen
-		if dataSize >= nalLen && len(src[index:]) >= nalLen && nalLen > 0 {
-			nalType := src[index] & 0x1f
-			switch nalType {
-			case nalu_type_aud:
-			case nalu_type_idr:
-				if !hasWriteSpsPps {
-					hasWriteSpsPps = true
-					if !hasSpsPps {
-						if _, err := w.Write(parser.SpecificInfo); err != nil {
-							return err
-						}
-					} else {
-						if _, err := w.Write(parser.Pps.Bytes()); err != nil {
-							return err
-						}
-					}
-				}
-				fallthrough
-			case nalu_type_slice:
-				fallthrough
-			case nalu_type_sei:
-				_, err := w.Write(startCode)
-				if err != nil {
-					return err
-				}
-				_, err = w.Write(src[index : index+nalLen])
-				if err != nil {
-					return err
-				}
-			case nalu_type_sps:
-				fallthrough
-			case nalu_type_pps:
-				hasSpsPps = true
-				_, err := parser.Pps.Write(startCode)
-				if err != nil {
-					return err
-				}
-				_, err = parser.Pps.Write(src[index : index+nalLen])
-				if err != nil {
-					return err
-				}
-			}
-			index += nalLen
-			dataSize -= nalLen
-		} else {
+		if nalLen <= 0 || nalLen > len(src)-index {
 			return naluBodyLenError
 		}
+		switch src[index] & 0x1f {
+		case nalu_type_idr:
+			hasIdr = true
+		case nalu_type_sps:
+			hasSps = true
+		}
+		index += nalLen
+	}
+
+	if _, err := w.Write(naluAud); err != nil {
+		return err
+	}
+	if hasIdr && !hasSps {
+		if _, err := w.Write(parser.SpecificInfo); err != nil {
+			return err
+		}
+	}
+	for index := 0; index < len(src); {
+		nalLen, _ := parser.naluSize(src[index:])
+		index += naluBytesLen
+		nal := src[index : index+nalLen]
+		index += nalLen
+		if nal[0]&0x1f == nalu_type_aud {
+			continue
+		}
+		if _, err := w.Write(startCode); err != nil {
+			return err
+		}
+		if _, err := w.Write(nal); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From e65610cbb64cb1f9b097e780c23070d2a2194af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 04/27] fix: TS muxer stuffing and PCR, section lengths, and
 parsing of conforming TS

A PES whose last packet needed a one-byte adaptation field was rejected, the
first packet of a short keyframe was padded behind the data, the PCR lost its
lowest bit, and adaptation field stuffing, PES header stuffing, pointer fields
of PES packets and section lengths above 255 were misread.
---
 libmpeg/pes.go |   9 +++++
 libmpeg/psi.go |  30 ++++++++++-----
 libmpeg/ts.go  | 100 +++++++++++++++++++++++++++++++++++--------------
 3 files changed, 102 insertions(+), 37 deletions(-)

diff --git a/libmpeg/pes.go b/libmpeg/pes.go
index 5558023..f8f686f 100644
--- a/libmpeg/pes.go
+++ b/libmpeg/pes.go
@@ -1,6 +1,7 @@
 package libmpeg
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/SmartBrave/Athena/easyerrors"
@@ -81,6 +82,13 @@ func (pes *PES) Parse(reader easyio.EasyReader) (err error) {
 		pes.PESCRCFlag = (b[1] & 0x02) >> 1
 		pes.PESExtensionFlag = b[1] & 0x01
 		pes.PESHeaderDataLength = b[2]
+		//the optional fields and the stuffing behind them
+		b, err = reader.ReadN(uint32(pes.PESHeaderDataLength))
+		if err != nil {
+			return err
+		}
+		reader = easyio.NewEasyReader(bytes.NewReader(b))
+		pes.PTS, pes.DTS = 0, 0
 		switch pes.PTS_DTSFlag {
 		case 0x02:
 			b, err = reader.ReadN(5)
@@ -229,6 +237,7 @@ func (pes *PES) Marshal(writer easyio.EasyWriter, writable int) (writed int, fin
 			pes.HeaderIndex = len(pes.HeaderData)
 		} else {
 			err1 = writer.WriteFull(pes.HeaderData[pes.HeaderIndex : pes.HeaderIndex+(writable-writed)])
+			pes.HeaderIndex += writable - writed
 			writed += (writable - writed)
 			finish = false
 			return
diff --git a/libmpeg/psi.go b/libmpeg/psi.go
index 59dd730..2c00718 100644
--- a/libmpeg/psi.go
+++ b/libmpeg/psi.go
@@ -65,6 +65,10 @@ func (pat *PAT) Parse(reader easyio.EasyReader) (err error) {
 		return fmt.Errorf("invalid SectionLength of PAT, SectionLength:%d", pat.SectionLength)
 	}
 
+	if pat.SectionLength < 5+4 {
+		return fmt.Errorf("invalid SectionLength of PAT, SectionLength:%d", pat.SectionLength)
+	}
+
 	b2 := make([]byte, pat.SectionLength-5-4) //4:CRC_32
 	err = reader.ReadFull(b2)
 	if err != nil {
@@ -96,19 +100,20 @@ func (pat *PAT) Parse(reader easyio.EasyReader) (err error) {
 }
 
 func (pat *PAT) Marshal(writer easyio.EasyWriter, writable int) (n int, finish bool, err error) {
+	pat.SectionLength = uint16(pat.Remain() - 3)
 	b := []byte{
 		pat.TableID,
 		((pat.SectionSyntaxIndicator << 7) & 0x80) | 0x30 | uint8((pat.SectionLength>>8)&0x0f),
 		uint8(pat.SectionLength & 0xff),
 		uint8((pat.TransportStreamID >> 8) & 0xff),
 		uint8(pat.TransportStreamID & 0xff),
-		0xc0 | ((pat.VersionNumber << 1) & 0x37) | (pat.CurrentNextIndicator & 0x01),
+		0xc0 | ((pat.VersionNumber << 1) & 0x3e) | (pat.CurrentNextIndicator & 0x01),
 		pat.SectionNumber,
 		pat.LastSectionNumber,
 	}
 	for pmtPID, pmt := range pat.PMTs {
 		b = append(b, uint8(pmt.ProgramNumber>>8)&0xff, uint8(pmt.ProgramNumber&0xff))
-		b = append(b, 0xe0|uint8((pmtPID>>8)&0xff), uint8(pmtPID&0xff))
+		b = append(b, 0xe0|uint8((pmtPID>>8)&0x1f), uint8(pmtPID&0xff))
 	}
 
 	// crc:=pat.CRC32
@@ -166,14 +171,14 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 
 	pmt.TableID = b1[0]
 	pmt.SectionSyntaxIndicator = (b1[1] & 0x80) >> 7
-	pmt.SectionLength = uint16((b1[1]&0x0f)<<8) + uint16(b1[2])
+	pmt.SectionLength = uint16(b1[1]&0x0f)<<8 + uint16(b1[2])
 	pmt.ProgramNumber = uint16(b1[3])<<8 + uint16(b1[4])
 	pmt.VersionNumber = (b1[5] & 0x3e) >> 1
 	pmt.CurrentNextIndicator = b1[5] & 0x01
 	pmt.SectionNumber = b1[6]
 	pmt.LastSectionNumber = b1[7]
 	pmt.PCR_PID = uint16(b1[8]&0x1f)<<8 + uint16(b1[9])
-	pmt.ProgramInfoLength = uint16((b1[10]&0x0f)<<8 + b1[11])
+	pmt.ProgramInfoLength = uint16(b1[10]&0x0f)<<8 + uint16(b1[11])
 
 	if pmt.TableID != 0x02 {
 		return fmt.Errorf("invalid TableID of PMT, TableID:%d", pmt.TableID)
@@ -194,6 +199,10 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 		return fmt.Errorf("invalid ProgramInfoLength of PMT, ProgramInfoLength:%d", pmt.ProgramInfoLength)
 	}
 
+	if pmt.SectionLength < 9+pmt.ProgramInfoLength+4 {
+		return fmt.Errorf("invalid SectionLength of PMT, SectionLength:%d", pmt.SectionLength)
+	}
+
 	b2 := make([]byte, pmt.ProgramInfoLength)
 	err = reader.ReadFull(b2)
 	if err != nil {
@@ -207,14 +216,15 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 	}
 	for i := 0; i+5 <= len(b3); i += 5 {
 		streamPID := uint16(b3[i+1]&0x1f)<<8 + uint16(b3[i+2])
+		esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])
+		if (esInfoLength>>10)&0x03 != 0x00 {
+			return fmt.Errorf("invalid ESInfoLength of PMT, ESInfoLength:%d", esInfoLength)
+		}
 		if _, ok := pmt.Streams[streamPID]; !ok {
-			esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])
-			if (esInfoLength>>10)&0x03 != 0x00 {
-				return fmt.Errorf("invalid ESInfoLength of PMT, ESInfoLength:%d", esInfoLength)
-			}
-			i += int(esInfoLength)
 			pmt.Streams[streamPID] = NewPES()
 		}
+		pmt.Streams[streamPID].StreamType = b3[i]
+		i += int(esInfoLength)
 	}
 
 	pmt.CRC32 = CRC32(append(append(b1, b2...), b3...))
@@ -232,6 +242,8 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 }
 
 func (pmt *PMT) Marshal(writer easyio.EasyWriter, writable int) (n int, finish bool, err error) {
+	pmt.SectionLength = uint16(pmt.Remain() - 3)
+	pmt.ProgramInfoLength = 0 //no descriptors are written
 	b := []byte{
 		pmt.TableID,
 		((pmt.SectionSyntaxIndicator << 7) & 0x80) | 0x30 | (uint8(pmt.SectionLength>>8) & 0x0f),
diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 82a3ce3..9b92bf7 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -1,6 +1,7 @@
 package libmpeg
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 
@@ -66,11 +67,24 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 		return nil
 	}
 
-	b, err = reader.ReadN(1)
+	//read the whole field first: whatever the flags do not account for is
+	//stuffing and has to be taken off as well.
+	body, err := reader.ReadN(uint32(af.AdaptationFieldLength))
 	if err != nil {
 		return INVALID_DATA_ERROR
 	}
+	short := false
+	next := func(n int) []byte {
+		if n > len(body) {
+			short = true
+			return make([]byte, n)
+		}
+		b := body[:n:n]
+		body = body[n:]
+		return b
+	}
 
+	b = next(1)
 	af.DiscontinuityIndicator = (b[0] & 0x80) >> 7
 	af.RandomAccessIndicator = (b[0] & 0x40) >> 6
 	af.ElementaryStreamPriority = (b[0] & 0x20) >> 5
@@ -80,54 +94,57 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 	af.TransportPrivateDataFlag = (b[0] & 0x02) >> 1
 	af.AdaptationFieldExtensionFlag = b[0] & 0x01
 
-	var err1, err2, err3, err4, err5, err6, err7, err8 error
 	if af.PCRFlag == 1 {
-		b, err1 = reader.ReadN(6)
+		b = next(6)
 		af.ProgramClockReferenceBase = (uint64(b[0]) << 25) | (uint64(b[1]) << 17) | (uint64(b[2]) << 9) | (uint64(b[3]) << 1) | (uint64(b[4]&0x80) >> 7)
 		af.ProgramClockReferenceExtension = (uint16(b[4]&0x01) << 8) | (uint16(b[5]))
 	}
 	if af.OPCRFlag == 1 {
-		b, err2 = reader.ReadN(6)
+		b = next(6)
 		af.OriginalProgramClockReferenceBase = (uint64(b[0]) << 25) | (uint64(b[1]) << 17) | (uint64(b[2]) << 9) | (uint64(b[3]) << 1) | (uint64(b[4]&0x80) >> 7)
 		af.OriginalProgramClockReferenceExtension = (uint16(b[4]&0x01) << 8) | (uint16(b[5]))
 	}
 	if af.SplicingPointFlag == 1 {
-		b, err3 = reader.ReadN(1)
+		b = next(1)
 		af.SpliceCountdown = int8(b[0])
 	}
 	if af.TransportPrivateDataFlag == 1 {
-		b, err4 = reader.ReadN(1)
+		b = next(1)
 		af.TransportPrivateDataLength = b[0]
-		af.TransportPrivateData, err5 = reader.ReadN(uint32(af.TransportPrivateDataLength))
+		af.TransportPrivateData = next(int(af.TransportPrivateDataLength))
 	}
 	if af.AdaptationFieldExtensionFlag == 1 {
-		b, err5 = reader.ReadN(2)
+		b = next(2)
 		af.AdaptationFieldExtensionLength = b[0]
 		af.LTWFlag = (b[1] & 0x80) >> 7
 		af.PiecewiseRateFlag = (b[1] & 0x40) >> 6
 		af.SeamlessSpliceFlag = (b[1] & 0x20) >> 5
 
 		if af.LTWFlag == 1 {
-			b, err6 = reader.ReadN(2)
+			b = next(2)
 			af.LTWValidFlag = (b[0] & 0x80) >> 7
 			af.LTWOffset = uint16(b[0]&0x7f)<<8 + uint16(b[1])
 		}
 		if af.PiecewiseRateFlag == 1 {
-			b, err7 = reader.ReadN(3)
-			af.PiecewiseRate = uint32(b[0]&0xc0)<<16 + uint32(b[1])<<8 + uint32(b[2])
+			b = next(3)
+			af.PiecewiseRate = uint32(b[0]&0x3f)<<16 + uint32(b[1])<<8 + uint32(b[2])
 		}
 		if af.SeamlessSpliceFlag == 1 {
-			b, err8 = reader.ReadN(5)
+			b = next(5)
 			af.SpliceType = (b[0] & 0xf0) >> 4
-			af.DTSNextAccessUnit = uint64(b[0]&0x0f)<<32 + uint64(b[1])<<24 + uint64(b[2])<<16 + uint64(b[3])<<8 + uint64(b[4])
+			af.DTSNextAccessUnit = uint64(b[0]&0x0e)<<29 | uint64(b[1])<<22 | uint64(b[2]&0xfe)<<14 | uint64(b[3])<<7 | uint64(b[4])>>1
 		}
 	}
-	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3, err4, err5, err6, err7, err8)
+	if short {
+		return INVALID_DATA_ERROR
+	}
+	return nil
 }
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
 	if af.AdaptationFieldLength < 1 {
-		return 0, fmt.Errorf("invalid1 AdaptationFieldLength:%d", af.AdaptationFieldLength)
+		//a single byte of stuffing: the length byte alone.
+		return 1, writer.WriteFull([]byte{0x00})
 	}
 
 	b := make([]byte, 0, af.AdaptationFieldLength+1)
@@ -138,7 +155,7 @@ func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error
 		if af.AdaptationFieldLength < 7 {
 			return 0, fmt.Errorf("invalid2 AdaptationFieldLength:%d", af.AdaptationFieldLength)
 		}
-		b = append(b, uint8(af.ProgramClockReferenceBase>>25), uint8(af.ProgramClockReferenceBase>>17), uint8(af.ProgramClockReferenceBase>>9), uint8(af.ProgramClockReferenceBase>>1), ((uint8(af.ProgramClockReferenceBase) & 0x01 << 7) | 0x7e), uint8(af.ProgramClockReferenceExtension) /*|(uint8(af.ProgramClockReferenceExtension)&0x01)*/)
+		b = append(b, uint8(af.ProgramClockReferenceBase>>25), uint8(af.ProgramClockReferenceBase>>17), uint8(af.ProgramClockReferenceBase>>9), uint8(af.ProgramClockReferenceBase>>1), ((uint8(af.ProgramClockReferenceBase) & 0x01) << 7)|0x7e|(uint8(af.ProgramClockReferenceExtension>>8)&0x01), uint8(af.ProgramClockReferenceExtension))
 	}
 
 	var err1, err2 error
@@ -207,10 +224,11 @@ func NewTs(pid uint16, cc map[uint16]uint8, firstTs bool) (ts *TS) {
 }
 
 func (ts *TS) DeMux(pidTable map[uint16]PSI, reader easyio.EasyReader) (err error) {
-	b, err := reader.ReadN(4)
+	b, err := reader.ReadN(188)
 	if err != nil {
 		return err
 	}
+	reader = easyio.NewEasyReader(bytes.NewReader(b[4:]))
 
 	if b[0] != 0x47 {
 		return INVALID_DATA_ERROR
@@ -227,21 +245,45 @@ func (ts *TS) DeMux(pidTable map[uint16]PSI, reader easyio.EasyReader) (err erro
 
 	if ts.AdaptationFieldExist == 0x02 || ts.AdaptationFieldExist == 0x03 {
 		ts.AdaptationField = NewAdaptationField()
-		ts.AdaptationField.Parse(reader)
-	}
-
-	if ts.PayloadUnitStartIndicator == 0x01 {
-		b, err1 := reader.ReadN(1)
-		b, err2 := reader.ReadN(uint32(b[0]))
-		if err := easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2); err != nil {
-			return INVALID_DATA_ERROR
+		if err = ts.AdaptationField.Parse(reader); err != nil {
+			return err
 		}
 	}
+	if ts.AdaptationFieldExist&0x01 == 0 { //no payload
+		return nil
+	}
 
 	psi, exist := pidTable[ts.PID]
 	if !exist {
 		return fmt.Errorf("invalid pid:%d", ts.PID)
 	}
+
+	if pes, ok := psi.(*PES); ok {
+		if ts.PayloadUnitStartIndicator == 0x01 {
+			pes.Data = nil
+			if err = pes.Parse(reader); err != nil {
+				return err
+			}
+		}
+		data, err := reader.ReadAll()
+		if err != nil {
+			return err
+		}
+		pes.Data = append(pes.Data, data...)
+		return nil
+	}
+
+	//only PSI sections are preceded by a pointer_field
+	if ts.PayloadUnitStartIndicator == 0x01 {
+		b, err = reader.ReadN(1)
+		if err != nil {
+			return INVALID_DATA_ERROR
+		}
+		ts.PayloadPointer = b[0]
+		if _, err = reader.ReadN(uint32(b[0])); err != nil {
+			return INVALID_DATA_ERROR
+		}
+	}
 	return psi.Parse(reader)
 }
 
@@ -260,7 +302,8 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 		}
 	}
 
-	if ts.PID == AUDIO_PID || ts.PID == VIDEO_PID {
+	_, isPES := psi.(*PES)
+	if isPES {
 		var headerSize uint8 = 4 //ts header
 		if firstTSofKeyFrame {
 			headerSize += 8 //adaptation length
@@ -268,9 +311,10 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 			ts.AdaptationField = &AdaptationField{}
 		}
 
+		//a PES may only be padded in the adaptation field, never behind its data
 		if remain := psi.Remain(); remain < int(writable-headerSize) {
 			ts.AdaptationFieldExist |= 0x02
-			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable-headerSize) - remain - 1)
+			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable) - 4 - remain - 1)
 		}
 	}
 
@@ -292,7 +336,7 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 
 	//XXX: better?
 	//XXX: pointer is added in psi only? why pes not?
-	if (ts.PID == PAT_PID || ts.PID == PMT_PID) && ts.PayloadUnitStartIndicator == 0x01 {
+	if !isPES && ts.PayloadUnitStartIndicator == 0x01 {
 		writer.Write([]byte{ts.PayloadPointer})
 		writable -= 1
 	}
-- 
2.43.0


From 7cd1e80105e61548b4adc3c9e2617b2eebd1d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 05/27] fix: HLS times, audio grouping, durations, parts and
 shutdown

32-bit timestamp arithmetic, unsigned composition offsets, lost trailing audio,
audio gaps hidden inside one PES, HEVC keyframes without parameter sets, parts
with underflowing durations, blocking reload of finished segments and files
left behind by a racing Stop.
---
 libhls/align.go       |   7 +-
 libhls/audio_cache.go |   2 +-
 libhls/hls.go         | 348 ++++++++++++++++++++++++++++++------------
 3 files changed, 254 insertions(+), 103 deletions(-)

diff --git a/libhls/align.go b/libhls/align.go
index 898459a..10ea041 100755
--- a/libhls/align.go
+++ b/libhls/align.go
@@ -9,7 +9,9 @@ type align struct {
 	frameBase uint64
 }
 
-func (a *align) align(dts *uint64, inc uint32) {
+// align smooths *dts to a steady frame rate and reports whether it follows
+// the frame before without a jump.
+func (a *align) align(dts *uint64, inc uint32) bool {
 	aFrameDts := *dts
 	estPts := a.frameBase + a.frameNum*uint64(inc)
 	var dPts uint64
@@ -22,8 +24,9 @@ func (a *align) align(dts *uint64, inc uint32) {
 	if dPts <= uint64(syncms)*90 {
 		a.frameNum++
 		*dts = estPts
-		return
+		return true
 	}
 	a.frameNum = 1
 	a.frameBase = aFrameDts
+	return false
 }
diff --git a/libhls/audio_cache.go b/libhls/audio_cache.go
index 683a290..08b86bd 100755
--- a/libhls/audio_cache.go
+++ b/libhls/audio_cache.go
@@ -36,7 +36,7 @@ func (a *audioCache) Cache(src []byte, pts uint64) bool {
 
 func (a *audioCache) GetFrame() (int, uint64, []byte) {
 	a.num = 0
-	return a.offset, a.pts, a.buf.Bytes()
+	return a.offset, a.pts, append([]byte(nil), a.buf.Bytes()...)
 }
 
 func (a *audioCache) CacheNum() byte {
diff --git a/libhls/hls.go b/libhls/hls.go
index 74ec4ae..1c0ce3c 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -10,7 +10,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libaac"
@@ -83,6 +82,12 @@ type HLS struct {
 	partStartOffset int64
 	currentBytes    int64 //running offset into currentFile
 	lastPSI         time.Time
+	clock           int64  //publisher time in ms, 32-bit wraps taken out
+	clockSet        bool   //false before the first tag
+	lastVideoDTS    uint64 //DTS of the previous video frame
+	frameInterval   uint64 //distance of the last two video frames
+	partIndependent bool   //the open part starts with a keyframe
+	hevcSets        []byte //AnnexB VPS/SPS/PPS of the latest HEVC sequence header
 
 	// Shared state — protected by mu / cond. mu is a plain Mutex so it
 	// can satisfy sync.Cond's Locker contract (RWMutex would funnel
@@ -93,6 +98,7 @@ type HLS struct {
 	nextSeq        int
 	currentParts   []partInfo //LL-HLS: parts of the in-progress segment
 	currentSegName string     //basename of in-progress segment, "" if none
+	ended          bool       //nothing will be added to the playlist any more
 
 	// coordination
 	ready     chan struct{}
@@ -125,6 +131,8 @@ func NewHls() *HLS {
 		audioCache: newAudioCache(),
 		align:      &align{},
 		ready:      make(chan struct{}),
+
+		frameInterval: 90000 / 25, //until two frames have been seen
 	}
 	h.cond = sync.NewCond(&h.mu)
 	return h
@@ -195,37 +203,17 @@ func (hls *HLS) Playlist() []byte {
 func (hls *HLS) WaitForPlaylist(wantMSN int, wantPart int, timeout time.Duration) []byte {
 	deadline := time.Now().Add(timeout)
 	hls.mu.Lock()
-	for {
-		if !hls.llEnabled || wantMSN < 0 {
-			break
-		}
-		latestMSN := hls.nextSeq - 1
-		latestPart := -1
-		if hls.currentSegName != "" {
-			latestMSN = hls.nextSeq
-			latestPart = len(hls.currentParts) - 1
-		}
-		if wantMSN < latestMSN || (wantMSN == latestMSN && wantPart <= latestPart) {
-			break
-		}
-		now := time.Now()
-		if !now.Before(deadline) {
-			break
-		}
-		//Cond.Wait releases mu while parked; broadcasts come from the
-		//writer goroutine after each part is recorded.
-		waitCh := make(chan struct{})
-		go func(d time.Duration) {
-			time.Sleep(d)
+	if hls.llEnabled && wantMSN >= 0 && !hls.available(wantMSN, wantPart) {
+		timer := time.AfterFunc(timeout, func() {
 			hls.mu.Lock()
 			hls.cond.Broadcast()
 			hls.mu.Unlock()
-			close(waitCh)
-		}(deadline.Sub(now))
-		hls.cond.Wait()
-		select {
-		case <-waitCh:
-		default:
+		})
+		defer timer.Stop()
+		for !hls.ended && time.Now().Before(deadline) && !hls.available(wantMSN, wantPart) {
+			//Cond.Wait releases mu while parked; broadcasts come from the
+			//writer goroutine after each part is recorded.
+			hls.cond.Wait()
 		}
 	}
 	if len(hls.segments) == 0 && !hls.llEnabled {
@@ -248,6 +236,20 @@ func (hls *HLS) WaitForPlaylist(wantMSN int, wantPart int, timeout time.Duration
 	return out
 }
 
+// available reports whether the playlist already holds the given part, or
+// a later one. A negative part asks for the whole segment. Needs mu.
+func (hls *HLS) available(msn, part int) bool {
+	if msn == hls.nextSeq-1 && len(hls.segments) > 0 && part >= len(hls.segments[len(hls.segments)-1].parts) {
+		//beyond the last part of the newest segment: the first part of
+		//the following one, RFC 8216bis 6.2.5.2
+		msn, part = hls.nextSeq, 0
+	}
+	if msn < hls.nextSeq {
+		return true
+	}
+	return msn == hls.nextSeq && part >= 0 && part < len(hls.currentParts)
+}
+
 // currentSegmentName is unused; kept for backward compatibility.
 func currentSegmentName(_ *HLS) string { return "" }
 
@@ -259,35 +261,47 @@ func (hls *HLS) WaitFirstSegment() {
 }
 
 // Stop requests graceful shutdown of the transcoder and removes any
-// lingering segment files on disk. Idempotent.
+// lingering segment files on disk; Start removes the one it is writing when
+// it returns. Idempotent.
 func (hls *HLS) Stop() {
 	if !atomic.CompareAndSwapInt32(&hls.stopped, 0, 1) {
 		return
 	}
-	if hls.currentFile != nil {
-		_ = hls.currentFile.Close()
-		hls.currentFile = nil
-	}
 	hls.mu.Lock()
-	hls.currentSegName = ""
-	segs := append([]segmentInfo(nil), hls.segments...)
-	hls.segments = nil
+	hls.ended = true
 	hls.cond.Broadcast()
 	hls.mu.Unlock()
-	for _, s := range segs {
-		_ = os.Remove(filepath.Join(hls.dir, s.filename))
-	}
+	hls.removeSegments()
 	//Unblock anyone waiting on WaitFirstSegment if we never produced
 	//one.
 	hls.readyOnce.Do(func() { close(hls.ready) })
 }
 
+func (hls *HLS) removeSegments() {
+	hls.mu.Lock()
+	segs := hls.segments
+	hls.segments = nil
+	hls.mu.Unlock()
+	for _, s := range segs {
+		_ = os.Remove(filepath.Join(hls.dir, s.filename))
+	}
+}
+
 func (hls *HLS) stopRequested() bool {
 	return atomic.LoadInt32(&hls.stopped) != 0
 }
 
+// GOPReader delivers the publisher's tags in order; alive turns false when
+// the publisher has gone and everything has been read.
+type GOPReader interface {
+	Read() (p interface{}, alive bool)
+}
+
 //start to generate ts segments.
-func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
+func (hls *HLS) Start(gopReader GOPReader) (err error) {
+	if hls.stopRequested() {
+		return nil
+	}
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
@@ -301,11 +315,20 @@ func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
 	defer func() {
 		//On graceful exit (publisher gone or Stop called) finalise the
 		//current segment so players don't lose the last few seconds.
+		if pes := hls.flushAudio(); pes != nil && hls.currentFile != nil {
+			_ = hls.mux(pes, libmpeg.AUDIO_PID, false)
+		}
 		hls.finaliseCurrent()
+		hls.mu.Lock()
+		hls.ended = true
+		hls.cond.Broadcast()
+		hls.mu.Unlock()
+		if hls.stopRequested() {
+			hls.removeSegments()
+		}
 		hls.readyOnce.Do(func() { close(hls.ready) })
 	}()
 
-outer:
 	for {
 		if hls.stopRequested() {
 			return nil
@@ -335,7 +358,10 @@ outer:
 					return err
 				}
 			} else {
-				curDur := float64(pes.DTS-hls.currentStartDTS) / 90000.0
+				curDur := float64(int64(pes.DTS-hls.currentStartDTS)) / 90000.0
+				if curDur < 0 { //the publisher restarted its clock
+					curDur = float64(hls.targetDur) / float64(time.Second)
+				}
 				if curDur*float64(time.Second) >= float64(hls.targetDur) {
 					if err := hls.rotate(pes.DTS); err != nil {
 						return err
@@ -349,6 +375,25 @@ outer:
 			continue
 		}
 
+		if pid == libmpeg.VIDEO_PID {
+			if d := int64(pes.DTS - hls.lastVideoDTS); d > 0 {
+				hls.frameInterval = uint64(d)
+			}
+			hls.lastVideoDTS = pes.DTS
+		}
+
+		//LL-HLS partial-segment boundary check. Parts begin at video
+		//frames: at every keyframe, so that it is independent, and where
+		//one more frame would take the part beyond PART-TARGET.
+		if hls.llEnabled && pid == libmpeg.VIDEO_PID && hls.currentBytes > hls.partStartOffset {
+			partDur := int64(pes.DTS - hls.partStartDTS)
+			interval := int64(hls.frameInterval)
+			limit := int64(hls.partTargetDur.Seconds() * 90000)
+			if videoFrameKey || partDur+interval+interval/8 > limit {
+				hls.closeCurrentPart(pes.DTS, videoFrameKey)
+			}
+		}
+
 		//PAT/PMT periodicity: re-inject every psiInterval so clients
 		//that join decoding mid-segment find a PSI quickly.
 		if time.Since(hls.lastPSI) >= psiInterval {
@@ -357,38 +402,62 @@ outer:
 			}
 		}
 
-		firstTS := true
-		for {
-			finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
-			if muxErr != nil {
-				fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
-				continue outer
-			}
-			firstTS = false
-			if finish {
-				break
-			}
+		if muxErr := hls.mux(pes, pid, videoFrameKey); muxErr != nil {
+			fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
+			continue
 		}
-		if pes.DTS > hls.currentEndDTS {
+		if int64(pes.DTS-hls.currentEndDTS) > 0 {
 			hls.currentEndDTS = pes.DTS
 		}
+	}
+}
 
-		//LL-HLS partial-segment boundary check. Close the current part
-		//once it has accumulated at least PART-TARGET seconds of media
-		//or whenever a fresh keyframe arrived (so subsequent parts
-		//align with sub-GOP boundaries when the encoder emits short
-		//GOPs). Performed AFTER muxing so the just-written PES belongs
-		//to the part we're closing — the next part starts at the
-		//current write offset.
-		if hls.llEnabled && hls.currentFile != nil {
-			partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
-			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
-				hls.closeCurrentPart(pes.DTS, false)
-			}
+// mux writes one PES as TS packets to the current segment.
+func (hls *HLS) mux(pes *libmpeg.PES, pid uint16, videoKey bool) error {
+	firstTS := true
+	for {
+		finish, err := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoKey && firstTS, pes.DTS, hls.currentWriter)
+		if err != nil {
+			return err
+		}
+		firstTS = false
+		if finish {
+			return nil
 		}
 	}
 }
 
+// ticks converts a tag's timestamp to 90 kHz, following the 32-bit
+// millisecond clock across its wrap.
+func (hls *HLS) ticks(timestamp uint32) uint64 {
+	if !hls.clockSet {
+		hls.clock, hls.clockSet = int64(timestamp), true
+	}
+	hls.clock += int64(int32(timestamp - uint32(hls.clock)))
+	return uint64(hls.clock) * 90
+}
+
+// compositionTicks is the signed 24-bit composition offset at 90 kHz.
+func compositionTicks(cts uint32) uint64 {
+	return uint64(int64(int32(cts<<8)>>8) * 90)
+}
+
+// flushAudio returns the audio frames that are still cached as one PES,
+// nil if there are none.
+func (hls *HLS) flushAudio() *libmpeg.PES {
+	if hls.audioCache.CacheNum() == 0 {
+		return nil
+	}
+	pes := hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
+	pes.PTS_DTSFlag = 0x02
+	pes.PESHeaderDataLength = 0x05
+	pes.Index = 0
+	pes.HeaderIndex = 0
+	_, pes.PTS, pes.Data = hls.audioCache.GetFrame()
+	pes.DTS = pes.PTS
+	return pes
+}
+
 // toPES lifts an FLV tag into a libmpeg.PES plus routing metadata. It
 // returns skip=true when the tag should be dropped (unsupported codec,
 // sequence header, or audio still buffering in the ADTS cache).
@@ -404,31 +473,24 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				}
 				return nil, 0, false, true
 			}
-			pid = libmpeg.AUDIO_PID
-			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
-			pes.PTS_DTSFlag = 0x02
-			pes.PESHeaderDataLength = 0x05
-			pes.Index = 0
-			pes.HeaderIndex = 0
-
-			aacHeader := hls.Ah.Adts(pa.Data())
-			pes.Data = append(aacHeader, pa.Data()...)
-
+			if hls.Ah.ObjectType == 0 || len(pa.Data()) == 0 {
+				return nil, 0, false, true //no configuration yet
+			}
+			dts := hls.ticks(tag.GetTagInfo().TimeStamp)
 			rate := 44100
 			if hls.Ah.SampleRate <= uint8(len(libaac.AACRates)-1) {
 				rate = libaac.AACRates[hls.Ah.SampleRate]
 			}
-			hls.align.align(&pes.DTS, uint32(90000*1024/rate))
-			pes.PTS = pes.DTS
-
-			hls.audioCache.Cache(pes.Data, pes.PTS)
-			if hls.audioCache.CacheNum() < cache_max_frames {
-				return nil, 0, false, true
+			//The frames of a PES follow each other without a gap, so the
+			//cached ones go out first when the clock jumps.
+			if !hls.align.align(&dts, uint32(90000*1024/rate)) {
+				pes = hls.flushAudio()
 			}
-			_, pes.PTS, pes.Data = hls.audioCache.GetFrame()
-			pes.DTS = pes.PTS
-			return pes, pid, false, false
+			hls.audioCache.Cache(append(hls.Ah.Adts(pa.Data()), pa.Data()...), dts)
+			if pes == nil && hls.audioCache.CacheNum() >= cache_max_frames {
+				pes = hls.flushAudio()
+			}
+			return pes, libmpeg.AUDIO_PID, false, pes == nil
 		default:
 			return nil, 0, false, true
 		}
@@ -443,12 +505,15 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				}
 				return nil, 0, false, true
 			}
+			if pv.AVCPacketType != libflv.AVC_NALU {
+				return nil, 0, false, true
+			}
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
 			pes.StreamType = 0x1B
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = hls.ticks(tag.GetTagInfo().TimeStamp)
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -472,7 +537,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + compositionTicks(pv.Cts)
 			}
 			return pes, pid, videoKey, false
 
@@ -484,24 +549,35 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.StreamType = 0x24
 
 			if pv.FrameType == libflv.KEY_FRAME && pv.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-				//HEVCDecoderConfigurationRecord — publishers also send
-				//VPS/SPS/PPS in-band ahead of every IDR, so we don't
-				//need to memoise them for the muxer.
+				//HEVCDecoderConfigurationRecord — remembered for the
+				//keyframes that come without VPS/SPS/PPS in-band.
+				if sets, ok := hevcParameterSets(pv.Data()); ok {
+					hls.hevcSets = sets
+				}
+				return nil, 0, false, true
+			}
+			if pv.AVCPacketType != libflv.AVC_NALU {
 				return nil, 0, false, true
 			}
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = hls.ticks(tag.GetTagInfo().TimeStamp)
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
 			pes.HeaderIndex = 0
 			pes.Data = avccToAnnexB(pv.Data())
+			if len(pes.Data) == 0 {
+				return nil, 0, false, true
+			}
+			if videoKey && !hasHEVCSPS(pv.Data()) {
+				pes.Data = insertHEVCSets(pes.Data, hls.hevcSets)
+			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + compositionTicks(pv.Cts)
 			}
 			return pes, pid, videoKey, false
 
@@ -564,7 +640,10 @@ func avccToAnnexB(buf []byte) []byte {
 		size := int(buf[off])<<24 | int(buf[off+1])<<16 |
 			int(buf[off+2])<<8 | int(buf[off+3])
 		off += 4
-		if size <= 0 || off+size > len(buf) {
+		if size == 0 {
+			continue
+		}
+		if off+size > len(buf) {
 			break
 		}
 		out = append(out, 0x00, 0x00, 0x00, 0x01)
@@ -574,6 +653,63 @@ func avccToAnnexB(buf []byte) []byte {
 	return out
 }
 
+// hevcParameterSets lists the parameter sets of a
+// HEVCDecoderConfigurationRecord (ISO/IEC 14496-15 8.3.3.1) as AnnexB.
+func hevcParameterSets(record []byte) (sets []byte, ok bool) {
+	if len(record) < 23 {
+		return nil, false
+	}
+	rest := record[23:]
+	for i := 0; i < int(record[22]); i++ {
+		if len(rest) < 3 {
+			return nil, false
+		}
+		num := int(rest[1])<<8 | int(rest[2])
+		for rest = rest[3:]; num > 0; num-- {
+			if len(rest) < 2 {
+				return nil, false
+			}
+			size := int(rest[0])<<8 | int(rest[1])
+			if rest = rest[2:]; size > len(rest) {
+				return nil, false
+			}
+			sets = append(append(sets, 0x00, 0x00, 0x00, 0x01), rest[:size]...)
+			rest = rest[size:]
+		}
+	}
+	return sets, true
+}
+
+// hasHEVCSPS reports whether a length-prefixed access unit carries an SPS.
+func hasHEVCSPS(buf []byte) bool {
+	for len(buf) > 4 {
+		size := int(buf[0])<<24 | int(buf[1])<<16 | int(buf[2])<<8 | int(buf[3])
+		if size > 0 && buf[4]>>1&0x3f == 33 {
+			return true
+		}
+		if buf = buf[4:]; size > len(buf) {
+			return false
+		}
+		buf = buf[size:]
+	}
+	return false
+}
+
+// insertHEVCSets puts the parameter sets in front of an AnnexB access unit,
+// behind its access unit delimiter if there is one.
+func insertHEVCSets(data, sets []byte) []byte {
+	at := 0
+	if len(data) > 4 && data[4]>>1&0x3f == 35 {
+		at = len(data)
+		if next := bytes.Index(data[4:], []byte{0x00, 0x00, 0x00, 0x01}); next >= 0 {
+			at = 4 + next
+		}
+	}
+	out := append([]byte(nil), data[:at]...)
+	out = append(out, sets...)
+	return append(out, data[at:]...)
+}
+
 // openSegment creates a fresh .ts file and writes an initial PAT/PMT.
 func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.mu.Lock()
@@ -591,6 +727,8 @@ func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.currentEndDTS = startDTS
 	hls.partStartDTS = startDTS
 	hls.partStartOffset = 0
+	hls.partIndependent = true
+	hls.lastVideoDTS = startDTS
 
 	hls.mu.Lock()
 	hls.currentSegName = name
@@ -612,7 +750,7 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 	if hls.currentFile == nil {
 		return
 	}
-	dur := float64(endDTS-hls.partStartDTS) / 90000.0
+	dur := float64(int64(endDTS-hls.partStartDTS)) / 90000.0
 	if dur <= 0 {
 		return
 	}
@@ -620,7 +758,7 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 	if length <= 0 {
 		return
 	}
-	independent := len(hls.currentParts) == 0 //first part — starts at IDR+PSI
+	independent := hls.partIndependent
 	hls.mu.Lock()
 	hls.currentParts = append(hls.currentParts, partInfo{
 		duration:    dur,
@@ -633,7 +771,7 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 
 	hls.partStartDTS = endDTS
 	hls.partStartOffset = hls.currentBytes
-	_ = nextIndependent //tracked via the "first part of new segment" rule
+	hls.partIndependent = nextIndependent
 }
 
 // countingWriter wraps an io.Writer and increments *n by the number of
@@ -672,6 +810,9 @@ func (hls *HLS) writePSI() error {
 // rotate closes the current segment, reaps old ones beyond the window,
 // and opens a new one starting at the given DTS.
 func (hls *HLS) rotate(nextStartDTS uint64) error {
+	if int64(nextStartDTS-hls.currentStartDTS) > 0 {
+		hls.currentEndDTS = nextStartDTS //a segment lasts until the next one
+	}
 	hls.finaliseCurrent()
 	return hls.openSegment(nextStartDTS)
 }
@@ -682,11 +823,18 @@ func (hls *HLS) finaliseCurrent() {
 	if hls.currentFile == nil {
 		return
 	}
+	if int64(hls.currentEndDTS-hls.lastVideoDTS) <= 0 { //the last frame lasts a while, too
+		hls.currentEndDTS = hls.lastVideoDTS + hls.frameInterval
+	}
 	//Flush any tail bytes since the last part boundary into one final
 	//part, so LL-HLS clients have a complete partial-segment record
 	//for this MSN.
 	if hls.llEnabled && hls.currentBytes > hls.partStartOffset {
-		hls.closeCurrentPart(hls.currentEndDTS, false)
+		end := hls.currentEndDTS
+		if int64(end-hls.partStartDTS) <= 0 {
+			end = hls.partStartDTS + hls.frameInterval
+		}
+		hls.closeCurrentPart(end, false)
 	}
 
 	name := filepath.Base(hls.currentFile.Name())
@@ -694,7 +842,7 @@ func (hls *HLS) finaliseCurrent() {
 	hls.currentFile = nil
 	hls.currentWriter = nil
 
-	duration := float64(hls.currentEndDTS-hls.currentStartDTS) / 90000.0
+	duration := float64(int64(hls.currentEndDTS-hls.currentStartDTS)) / 90000.0
 	if duration <= 0 {
 		//Never observed a second tick; assume a minimum so the
 		//playlist target duration calculation doesn't underflow.
-- 
2.43.0


From 340e41417274ac838f7e4f19863e89e757751d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 06/27] fix: escape stream names in HLS playlists

---
 libhls/m3u8.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libhls/m3u8.go b/libhls/m3u8.go
index 5116789..d7558ea 100644
--- a/libhls/m3u8.go
+++ b/libhls/m3u8.go
@@ -3,6 +3,7 @@ package libhls
 import (
 	"fmt"
 	"math"
+	"net/url"
 	"strings"
 	"time"
 )
@@ -39,7 +40,7 @@ func buildPlaylist(segments []segmentInfo) []byte {
 	fmt.Fprintf(&sb, "#EXT-X-MEDIA-SEQUENCE:%d\n", segments[0].seq)
 	sb.WriteString("#EXT-X-ALLOW-CACHE:NO\n")
 	for _, s := range segments {
-		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, s.filename)
+		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, segmentURI(s.filename))
 	}
 	return []byte(sb.String())
 }
@@ -108,9 +109,9 @@ func buildLLPlaylist(in playlistInputs) []byte {
 	//Emit each completed segment's parts then the EXTINF entry.
 	for _, s := range in.segments {
 		for _, p := range s.parts {
-			writePartTag(&sb, p, s.filename)
+			writePartTag(&sb, p, segmentURI(s.filename))
 		}
-		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, s.filename)
+		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, segmentURI(s.filename))
 	}
 
 	//Emit in-progress segment's parts (no EXTINF yet — segment isn't
@@ -119,13 +120,13 @@ func buildLLPlaylist(in playlistInputs) []byte {
 	var preloadOffset int64
 	if in.currentName != "" {
 		for _, p := range in.currentParts {
-			writePartTag(&sb, p, in.currentName)
+			writePartTag(&sb, p, segmentURI(in.currentName))
 			if next := p.byteOffset + p.byteLength; next > preloadOffset {
 				preloadOffset = next
 			}
 		}
 		fmt.Fprintf(&sb, "#EXT-X-PRELOAD-HINT:TYPE=PART,URI=\"%s\",BYTERANGE-START=%d\n",
-			in.currentName, preloadOffset)
+			segmentURI(in.currentName), preloadOffset)
 	}
 
 	return []byte(sb.String())
@@ -139,3 +140,9 @@ func writePartTag(sb *strings.Builder, p partInfo, uri string) {
 	}
 	sb.WriteString("\n")
 }
+
+// segmentURI makes the name of a segment file a relative URI: stream names
+// may hold any character.
+func segmentURI(filename string) string {
+	return strings.ReplaceAll(url.PathEscape(filename), ":", "%3A")
+}
-- 
2.43.0


From 29e1a161beea1865251e5ac4cfbf95e5a4754bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 07/27] fix: DASH keeps every frame, signed offsets, wrap,
 timeline, codec and dimensions

---
 libdash/dash.go             | 423 +++++++++++++++++++++++++-----------
 libdash/mpd.go              |  36 +--
 libmp4/init_segment.go      |  19 +-
 libmp4/init_segment_hevc.go |   2 +-
 4 files changed, 335 insertions(+), 145 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 8e2a9c7..f7d29ae 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -13,15 +13,16 @@
 package libdash
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math/bits"
 	"os"
 	"path/filepath"
 	"sync"
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libmp4"
 )
@@ -37,6 +38,7 @@ type segmentInfo struct {
 	filename  string
 	startTime uint64 //in track timescale units
 	duration  uint64 //in track timescale units
+	conf      *config
 }
 
 // DASH is the per-stream segmenter. Lifecycle: NewDASH().WithDir(...).
@@ -52,19 +54,23 @@ type DASH struct {
 	// Decoder configuration learned from the video sequence header.
 	mu          sync.Mutex
 	cond        *sync.Cond
-	codec       string //"avc1.42E01E" or "hvc1.…" derived at init time
-	isHEVC      bool
-	sps         []byte
-	pps         []byte
-	hvccRecord  []byte //full HEVCDecoderConfigurationRecord, HEVC only
-	width       uint16
-	height      uint16
-	initBytes   []byte
-	initWritten bool
+	conf *config //what the init segment on offer was made from
+
+	//Only used by the goroutine in Start: the newest configuration and
+	//that of currentSamples. The init segment follows with the first
+	//media segment that needs it.
+	newest  *config
+	current *config
 
 	segments    []segmentInfo
 	nextSeq     int
+	timeOffset  uint64 //decode time of the first segment
 	currentSamples []sampleWithTime
+
+	clock     int64 //publisher's 32-bit millisecond clock, unwrapped
+	clockSet  bool
+	lastDTS   int64
+	lastTimestamp uint32
 	availabilityStart time.Time
 
 	ready     chan struct{}
@@ -72,6 +78,15 @@ type DASH struct {
 	stopped   int32
 }
 
+// config is a decoder configuration and the init segment made from it.
+type config struct {
+	record    []byte
+	codec     string //"avc1.42E01E" or "hev1.…"
+	width     uint16
+	height    uint16
+	initBytes []byte
+}
+
 // sampleWithTime tracks a sample plus the absolute DTS that produced
 // it, so that durations (= next.DTS - this.DTS) and segment start time
 // can be computed at finalisation.
@@ -109,11 +124,11 @@ func (d *DASH) Dir() string { return d.dir }
 func (d *DASH) InitSegment() []byte {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	if d.initBytes == nil {
+	if d.conf == nil {
 		return nil
 	}
-	out := make([]byte, len(d.initBytes))
-	copy(out, d.initBytes)
+	out := make([]byte, len(d.conf.initBytes))
+	copy(out, d.conf.initBytes)
 	return out
 }
 
@@ -122,18 +137,27 @@ func (d *DASH) InitSegment() []byte {
 func (d *DASH) Manifest() []byte {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	if !d.initWritten || len(d.segments) == 0 {
+	if d.conf == nil || len(d.segments) == 0 {
 		return nil
 	}
+	//Segments made with an earlier configuration cannot be decoded with
+	//the init segment on offer.
+	var segments []segmentInfo
+	for _, s := range d.segments {
+		if s.conf == d.conf {
+			segments = append(segments, s)
+		}
+	}
 	return buildMPD(manifestInputs{
 		streamID:          d.streamID,
 		availabilityStart: d.availabilityStart,
 		timescale:         d.timescale,
 		targetDur:         d.targetDur,
-		width:             d.width,
-		height:            d.height,
-		codecStr:          d.codec,
-		segments:          append([]segmentInfo(nil), d.segments...),
+		width:             d.conf.width,
+		height:            d.conf.height,
+		codecStr:          d.conf.codec,
+		timeOffset:        d.timeOffset,
+		segments:          segments,
 	})
 }
 
@@ -144,32 +168,54 @@ func (d *DASH) Stop() {
 		return
 	}
 	d.mu.Lock()
-	segs := append([]segmentInfo(nil), d.segments...)
-	d.segments = nil
 	d.cond.Broadcast()
 	d.mu.Unlock()
+	d.removeSegments()
+	d.readyOnce.Do(func() { close(d.ready) })
+}
+
+// removeSegments deletes the files written so far.
+func (d *DASH) removeSegments() {
+	d.mu.Lock()
+	segs := d.segments
+	d.segments = nil
+	d.mu.Unlock()
 	for _, s := range segs {
 		_ = os.Remove(filepath.Join(d.dir, s.filename))
 	}
 	if d.streamID != "" {
-		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID)))
+		_ = os.Remove(d.initPath())
 	}
-	d.readyOnce.Do(func() { close(d.ready) })
+}
+
+func (d *DASH) initPath() string {
+	return filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
 }
 
 func (d *DASH) stopRequested() bool {
 	return atomic.LoadInt32(&d.stopped) != 0
 }
 
+// GOPReader delivers the publisher's tags in order; alive turns false when
+// the publisher has gone and everything has been read.
+type GOPReader interface {
+	Read() (p interface{}, alive bool)
+}
+
 // Start consumes FLV tags from gopReader, batches H.264 samples into
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
-func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
+func (d *DASH) Start(gopReader GOPReader) error {
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
 	defer func() {
-		d.flushCurrent()
+		if err := d.flushCurrent(0, false); err != nil {
+			fmt.Printf("dash: flush segment: %v\n", err)
+		}
+		if d.stopRequested() {
+			d.removeSegments() //what was written while Stop was at work
+		}
 		d.readyOnce.Do(func() { close(d.ready) })
 	}()
 
@@ -211,8 +257,8 @@ func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
 			continue
 		}
 
-		dts := uint64(v.GetTagInfo().TimeStamp) //ms
-		cts := int32(v.Cts)                     //ms
+		dts := d.decodeTime(v.GetTagInfo().TimeStamp) //ms
+		cts := int32(v.Cts<<8) >> 8                   //ms, signed 24 bits
 		isKey := v.FrameType == libflv.KEY_FRAME
 
 		//Rotate on keyframes once the current segment has hit
@@ -221,8 +267,8 @@ func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
 		if isKey {
 			if len(d.currentSamples) > 0 {
 				curDur := dts - d.currentSamples[0].dts
-				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
-					if err := d.flushCurrent(); err != nil {
+				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 || d.newest != d.current {
+					if err := d.flushCurrent(dts, true); err != nil {
 						fmt.Printf("dash: flush segment: %v\n", err)
 					}
 				}
@@ -231,11 +277,14 @@ func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
 			//Drop tags until the first IDR arrives.
 			continue
 		}
-		if d.initBytes == nil {
+		if d.newest == nil {
 			//Sequence header hasn't arrived yet — without SPS/PPS we
 			//can't produce a playable stream.
 			continue
 		}
+		if len(d.currentSamples) == 0 {
+			d.current = d.newest
+		}
 
 		d.currentSamples = append(d.currentSamples, sampleWithTime{
 			dts:  dts,
@@ -246,6 +295,64 @@ func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
 	}
 }
 
+// decodeTime follows the 32-bit millisecond clock of the publisher across
+// its wrap. It never goes back: a publisher that restarts its clock goes on
+// from where it was.
+func (d *DASH) decodeTime(timestamp uint32) uint64 {
+	const restart = 1000 //ms
+	if !d.clockSet {
+		d.clockSet = true
+		d.clock, d.lastDTS = int64(timestamp), int64(timestamp)
+		d.lastTimestamp = timestamp
+	}
+	d.clock += int64(int32(timestamp - d.lastTimestamp))
+	d.lastTimestamp = timestamp
+	if d.clock < d.lastDTS-restart {
+		d.clock = d.lastDTS
+	}
+	if d.clock > d.lastDTS {
+		d.lastDTS = d.clock
+	}
+	return uint64(d.lastDTS)
+}
+
+// configure takes a new decoder configuration. It applies from the next
+// keyframe on.
+func (d *DASH) configure(c *config) error {
+	if d.newest != nil && bytes.Equal(d.newest.record, c.record) {
+		return nil
+	}
+	c.record = append([]byte(nil), c.record...)
+	d.newest = c
+	if d.conf != nil {
+		return nil
+	}
+	if err := d.writeInit(c); err != nil {
+		return err
+	}
+	d.mu.Lock()
+	d.conf = c
+	d.mu.Unlock()
+	return nil
+}
+
+// writeInit writes the init segment to disk so http.ServeFile can serve it.
+func (d *DASH) writeInit(c *config) error {
+	if d.streamID == "" {
+		return nil
+	}
+	tmp := d.initPath() + ".tmp"
+	err := os.WriteFile(tmp, c.initBytes, 0o644)
+	if err == nil {
+		err = os.Rename(tmp, d.initPath())
+	}
+	if err != nil {
+		_ = os.Remove(tmp)
+		return fmt.Errorf("write init segment: %w", err)
+	}
+	return nil
+}
+
 // handleHEVCSequenceHeader parses the FLV-carried
 // HEVCDecoderConfigurationRecord. We pull width/height by walking the
 // embedded SPS array, and embed the entire DCR verbatim into the
@@ -256,33 +363,37 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 		//Fall back to a placeholder codec string; many players accept
 		//missing dimensions when the in-band parameter sets later
 		//replenish them.
-		codec = "hvc1.1.6.L93.B0"
+		codec = "hev1.1.6.L93.B0"
 	}
-	d.mu.Lock()
-	d.isHEVC = true
-	d.codec = codec
-	d.hvccRecord = append([]byte(nil), record...)
-	d.width = w
-	d.height = h
-	d.initBytes = libmp4.BuildHEVCInitSegment(libmp4.HEVCInitParams{
+	initBytes := libmp4.BuildHEVCInitSegment(libmp4.HEVCInitParams{
 		TrackID:    1,
 		Timescale:  d.timescale,
 		Width:      w,
 		Height:     h,
 		HVCCRecord: record,
 	})
-	d.mu.Unlock()
+	return d.configure(&config{record: record, codec: codec, width: w, height: h, initBytes: initBytes})
+}
 
-	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
-		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
-			return fmt.Errorf("write init segment: %w", err)
-		}
-	}
-	d.mu.Lock()
-	d.initWritten = true
-	d.mu.Unlock()
-	return nil
+// hevcCodecString builds the RFC 6381 codec string from the general
+// profile, compatibility, tier, level and constraint fields of the record
+// (ISO/IEC 14496-15 Annex E).
+func hevcCodecString(record []byte) string {
+	space := []string{"", "A", "B", "C"}[record[1]>>6]
+	tier := "L"
+	if record[1]&0x20 != 0 {
+		tier = "H"
+	}
+	compat := bits.Reverse32(binary.BigEndian.Uint32(record[2:6]))
+	codec := fmt.Sprintf("hev1.%s%d.%X.%s%d", space, record[1]&0x1F, compat, tier, record[12])
+	constraints := record[6:12]
+	for len(constraints) > 0 && constraints[len(constraints)-1] == 0 {
+		constraints = constraints[:len(constraints)-1]
+	}
+	for _, c := range constraints {
+		codec += fmt.Sprintf(".%X", c)
+	}
+	return codec
 }
 
 // parseHEVCDCRDimensions walks the array_of_arrays in the
@@ -294,9 +405,7 @@ func parseHEVCDCRDimensions(src []byte) (w, h uint16, codec string, err error) {
 		err = fmt.Errorf("HEVC DCR too short: %d", len(src))
 		return
 	}
-	profileIDC := src[1] & 0x1F
-	levelIDC := src[12]
-	codec = fmt.Sprintf("hvc1.%d.6.L%d.B0", profileIDC, levelIDC)
+	codec = hevcCodecString(src)
 
 	off := 22
 	if off >= len(src) {
@@ -365,16 +474,23 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	for i := 0; i < skipBytes; i++ {
 		_, _ = br.readBits(8)
 	}
-	if maxSubLayers > 1 {
-		flags, _ := br.readBits(2 * int(maxSubLayers-1))
-		_ = flags
-		//byte-align: the spec specifies padding.
-		for br.pos%8 != 0 {
-			_, _ = br.readBits(1)
+	if maxSubLayers > 0 { //sps_max_sub_layers_minus1
+		var profilePresent, levelPresent [8]uint32
+		for i := uint32(0); i < maxSubLayers; i++ {
+			profilePresent[i], _ = br.readBits(1)
+			levelPresent[i], _ = br.readBits(1)
+		}
+		for i := maxSubLayers; i < 8; i++ {
+			_, _ = br.readBits(2)
+		}
+		for i := uint32(0); i < maxSubLayers; i++ {
+			if profilePresent[i] != 0 {
+				br.skip(88)
+			}
+			if levelPresent[i] != 0 {
+				br.skip(8)
+			}
 		}
-		//Each sub-layer-present flag bit pair brings up to 11 bytes
-		//of profile/level data. Without parsing the flags we can't
-		//cleanly skip them — bail if any are set.
 	}
 
 	_ = br.readUE() //seq_parameter_set_id
@@ -382,11 +498,28 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	if chromaFormat == 3 {
 		_, _ = br.readBits(1)
 	}
-	_ = chromaFormat
-	w16 := br.readUE()
-	h16 := br.readUE()
-	w = uint16(w16)
-	h = uint16(h16)
+	w32, h32 := br.readUE(), br.readUE()
+	if window, _ := br.readBits(1); window != 0 { //conformance_window_flag
+		left, right, top, bottom := br.readUE(), br.readUE(), br.readUE(), br.readUE()
+		unitX, unitY := cropUnits(chromaFormat)
+		w32 -= unitX * (left + right)
+		h32 -= unitY * (top + bottom)
+	}
+	if br.failed || w32 > 0xffff || h32 > 0xffff {
+		return 0, 0
+	}
+	return uint16(w32), uint16(h32)
+}
+
+// cropUnits are the luma samples per unit of a cropping offset.
+func cropUnits(chromaFormat uint32) (x, y uint32) {
+	x, y = 1, 1
+	if chromaFormat == 1 || chromaFormat == 2 {
+		x = 2
+	}
+	if chromaFormat == 1 {
+		y = 2
+	}
 	return
 }
 
@@ -397,50 +530,32 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 	if err != nil {
 		return err
 	}
-	d.mu.Lock()
-	d.sps = sps
-	d.pps = pps
-	d.width = w
-	d.height = h
-	d.isHEVC = false
 	//Codec string per RFC 6381: avc1.PPCCLL where PP=profile,
 	//CC=constraints, LL=level — derived from SPS bytes 1..3.
+	codec := "avc1.42E01E"
 	if len(sps) >= 4 {
-		d.codec = fmt.Sprintf("avc1.%02X%02X%02X", sps[1], sps[2], sps[3])
-	} else {
-		d.codec = "avc1.42E01E"
+		codec = fmt.Sprintf("avc1.%02X%02X%02X", sps[1], sps[2], sps[3])
 	}
-	d.initBytes = libmp4.BuildInitSegment(libmp4.InitSegmentParams{
+	initBytes := libmp4.BuildInitSegment(libmp4.InitSegmentParams{
 		TrackID:   1,
 		Timescale: d.timescale,
 		Width:     w,
 		Height:    h,
 		SPS:       sps,
 		PPS:       pps,
+		Record:    record,
 	})
-	d.mu.Unlock()
-
-	//Write init segment to disk so http.ServeFile can serve it.
-	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
-		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
-			return fmt.Errorf("write init segment: %w", err)
-		}
-	}
-	d.mu.Lock()
-	d.initWritten = true
-	d.mu.Unlock()
-	return nil
+	return d.configure(&config{record: record, codec: codec, width: w, height: h, initBytes: initBytes})
 }
 
 // flushCurrent closes the in-progress segment, builds an fMP4 fragment
 // and writes it under <dir>/<streamID>-<seq>.m4s. Old segments are
 // reaped to keep windowSize on disk.
-func (d *DASH) flushCurrent() error {
-	if len(d.currentSamples) < 2 {
-		//Need at least one duration interval. Drop a single-sample
-		//tail rather than emit a malformed fragment.
-		d.currentSamples = d.currentSamples[:0]
+//
+// nextDTS is the decode time of the sample that follows, if one is known;
+// otherwise the last sample lasts as long as the one before it.
+func (d *DASH) flushCurrent(nextDTS uint64, known bool) error {
+	if len(d.currentSamples) == 0 {
 		return nil
 	}
 	d.mu.Lock()
@@ -453,6 +568,8 @@ func (d *DASH) flushCurrent() error {
 		var dur uint64
 		if i+1 < len(d.currentSamples) {
 			dur = d.currentSamples[i+1].dts - s.dts
+		} else if known {
+			dur = nextDTS - s.dts
 		} else {
 			//Last sample: use previous interval as a best-guess.
 			if i > 0 {
@@ -477,19 +594,33 @@ func (d *DASH) flushCurrent() error {
 		Samples:        samples,
 	})
 
+	if d.current != d.conf {
+		if err := d.writeInit(d.current); err != nil {
+			d.currentSamples = d.currentSamples[:0]
+			return err
+		}
+	}
+
 	filename := fmt.Sprintf("%s-%d.m4s", d.streamID, seq)
 	if err := os.WriteFile(filepath.Join(d.dir, filename), frag, 0o644); err != nil {
+		_ = os.Remove(filepath.Join(d.dir, filename))
+		d.currentSamples = d.currentSamples[:0]
 		return fmt.Errorf("write fragment: %w", err)
 	}
 
 	endTime := d.currentSamples[len(d.currentSamples)-1].dts +
 		uint64(samples[len(samples)-1].Duration)
 	d.mu.Lock()
+	d.conf = d.current
+	if seq == 0 {
+		d.timeOffset = startTime
+	}
 	d.segments = append(d.segments, segmentInfo{
 		seq:       seq,
 		filename:  filename,
 		startTime: startTime,
 		duration:  endTime - startTime,
+		conf:      d.current,
 	})
 	d.nextSeq++
 	for len(d.segments) > d.windowSize {
@@ -515,24 +646,36 @@ func parseAVCDCR(src []byte) (sps, pps []byte, width, height uint16, err error)
 		err = fmt.Errorf("DCR too short: %d bytes", len(src))
 		return
 	}
-	numSPS := src[5] & 0x1f
+	numSPS := int(src[5] & 0x1f)
 	if numSPS == 0 {
 		err = fmt.Errorf("DCR has no SPS")
 		return
 	}
 	off := 6
-	if off+2 > len(src) {
-		err = fmt.Errorf("DCR truncated at SPS length")
+	next := func(what string) (set []byte) {
+		if off+2 > len(src) {
+			err = fmt.Errorf("DCR truncated at %s length", what)
+			return
+		}
+		n := int(binary.BigEndian.Uint16(src[off : off+2]))
+		off += 2
+		if off+n > len(src) {
+			err = fmt.Errorf("DCR truncated in %s body", what)
+			return
+		}
+		set = append([]byte(nil), src[off:off+n]...)
+		off += n
 		return
 	}
-	spsLen := int(binary.BigEndian.Uint16(src[off : off+2]))
-	off += 2
-	if off+spsLen > len(src) {
-		err = fmt.Errorf("DCR truncated in SPS body")
-		return
+	for i := 0; i < numSPS; i++ {
+		set := next("SPS")
+		if err != nil {
+			return
+		}
+		if i == 0 {
+			sps = set
+		}
 	}
-	sps = append([]byte(nil), src[off:off+spsLen]...)
-	off += spsLen
 
 	if off >= len(src) {
 		err = fmt.Errorf("DCR truncated before PPS count")
@@ -544,17 +687,9 @@ func parseAVCDCR(src []byte) (sps, pps []byte, width, height uint16, err error)
 		err = fmt.Errorf("DCR has no PPS")
 		return
 	}
-	if off+2 > len(src) {
-		err = fmt.Errorf("DCR truncated at PPS length")
-		return
-	}
-	ppsLen := int(binary.BigEndian.Uint16(src[off : off+2]))
-	off += 2
-	if off+ppsLen > len(src) {
-		err = fmt.Errorf("DCR truncated in PPS body")
+	if pps = next("PPS"); err != nil {
 		return
 	}
-	pps = append([]byte(nil), src[off:off+ppsLen]...)
 
 	width, height = parseSPSDimensions(sps)
 	return
@@ -600,9 +735,28 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_, _ = br.readBits(1) //qpprime_y_zero_transform_bypass_flag
 		seqScaling, _ := br.readBits(1)
 		if seqScaling != 0 {
-			//Skip scaling lists — implementing them robustly is a
-			//digression. Most live encoders don't enable this.
-			return 0, 0
+			lists := 8
+			if chromaFormat == 3 {
+				lists = 12
+			}
+			for i := 0; i < lists && !br.failed; i++ {
+				if present, _ := br.readBits(1); present == 0 {
+					continue
+				}
+				size := 16
+				if i >= 6 {
+					size = 64
+				}
+				last, next := int32(8), int32(8)
+				for j := 0; j < size && !br.failed; j++ {
+					if next != 0 {
+						next = (last + br.readSE() + 256) % 256
+					}
+					if next != 0 {
+						last = next
+					}
+				}
+			}
 		}
 	}
 	_ = br.readUE() //log2_max_frame_num_minus4
@@ -615,7 +769,7 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_ = br.readSE()
 		_ = br.readSE()
 		n := br.readUE()
-		for i := uint32(0); i < n; i++ {
+		for i := uint32(0); i < n && !br.failed; i++ {
 			_ = br.readSE()
 		}
 	}
@@ -626,19 +780,28 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 	picHeightInMapUnitsMinus1 := br.readUE()
 	frameMbsOnly, _ := br.readBits(1)
 
-	width = uint16((picWidthInMbsMinus1 + 1) * 16)
+	w := (picWidthInMbsMinus1 + 1) * 16
 	heightInMapUnits := picHeightInMapUnitsMinus1 + 1
 	if frameMbsOnly == 0 {
 		heightInMapUnits *= 2
+		_, _ = br.readBits(1) //mb_adaptive_frame_field_flag
 	}
-	height = uint16(heightInMapUnits * 16)
+	h := heightInMapUnits * 16
 
-	//frame_cropping_flag may further trim the frame; not honoured here
-	//— we'd need to know SubWidthC/SubHeightC from chromaFormat. For
-	//our display-purposes the unmodified macroblock-rounded size is
-	//close enough.
-	_ = chromaFormat
-	return width, height
+	_, _ = br.readBits(1) //direct_8x8_inference_flag
+	if cropping, _ := br.readBits(1); cropping != 0 {
+		left, right, top, bottom := br.readUE(), br.readUE(), br.readUE(), br.readUE()
+		unitX, unitY := cropUnits(chromaFormat)
+		if frameMbsOnly == 0 {
+			unitY *= 2
+		}
+		w -= unitX * (left + right)
+		h -= unitY * (top + bottom)
+	}
+	if br.failed || w > 0xffff || h > 0xffff {
+		return 0, 0
+	}
+	return uint16(w), uint16(h)
 }
 
 // bitReader is a minimal Exp-Golomb decoder for SPS parsing. It only
@@ -646,6 +809,8 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 type bitReader struct {
 	buf []byte
 	pos int //bit offset
+
+	failed bool //ran past the end or read an impossible code
 }
 
 func newBitReader(b []byte) *bitReader { return &bitReader{buf: b} }
@@ -655,6 +820,7 @@ func (b *bitReader) readBits(n int) (uint32, bool) {
 	for i := 0; i < n; i++ {
 		bytePos := b.pos / 8
 		if bytePos >= len(b.buf) {
+			b.failed = true
 			return 0, false
 		}
 		bit := (b.buf[bytePos] >> (7 - uint(b.pos%8))) & 1
@@ -664,6 +830,12 @@ func (b *bitReader) readBits(n int) (uint32, bool) {
 	return v, true
 }
 
+func (b *bitReader) skip(n int) {
+	for i := 0; i < n; i++ {
+		_, _ = b.readBits(1)
+	}
+}
+
 func (b *bitReader) readUE() uint32 {
 	zeros := 0
 	for {
@@ -675,7 +847,8 @@ func (b *bitReader) readUE() uint32 {
 			break
 		}
 		zeros++
-		if zeros > 32 {
+		if zeros > 31 {
+			b.failed = true
 			return 0
 		}
 	}
diff --git a/libdash/mpd.go b/libdash/mpd.go
index 6037958..5024c4a 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -2,6 +2,8 @@ package libdash
 
 import (
 	"fmt"
+	"html"
+	"net/url"
 	"strings"
 	"time"
 )
@@ -17,6 +19,7 @@ type manifestInputs struct {
 	width             uint16
 	height            uint16
 	codecStr          string //RFC 6381 codec string; empty → avc1 fallback
+	timeOffset        uint64 //decode time of the stream's first segment
 	segments          []segmentInfo
 }
 
@@ -42,17 +45,6 @@ func buildMPD(in manifestInputs) []byte {
 	avail := in.availabilityStart.UTC().Format(time.RFC3339)
 	startNumber := in.segments[0].seq
 
-	//Per-segment durations vary slightly; pick the maximum to derive
-	//target. SegmentTimeline gives byte-exact durations, but
-	//SegmentTemplate with a fixed duration is widely supported and
-	//simpler — players treat it as a hint, not a hard constraint.
-	var maxSegDur uint64
-	for _, s := range in.segments {
-		if s.duration > maxSegDur {
-			maxSegDur = s.duration
-		}
-	}
-
 	var sb strings.Builder
 	sb.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
 	fmt.Fprintf(&sb, `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" `+
@@ -85,17 +77,25 @@ func buildMPD(in manifestInputs) []byte {
 		`bandwidth="%d" width="%d" height="%d" frameRate="30">`+"\n",
 		codecStr, bandwidth, in.width, in.height)
 
+	//The timeline names exactly the segments that exist, with their times.
+	name := urlTemplateName(in.streamID)
 	fmt.Fprintf(&sb, `        <SegmentTemplate `+
 		`timescale="%d" `+
-		`duration="%d" `+
+		`presentationTimeOffset="%d" `+
 		`startNumber="%d" `+
 		`initialization="%s-init.mp4" `+
-		`media="%s-$Number$.m4s"/>`+"\n",
+		`media="%s-$Number$.m4s">`+"\n",
 		in.timescale,
-		maxSegDur,
+		in.timeOffset,
 		startNumber,
-		in.streamID, in.streamID,
+		name, name,
 	)
+	sb.WriteString(`          <SegmentTimeline>` + "\n")
+	for _, s := range in.segments {
+		fmt.Fprintf(&sb, `            <S t="%d" d="%d"/>`+"\n", s.startTime, s.duration)
+	}
+	sb.WriteString(`          </SegmentTimeline>` + "\n")
+	sb.WriteString(`        </SegmentTemplate>` + "\n")
 
 	sb.WriteString(`      </Representation>` + "\n")
 	sb.WriteString(`    </AdaptationSet>` + "\n")
@@ -104,3 +104,9 @@ func buildMPD(in manifestInputs) []byte {
 
 	return []byte(sb.String())
 }
+
+// urlTemplateName makes a stream name usable in the URL templates of the
+// manifest: escaped for the URL, for the template and for XML.
+func urlTemplateName(name string) string {
+	return html.EscapeString(strings.NewReplacer("$", "$$", ":", "%3A").Replace(url.PathEscape(name)))
+}
diff --git a/libmp4/init_segment.go b/libmp4/init_segment.go
index c033cb3..9c45e56 100644
--- a/libmp4/init_segment.go
+++ b/libmp4/init_segment.go
@@ -11,6 +11,9 @@ type InitSegmentParams struct {
 	Height    uint16
 	SPS       []byte //one SPS NAL (without the 0x000001 start code)
 	PPS       []byte //one PPS NAL (without the 0x000001 start code)
+	//Record is the publisher's complete AVCDecoderConfigurationRecord. If
+	//set it is embedded as it is instead of one built from SPS and PPS.
+	Record []byte
 }
 
 // BuildInitSegment returns a CMAF-compliant initialisation segment
@@ -42,7 +45,7 @@ func ftyp() []byte {
 // moov is the top-level header for the init segment.
 func moov(p InitSegmentParams) []byte {
 	return container("moov",
-		mvhd(p.Timescale),
+		mvhd(p.Timescale, p.TrackID),
 		trak(p),
 		mvex(p.TrackID),
 	)
@@ -51,7 +54,7 @@ func moov(p InitSegmentParams) []byte {
 // mvhd carries movie-wide defaults. We use version 1 so timestamp /
 // duration fields are 64 bits — useful when timescale is 90000 and
 // stream length isn't known up front.
-func mvhd(timescale uint32) []byte {
+func mvhd(timescale, trackID uint32) []byte {
 	body := FullBoxHeader(1, 0)
 	body = appendU64(body, 0)               //creation_time
 	body = appendU64(body, 0)               //modification_time
@@ -66,7 +69,11 @@ func mvhd(timescale uint32) []byte {
 		body = appendU32(body, v)
 	}
 	body = append(body, make([]byte, 24)...) //pre_defined (6 × uint32)
-	body = appendU32(body, 2)                //next_track_ID
+	nextTrackID := uint32(0xffffffff) //search for an unused one
+	if trackID < nextTrackID {
+		nextTrackID = trackID + 1
+	}
+	body = appendU32(body, nextTrackID) //next_track_ID
 	return Box{Type: FourCC("mvhd"), Body: body}.Bytes()
 }
 
@@ -198,7 +205,11 @@ func avc1(p InitSegmentParams) []byte {
 	body = appendU16(body, 0x0018)                  //depth (24)
 	body = appendU16(body, 0xffff)                  //pre_defined = -1
 
-	body = append(body, avcC(p.SPS, p.PPS)...)
+	if len(p.Record) > 0 {
+		body = append(body, Box{Type: FourCC("avcC"), Body: p.Record}.Bytes()...)
+	} else {
+		body = append(body, avcC(p.SPS, p.PPS)...)
+	}
 	return Box{Type: FourCC("avc1"), Body: body}.Bytes()
 }
 
diff --git a/libmp4/init_segment_hevc.go b/libmp4/init_segment_hevc.go
index 6409fe3..e6345c4 100644
--- a/libmp4/init_segment_hevc.go
+++ b/libmp4/init_segment_hevc.go
@@ -25,7 +25,7 @@ func BuildHEVCInitSegment(p HEVCInitParams) []byte {
 
 func hevcMoov(p HEVCInitParams) []byte {
 	return container("moov",
-		mvhd(p.Timescale),
+		mvhd(p.Timescale, p.TrackID),
 		hevcTrak(p),
 		mvex(p.TrackID),
 	)
-- 
2.43.0


From 1ab0e2ed182c52209397583fb7e67474c1164fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 08/27] fix: RTP reassembly across losses, SDP parsing by
 payload type, ADTS with CRC

---
 librtsp/aac.go        |  19 ++--
 librtsp/h264.go       |  10 +-
 librtsp/rtp_unpack.go | 170 +++++++++++++++++++++++-----
 librtsp/sdp.go        |  52 +++++----
 librtsp/sdp_parse.go  | 252 +++++++++++++++++++++++++++---------------
 5 files changed, 352 insertions(+), 151 deletions(-)

diff --git a/librtsp/aac.go b/librtsp/aac.go
index c136c21..1559fa8 100644
--- a/librtsp/aac.go
+++ b/librtsp/aac.go
@@ -32,15 +32,20 @@ func PackAACFrame(frame []byte) []byte {
 	return out
 }
 
-// AdtsToRaw strips the 7-byte ADTS header off an AAC frame. The HLS
-// transcoder happens to splice ADTS in front of every AAC frame from
-// libaac.AACHeader.Adts; for RTP we want the raw access unit instead.
+// AdtsToRaw strips the ADTS header (7 bytes, or 9 with a CRC) off an AAC
+// frame. The HLS transcoder happens to splice ADTS in front of every AAC
+// frame from libaac.AACHeader.Adts; for RTP we want the raw access unit
+// instead.
 func AdtsToRaw(frame []byte) []byte {
-	if len(frame) < 7 {
+	if len(frame) < 7 || frame[0] != 0xFF || frame[1]&0xF6 != 0xF0 {
 		return frame
 	}
-	if frame[0] == 0xFF && (frame[1]&0xF0) == 0xF0 {
-		return frame[7:]
+	size := 7
+	if frame[1]&0x01 == 0 {
+		size = 9
 	}
-	return frame
+	if len(frame) < size {
+		return frame
+	}
+	return frame[size:]
 }
diff --git a/librtsp/h264.go b/librtsp/h264.go
index aaf24d9..e284249 100644
--- a/librtsp/h264.go
+++ b/librtsp/h264.go
@@ -38,7 +38,7 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 	//FU-A: header is 2 bytes (FU indicator + FU header), then payload
 	//bytes from the original NAL minus its 1-byte NAL header.
 	nalHeader := nal[0]
-	nri := (nalHeader & 0x60) >> 5
+	fnri := nalHeader & 0xe0
 	nalType := nalHeader & 0x1f
 	body := nal[1:] //skip the original NAL header
 
@@ -52,7 +52,7 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 		if end > len(body) {
 			end = len(body)
 		}
-		fuIndicator := (nri << 5) | 28 //type 28 = FU-A
+		fuIndicator := fnri | 28 //type 28 = FU-A
 		fuHeader := nalType
 		if i == 0 {
 			fuHeader |= 0x80 //S = start
@@ -78,10 +78,12 @@ func SplitAVCC(buf []byte) [][]byte {
 	for off := 0; off+4 <= len(buf); {
 		size := int(buf[off])<<24 | int(buf[off+1])<<16 | int(buf[off+2])<<8 | int(buf[off+3])
 		off += 4
-		if size <= 0 || off+size > len(buf) {
+		if size < 0 || size > len(buf)-off {
 			return out
 		}
-		out = append(out, buf[off:off+size])
+		if size > 0 {
+			out = append(out, buf[off:off+size])
+		}
 		off += size
 	}
 	return out
diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 0a63d49..568caff 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -67,52 +67,116 @@ func ParseRTP(buf []byte) (*RTPPacket, error) {
 }
 
 // H264Reassembler accumulates H.264 NAL units across multiple RTP
-// packets. Single-NAL packets emit immediately; FU-A fragmented NALs
-// are buffered until the End-of-fragment bit fires; STAP-A aggregation
-// packets are split into their constituent NALs. The M-bit on the RTP
-// packet signals end-of-access-unit so callers can flush a complete
-// AU into AVCC for forwarding.
+// packets. FU-A fragmented NALs are buffered until the End-of-fragment
+// bit fires; STAP-A aggregation packets are split into their constituent
+// NALs. The M-bit on the RTP packet, or a packet with another timestamp
+// (the M-bit packet was lost), ends the access unit so callers can
+// convert a complete AU into AVCC for forwarding.
+//
+// Duplicate and late packets are ignored. A fragmented NAL that misses a
+// fragment is dropped as a whole.
 type H264Reassembler struct {
-	fuBuf     []byte //in-progress FU-A reassembly
+	fuBuf     []byte //in-progress FU-A reassembly; nil when none
 	pending   [][]byte
 	pendingTS uint32
+	ready     []accessUnit
+
+	started bool
+	lastSeq uint16
+}
+
+type accessUnit struct {
+	nals [][]byte
+	ts   uint32
 }
 
+// maxReorder is how far behind the newest packet a packet may be and
+// still count as late; anything older means the sender restarted.
+const maxReorder = 1024
+
 // Push feeds one parsed RTP packet into the reassembler. Returns the
-// list of NAL units that completed an access unit (the M-bit was set
-// on this packet) plus the access-unit timestamp; otherwise returns
-// nil to indicate "still buffering".
+// NAL units and timestamp of the oldest completed access unit, or nil to
+// indicate "still buffering". One packet can complete two access units;
+// call Next until it returns nil to get the others.
 func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
-	if len(pkt.Payload) == 0 {
-		return nil, 0
+	if r.started {
+		switch d := int16(pkt.SequenceNum - r.lastSeq); {
+		case d == 1:
+		case d <= 0 && d > -maxReorder:
+			return r.Next() //duplicate or late
+		default:
+			r.fuBuf = nil //fragments are missing
+		}
+	}
+	r.started = true
+	r.lastSeq = pkt.SequenceNum
+	if len(r.pending) > 0 && pkt.Timestamp != r.pendingTS {
+		r.flush()
+	}
+	if pkt.Timestamp != r.pendingTS {
+		r.fuBuf = nil
 	}
 	r.pendingTS = pkt.Timestamp
-	hdr := pkt.Payload[0]
+	if len(pkt.Payload) > 0 {
+		r.add(pkt.Payload)
+	}
+	if pkt.Marker {
+		r.fuBuf = nil
+		r.flush()
+	}
+	return r.Next()
+}
+
+// Next returns the next completed access unit, or nil if there is none.
+func (r *H264Reassembler) Next() (nals [][]byte, ts uint32) {
+	if len(r.ready) == 0 {
+		return nil, 0
+	}
+	au := r.ready[0]
+	r.ready = r.ready[1:]
+	return au.nals, au.ts
+}
+
+func (r *H264Reassembler) flush() {
+	if len(r.pending) > 0 {
+		r.ready = append(r.ready, accessUnit{nals: r.pending, ts: r.pendingTS})
+		r.pending = nil
+	}
+}
+
+func (r *H264Reassembler) add(payload []byte) {
+	hdr := payload[0]
 	nalType := hdr & 0x1F
+	if nalType != 28 {
+		r.fuBuf = nil
+	}
 
 	switch {
 	case nalType >= 1 && nalType <= 23:
 		//Single NAL unit packet — payload is the NAL itself.
-		r.pending = append(r.pending, append([]byte(nil), pkt.Payload...))
+		r.pending = append(r.pending, append([]byte(nil), payload...))
 	case nalType == 24:
 		//STAP-A: 1-byte header then a series of [size:2][NAL].
-		body := pkt.Payload[1:]
+		body := payload[1:]
 		for len(body) >= 2 {
 			n := int(binary.BigEndian.Uint16(body[:2]))
 			body = body[2:]
 			if n > len(body) {
 				break
 			}
-			r.pending = append(r.pending, append([]byte(nil), body[:n]...))
+			if n > 0 {
+				r.pending = append(r.pending, append([]byte(nil), body[:n]...))
+			}
 			body = body[n:]
 		}
 	case nalType == 28:
 		//FU-A: payload[0] is the FU indicator (NRI bits + type=28),
 		//payload[1] is the FU header (S/E/R + original NAL type).
-		if len(pkt.Payload) < 2 {
-			return nil, 0
+		if len(payload) < 2 {
+			r.fuBuf = nil
+			return
 		}
-		fuHeader := pkt.Payload[1]
+		fuHeader := payload[1]
 		start := fuHeader&0x80 != 0
 		end := fuHeader&0x40 != 0
 		origType := fuHeader & 0x1F
@@ -121,7 +185,10 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 			//indicator's NRI bits + the FU header's type.
 			r.fuBuf = []byte{(hdr & 0xE0) | origType}
 		}
-		r.fuBuf = append(r.fuBuf, pkt.Payload[2:]...)
+		if r.fuBuf == nil {
+			return //the start of this NAL was lost
+		}
+		r.fuBuf = append(r.fuBuf, payload[2:]...)
 		if end {
 			r.pending = append(r.pending, r.fuBuf)
 			r.fuBuf = nil
@@ -129,14 +196,6 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 	default:
 		//FU-B / MTAP / etc — not implemented. Skip.
 	}
-
-	if pkt.Marker && len(r.pending) > 0 {
-		nals = r.pending
-		ts = r.pendingTS
-		r.pending = nil
-		return
-	}
-	return nil, 0
 }
 
 // AACAUExtract decodes a single MPEG4-GENERIC RTP payload (AAC-hbr)
@@ -173,6 +232,63 @@ func AACAUExtract(payload []byte) [][]byte {
 	return out
 }
 
+// AACReassembler turns the RTP packets of an AAC track into AAC frames:
+// whole ones via AACAUExtract, and ones fragmented over several packets
+// (RFC 3640 §3.2.3.2), where every packet states the size of the whole
+// frame. Duplicate and late packets are ignored, and a fragmented frame
+// that misses a fragment is dropped.
+type AACReassembler struct {
+	buf  []byte //in-progress frame; nil when none
+	size int
+	ts   uint32
+
+	started bool
+	lastSeq uint16
+}
+
+// Push feeds one parsed RTP packet and returns the frames it completed.
+func (r *AACReassembler) Push(pkt *RTPPacket) [][]byte {
+	if r.started {
+		switch d := int16(pkt.SequenceNum - r.lastSeq); {
+		case d == 1:
+		case d <= 0 && d > -maxReorder:
+			return nil //duplicate or late
+		default:
+			r.buf = nil //fragments are missing
+		}
+	}
+	r.started = true
+	r.lastSeq = pkt.SequenceNum
+
+	p := pkt.Payload
+	if len(p) > 4 && binary.BigEndian.Uint16(p) == 16 {
+		size := int(binary.BigEndian.Uint16(p[2:])) >> 3
+		if body := p[4:]; size > len(body) {
+			if r.buf == nil || r.ts != pkt.Timestamp || r.size != size {
+				//A packet that ends a frame cannot start one.
+				if pkt.Marker {
+					r.buf = nil
+					return nil
+				}
+				r.buf = []byte{}
+			}
+			r.size, r.ts = size, pkt.Timestamp
+			r.buf = append(r.buf, body...)
+			if len(r.buf) < size && !pkt.Marker {
+				return nil
+			}
+			frame := r.buf
+			r.buf = nil
+			if len(frame) != size {
+				return nil
+			}
+			return [][]byte{frame}
+		}
+	}
+	r.buf = nil
+	return AACAUExtract(p)
+}
+
 // AVCCFromNALs concatenates NAL units into the AVCC format FLV expects:
 // a 4-byte big-endian length prefix followed by the NAL bytes, repeated
 // per NAL.
diff --git a/librtsp/sdp.go b/librtsp/sdp.go
index 5c2353f..575642e 100644
--- a/librtsp/sdp.go
+++ b/librtsp/sdp.go
@@ -41,7 +41,7 @@ func BuildSDP(p SDPParams) []byte {
 	var sb strings.Builder
 	sb.WriteString("v=0\r\n")
 	sb.WriteString("o=- 0 0 IN IP4 127.0.0.1\r\n")
-	fmt.Fprintf(&sb, "s=%s\r\n", p.StreamID)
+	fmt.Fprintf(&sb, "s=%s\r\n", sessionName(p.StreamID))
 	sb.WriteString("c=IN IP4 0.0.0.0\r\n")
 	sb.WriteString("t=0 0\r\n")
 	//RFC 4566 mentions a=control:* on session level so the client
@@ -50,7 +50,7 @@ func BuildSDP(p SDPParams) []byte {
 	sb.WriteString("a=control:*\r\n")
 
 	if p.HasVideo {
-		if p.IsHEVC && len(p.SPS) > 0 {
+		if p.IsHEVC {
 			writeHEVC(&sb, p.VPS, p.SPS, p.PPS)
 		} else if len(p.SPS) >= 4 {
 			writeVideo(&sb, p.SPS, p.PPS)
@@ -66,43 +66,49 @@ func BuildSDP(p SDPParams) []byte {
 	return []byte(sb.String())
 }
 
+// sessionName makes a stream name fit for the s= line: control characters
+// would start another SDP line, and the field must not be empty.
+func sessionName(streamID string) string {
+	name := strings.Map(func(c rune) rune {
+		if c < 0x20 || c == 0x7F {
+			return '_'
+		}
+		return c
+	}, streamID)
+	if name == "" {
+		return "-"
+	}
+	return name
+}
+
 // writeHEVC emits an H.265 m-line + fmtp per RFC 7798.
 // sprop-vps / sprop-sps / sprop-pps carry base64-encoded NALs.
 func writeHEVC(sb *strings.Builder, vps, sps, pps []byte) {
 	sb.WriteString("m=video 0 RTP/AVP 96\r\n")
 	sb.WriteString("a=rtpmap:96 H265/90000\r\n")
-	fmt.Fprintf(sb, "a=fmtp:96 ")
-	first := true
-	if len(vps) > 0 {
-		fmt.Fprintf(sb, "sprop-vps=%s", base64.StdEncoding.EncodeToString(vps))
-		first = false
-	}
-	if len(sps) > 0 {
-		if !first {
-			sb.WriteString(";")
+	var sprops []string
+	for _, set := range []struct {
+		name string
+		nal  []byte
+	}{{"sprop-vps", vps}, {"sprop-sps", sps}, {"sprop-pps", pps}} {
+		if len(set.nal) > 0 {
+			sprops = append(sprops, set.name+"="+base64.StdEncoding.EncodeToString(set.nal))
 		}
-		fmt.Fprintf(sb, "sprop-sps=%s", base64.StdEncoding.EncodeToString(sps))
-		first = false
 	}
-	if len(pps) > 0 {
-		if !first {
-			sb.WriteString(";")
-		}
-		fmt.Fprintf(sb, "sprop-pps=%s", base64.StdEncoding.EncodeToString(pps))
+	if len(sprops) > 0 {
+		fmt.Fprintf(sb, "a=fmtp:96 %s\r\n", strings.Join(sprops, ";"))
 	}
-	sb.WriteString("\r\n")
 	sb.WriteString("a=control:trackID=0\r\n")
 }
 
-// writeOpus emits an Opus m-line per RFC 7587. Clock is always 48000.
-// Channels signalled via the rtpmap parameter; SDP usually carries
-// a=fmtp:97 sprop-stereo=1 for 2-channel content.
+// writeOpus emits an Opus m-line per RFC 7587. The rtpmap is always
+// opus/48000/2 (§7); a=fmtp:97 sprop-stereo=1 signals 2-channel content.
 func writeOpus(sb *strings.Builder, chans int) {
 	if chans <= 0 {
 		chans = 2
 	}
 	sb.WriteString("m=audio 0 RTP/AVP 97\r\n")
-	fmt.Fprintf(sb, "a=rtpmap:97 opus/48000/%d\r\n", chans)
+	sb.WriteString("a=rtpmap:97 opus/48000/2\r\n")
 	if chans == 2 {
 		sb.WriteString("a=fmtp:97 sprop-stereo=1\r\n")
 	}
diff --git a/librtsp/sdp_parse.go b/librtsp/sdp_parse.go
index ecf258e..071f97e 100644
--- a/librtsp/sdp_parse.go
+++ b/librtsp/sdp_parse.go
@@ -10,55 +10,72 @@ import (
 
 // ParsedSDP carries the bits of a publisher-supplied SDP (received in
 // an ANNOUNCE body) that we need to reconstitute FLV sequence headers.
-// Only H.264 + AAC tracks are populated; everything else is dropped.
+// At most one video (H.264 or H.265) and one audio (AAC-hbr or Opus)
+// track are populated; everything else is dropped.
 type ParsedSDP struct {
-	HasVideo       bool
-	VideoControl   string //path appended to the base URL on SETUP
+	HasVideo         bool
+	IsHEVC           bool
+	VideoControl     string //path appended to the base URL on SETUP
 	VideoPayloadType uint8
-	SPS            []byte //RBSP-stripped, no start code
-	PPS            []byte
+	VPS              []byte //HEVC only
+	SPS              []byte //RBSP-stripped, no start code
+	PPS              []byte
 
-	HasAudio        bool
-	AudioControl    string
+	HasAudio         bool
+	IsOpus           bool
+	AudioControl     string
 	AudioPayloadType uint8
-	AudioConfig     []byte //AAC AudioSpecificConfig
-	AudioRate       int
-	AudioChans      int
+	AudioConfig      []byte //AAC AudioSpecificConfig
+	AudioRate        int
+	AudioChans       int
+}
+
+// sdpMedia is one m= section. rtpmap and fmtp are keyed by payload type,
+// because a section can offer several.
+type sdpMedia struct {
+	kind    string
+	formats []string
+	control string
+	rtpmap  map[string]string
+	fmtp    map[string]map[string]string
 }
 
 // ParseSDP extracts the fields we need from an SDP body. Returns nil
 // (and a non-nil error) if neither track is recognisable.
 func ParseSDP(body []byte) (*ParsedSDP, error) {
-	out := &ParsedSDP{}
-	var current string //"video" / "audio" / ""
+	var medias []*sdpMedia
+	var current *sdpMedia
 	for _, raw := range strings.Split(string(body), "\n") {
-		line := strings.TrimRight(raw, "\r")
+		line := strings.TrimSpace(raw)
 		if len(line) < 2 || line[1] != '=' {
 			continue
 		}
-		key, value := line[0], line[2:]
+		key, value := line[0], strings.TrimSpace(line[2:])
 		switch key {
 		case 'm':
-			//m=video 0 RTP/AVP 96  → current="video", payload=96
-			fields := strings.Fields(value)
-			if len(fields) < 4 {
-				continue
-			}
-			pt, _ := strconv.Atoi(fields[3])
-			switch fields[0] {
-			case "video":
-				current = "video"
-				out.HasVideo = true
-				out.VideoPayloadType = uint8(pt)
-			case "audio":
-				current = "audio"
-				out.HasAudio = true
-				out.AudioPayloadType = uint8(pt)
-			default:
-				current = ""
+			//m=video 0 RTP/AVP 96
+			current = &sdpMedia{rtpmap: map[string]string{}, fmtp: map[string]map[string]string{}}
+			if fields := strings.Fields(value); len(fields) >= 4 {
+				current.kind, current.formats = fields[0], fields[3:]
 			}
+			medias = append(medias, current)
 		case 'a':
-			parseAttribute(out, current, value)
+			if current != nil {
+				current.parseAttribute(value)
+			}
+		}
+	}
+	out := &ParsedSDP{}
+	for _, m := range medias {
+		switch m.kind {
+		case "video":
+			if !out.HasVideo {
+				out.HasVideo = out.takeVideo(m)
+			}
+		case "audio":
+			if !out.HasAudio {
+				out.HasAudio = out.takeAudio(m)
+			}
 		}
 	}
 	if !out.HasVideo && !out.HasAudio {
@@ -67,60 +84,100 @@ func ParseSDP(body []byte) (*ParsedSDP, error) {
 	return out, nil
 }
 
-func parseAttribute(out *ParsedSDP, current, value string) {
-	switch {
-	case strings.HasPrefix(value, "control:"):
-		v := strings.TrimPrefix(value, "control:")
-		switch current {
-		case "video":
-			out.VideoControl = v
-		case "audio":
-			out.AudioControl = v
+// takeVideo fills in the video fields from the first payload type of m
+// that is H.264 or H.265.
+func (out *ParsedSDP) takeVideo(m *sdpMedia) bool {
+	for _, format := range m.formats {
+		pt, ok := payloadType(format)
+		if !ok {
+			continue
 		}
-	case strings.HasPrefix(value, "fmtp:"):
-		//fmtp:<pt> key=value;key=value
-		rest := strings.TrimPrefix(value, "fmtp:")
-		fields := strings.SplitN(rest, " ", 2)
-		if len(fields) < 2 {
-			return
+		codec := strings.ToUpper(strings.Split(m.rtpmap[format], "/")[0])
+		params := m.fmtp[format]
+		switch codec {
+		case "H264":
+			out.SPS, out.PPS = splitSpropParameterSets(params["sprop-parameter-sets"])
+		case "H265":
+			out.IsHEVC = true
+			out.VPS = decodeSprop(params["sprop-vps"])
+			out.SPS = decodeSprop(params["sprop-sps"])
+			out.PPS = decodeSprop(params["sprop-pps"])
+		default:
+			continue
 		}
-		params := parseFmtpParams(fields[1])
-		switch current {
-		case "video":
-			if pseq, ok := params["sprop-parameter-sets"]; ok {
-				sps, pps := splitSpropParameterSets(pseq)
-				if len(sps) > 0 {
-					out.SPS = sps
-				}
-				if len(pps) > 0 {
-					out.PPS = pps
-				}
-			}
-		case "audio":
-			if cfg, ok := params["config"]; ok {
-				if b, err := hex.DecodeString(cfg); err == nil {
-					out.AudioConfig = b
-				}
+		out.VideoPayloadType = pt
+		out.VideoControl = m.control
+		return true
+	}
+	return false
+}
+
+// takeAudio fills in the audio fields from the first payload type of m
+// that is AAC (MPEG4-GENERIC) or Opus.
+func (out *ParsedSDP) takeAudio(m *sdpMedia) bool {
+	for _, format := range m.formats {
+		pt, ok := payloadType(format)
+		if !ok {
+			continue
+		}
+		parts := strings.Split(m.rtpmap[format], "/")
+		switch strings.ToUpper(parts[0]) {
+		case "MPEG4-GENERIC":
+			if b, err := hex.DecodeString(m.fmtp[format]["config"]); err == nil && len(b) > 0 {
+				out.AudioConfig = b
 			}
+		case "OPUS":
+			out.IsOpus = true
+		default:
+			continue
 		}
-	case strings.HasPrefix(value, "rtpmap:"):
-		//rtpmap:97 mpeg4-generic/44100/2
-		rest := strings.TrimPrefix(value, "rtpmap:")
-		fields := strings.Fields(rest)
-		if len(fields) < 2 {
-			return
+		out.AudioPayloadType = pt
+		out.AudioControl = m.control
+		out.AudioChans = 1
+		if len(parts) >= 2 {
+			out.AudioRate, _ = strconv.Atoi(parts[1])
 		}
-		parts := strings.Split(fields[1], "/")
-		if current == "audio" && len(parts) >= 2 {
-			rate, _ := strconv.Atoi(parts[1])
-			out.AudioRate = rate
-			if len(parts) >= 3 {
-				ch, _ := strconv.Atoi(parts[2])
-				out.AudioChans = ch
-			} else {
-				out.AudioChans = 1
+		if len(parts) >= 3 {
+			out.AudioChans, _ = strconv.Atoi(parts[2])
+		}
+		if out.IsOpus {
+			//The rtpmap always says 2 channels (RFC 7587 §7).
+			out.AudioChans = 1
+			if m.fmtp[format]["sprop-stereo"] == "1" {
+				out.AudioChans = 2
 			}
 		}
+		return true
+	}
+	return false
+}
+
+func payloadType(s string) (uint8, bool) {
+	pt, err := strconv.Atoi(s)
+	return uint8(pt), err == nil && pt >= 0 && pt <= 127
+}
+
+func (m *sdpMedia) parseAttribute(attr string) {
+	colon := strings.IndexByte(attr, ':')
+	if colon < 0 {
+		return
+	}
+	name, value := strings.TrimSpace(attr[:colon]), strings.TrimSpace(attr[colon+1:])
+	if name == "control" {
+		m.control = value
+		return
+	}
+	//rtpmap:<pt> mpeg4-generic/44100/2, fmtp:<pt> key=value;key=value
+	end := strings.IndexAny(value, " \t")
+	if end < 0 {
+		return
+	}
+	pt, rest := value[:end], strings.TrimSpace(value[end:])
+	switch name {
+	case "rtpmap":
+		m.rtpmap[pt] = rest
+	case "fmtp":
+		m.fmtp[pt] = parseFmtpParams(rest)
 	}
 }
 
@@ -138,26 +195,41 @@ func parseFmtpParams(s string) map[string]string {
 		if eq < 0 {
 			continue
 		}
-		out[strings.ToLower(kv[:eq])] = kv[eq+1:]
+		out[strings.ToLower(strings.TrimSpace(kv[:eq]))] = strings.TrimSpace(kv[eq+1:])
 	}
 	return out
 }
 
 // splitSpropParameterSets decodes one or more comma-separated base64
-// NAL units. The first is conventionally the SPS, the second the PPS.
+// NAL units and returns the first SPS and the first PPS among them,
+// whatever their order.
 func splitSpropParameterSets(s string) (sps, pps []byte) {
-	parts := strings.Split(s, ",")
-	for i, p := range parts {
-		b, err := base64.StdEncoding.DecodeString(p)
-		if err != nil {
+	for _, p := range strings.Split(s, ",") {
+		b := decodeSprop(p)
+		if len(b) == 0 {
 			continue
 		}
-		switch i {
-		case 0:
-			sps = b
-		case 1:
-			pps = b
+		switch b[0] & 0x1F {
+		case 7:
+			if sps == nil {
+				sps = b
+			}
+		case 8:
+			if pps == nil {
+				pps = b
+			}
 		}
 	}
 	return
 }
+
+// decodeSprop decodes the first base64 NAL unit of a sprop-* value;
+// padding is optional. It returns nil if the value is not base64.
+func decodeSprop(s string) []byte {
+	s = strings.TrimSpace(strings.Split(s, ",")[0])
+	b, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(s, "="))
+	if err != nil || len(b) == 0 {
+		return nil
+	}
+	return b
+}
-- 
2.43.0


From 6c1b3213d73cbeb1fad2dd642404d01aafc08ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 09/27] fix: TS demuxer survives losses, splits and any table
 layout; HEVC; all ADTS frames

---
 libsrt/tsdemux.go | 528 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 401 insertions(+), 127 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 51d0ba4..b661a2a 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -1,14 +1,13 @@
 package libsrt
 
 import (
+	"bytes"
 	"encoding/binary"
 )
 
 // Tiny MPEG-TS demultiplexer. Just enough to split an SRT-delivered TS
-// stream back into FLV-flavoured access units (H.264 NALs from the
-// video PES, AAC ADTS frames from the audio PES). We don't validate
-// CRC or chase DSCRPTRs — for known-good FFmpeg output the assumptions
-// below hold, and a malformed packet just gets dropped.
+// stream back into FLV-flavoured access units (H.264 / H.265 NALs from the
+// video PES, AAC ADTS frames from the audio PES).
 //
 // The flow is:
 //
@@ -16,24 +15,29 @@ import (
 //	  for each 188-byte packet:
 //	    if PID == PAT → remember PMT PID
 //	    if PID == PMT → remember audio/video PID + stream type
-//	    if PID == video → accumulate into a PES buffer; on PUSI flush
-//	      previous → split off NAL units → emit AccessUnit
-//	    if PID == audio → same idea, emit Frame
+//	    if PID == video → accumulate into a PES buffer; when it is
+//	      complete (its stated length, or the next PUSI) → emit AccessUnit
+//	    if PID == audio → same idea, emit Frame per ADTS frame
 //
 // PES boundaries are detected via PUSI (payload unit start indicator).
+// A PES packet with missing or damaged TS packets is dropped as a whole.
 // Each PES is delivered to the consumer as an AccessUnit / Frame
 // callback so libsrt callers don't need to know about TS semantics.
 
 const TSPacketSize = 188
 
+// maxPESSize bounds what an endless PES packet can make us buffer.
+const maxPESSize = 16 << 20
+
 // AccessUnit is one decoded video frame's worth of NAL units in
 // AnnexB form (start-code prefixed). Timestamp is in 90 kHz units
 // (matches the PTS field of the PES header).
 type AccessUnit struct {
-	PTS uint64
-	DTS uint64
-	Key bool   //starts with an IDR
-	NAL []byte //AnnexB-formatted NAL bytes
+	PTS  uint64
+	DTS  uint64
+	Key  bool   //contains an IDR / IRAP picture
+	HEVC bool   //H.265 rather than H.264
+	NAL  []byte //AnnexB-formatted NAL bytes
 }
 
 // AudioFrame is one ADTS-prefixed AAC frame.
@@ -45,83 +49,219 @@ type AudioFrame struct {
 // Demuxer accumulates TS packets and emits AccessUnit / AudioFrame.
 // One Demuxer per session.
 type Demuxer struct {
-	pmtPID    uint16
-	videoPID  uint16
-	audioPID  uint16
-	videoBuf  []byte
-	videoTS   uint64 //PTS of in-progress PES (90 kHz)
-	videoDTS  uint64
-	audioBuf  []byte
-	audioTS   uint64
-	OnVideo   func(AccessUnit)
-	OnAudio   func(AudioFrame)
+	pmtPID   uint16
+	videoPID uint16
+	audioPID uint16
+	hevc     bool
+
+	rest     []byte //start of a TS packet that continues in the next Feed
+	pat, pmt sectionBuf
+	video    pesBuf
+	audio    pesBuf
+
+	videoTS, videoDTS uint64 //of the last access unit
+
+	//Audio elementary stream not yet split into ADTS frames. The frame at
+	//its start is audioBlocks AAC blocks after the time audioTS.
+	audioES     []byte
+	audioTS     uint64
+	audioBlocks uint64
+	audioHead   []byte //of the last frame, up to the channel configuration
+	audioSynced bool   //audioES starts with a frame
+
+	OnVideo func(AccessUnit)
+	OnAudio func(AudioFrame)
+}
+
+// ccState follows the continuity counter of one PID.
+type ccState struct {
+	seen    bool
+	cc      byte
+	payload []byte
+}
+
+// check classifies a packet with payload: dup means it repeats the
+// previous one, lost that packets before it are missing. A unit start
+// with the discontinuity indicator may have any counter.
+func (c *ccState) check(pusi bool, cc byte, discontinuity bool, payload []byte) (dup, lost bool) {
+	dup = c.seen && cc == c.cc && bytes.Equal(payload, c.payload)
+	lost = c.seen && !dup && cc != (c.cc+1)&0x0F && !(discontinuity && pusi)
+	c.seen, c.cc = true, cc
+	c.payload = append(c.payload[:0], payload...)
+	return dup, lost
+}
+
+// sectionBuf reassembles PSI sections of one PID.
+type sectionBuf struct {
+	cc  ccState
+	buf []byte //nil until a section starts
+}
+
+// pesBuf reassembles PES packets of one PID. buf is nil unless a PES
+// packet has started and nothing of it is missing.
+type pesBuf struct {
+	cc  ccState
+	buf []byte
 }
 
 // NewDemuxer returns a fresh demuxer. Callbacks should be set before
 // calling Feed.
 func NewDemuxer() *Demuxer { return &Demuxer{} }
 
-// Feed processes one or more concatenated 188-byte TS packets. Bytes
-// that don't make up a full packet are silently discarded; FFmpeg's
-// SRT transport always packs complete TS packets per UDP datagram.
+// Feed processes the next bytes of the transport stream; they may end
+// anywhere.
 func (d *Demuxer) Feed(buf []byte) {
-	for len(buf) >= TSPacketSize {
-		pkt := buf[:TSPacketSize]
+	if len(d.rest) > 0 {
+		buf = append(d.rest, buf...)
+		d.rest = nil
+	}
+	for len(buf) > 0 {
+		if buf[0] != 0x47 {
+			//Lost sync: continue at the next byte that can start a packet.
+			next := 1
+			for next < len(buf) && (buf[next] != 0x47 ||
+				next+TSPacketSize < len(buf) && buf[next+TSPacketSize] != 0x47) {
+				next++
+			}
+			buf = buf[next:]
+			continue
+		}
+		if len(buf) < TSPacketSize {
+			d.rest = append([]byte(nil), buf...)
+			return
+		}
+		d.feedPacket(buf[:TSPacketSize])
 		buf = buf[TSPacketSize:]
-		if pkt[0] != 0x47 {
-			//Resync would be smart but rare in practice; bail out
-			//on this datagram.
+	}
+}
+
+// Flush emits the access unit and audio frame that are still waiting for
+// the start of the next one. Call it at the end of the stream.
+func (d *Demuxer) Flush() {
+	d.flushVideo()
+	d.flushAudio()
+	d.rest = nil
+}
+
+func (d *Demuxer) feedPacket(pkt []byte) {
+	if pkt[1]&0x80 != 0 {
+		return //transport error: the contents cannot be trusted
+	}
+	pid := uint16(pkt[1]&0x1F)<<8 | uint16(pkt[2])
+	pusi := pkt[1]&0x40 != 0
+	if pkt[3]&0xC0 != 0 {
+		return //scrambled
+	}
+	afCtrl := (pkt[3] >> 4) & 0x03 //adaptation field control
+	off := 4
+	discontinuity := false
+	if afCtrl == 2 || afCtrl == 3 {
+		afLen := int(pkt[4])
+		off += 1 + afLen
+		if off > TSPacketSize {
 			return
 		}
-		pid := uint16(pkt[1]&0x1F)<<8 | uint16(pkt[2])
-		pusi := pkt[1]&0x40 != 0
-		afCtrl := (pkt[3] >> 4) & 0x03 //adaptation field control
-		off := 4
-		if afCtrl == 2 || afCtrl == 3 {
-			afLen := int(pkt[4])
-			off += 1 + afLen
-			if off > TSPacketSize {
-				continue
-			}
+		discontinuity = afLen > 0 && pkt[5]&0x80 != 0
+	}
+	if afCtrl == 0 || afCtrl == 2 {
+		return //no payload
+	}
+	payload := pkt[off:]
+	cc := pkt[3] & 0x0F
+
+	switch pid {
+	case 0x0000:
+		for _, sec := range d.pat.feed(pusi, cc, discontinuity, payload) {
+			d.parsePAT(sec)
+		}
+	case d.pmtPID:
+		for _, sec := range d.pmt.feed(pusi, cc, discontinuity, payload) {
+			d.parsePMT(sec)
 		}
-		if afCtrl == 0 || afCtrl == 2 {
-			continue //no payload
+	case d.videoPID:
+		d.feedVideo(pusi, cc, discontinuity, payload)
+	case d.audioPID:
+		d.feedAudio(pusi, cc, discontinuity, payload)
+	}
+}
+
+// feed adds one TS payload and returns the sections it completes (with a
+// correct CRC).
+func (s *sectionBuf) feed(pusi bool, cc byte, discontinuity bool, payload []byte) (sections [][]byte) {
+	dup, lost := s.cc.check(pusi, cc, discontinuity, payload)
+	if dup {
+		return nil
+	}
+	if lost {
+		s.buf = nil
+	}
+	if pusi {
+		if len(payload) < 1 || 1+int(payload[0]) > len(payload) {
+			s.buf = nil
+			return nil
 		}
-		payload := pkt[off:]
-
-		switch pid {
-		case 0x0000:
-			d.parsePAT(payload)
-		case d.pmtPID:
-			d.parsePMT(payload)
-		case d.videoPID:
-			d.feedVideo(pusi, payload)
-		case d.audioPID:
-			d.feedAudio(pusi, payload)
+		pointer := int(payload[0])
+		if s.buf != nil {
+			s.buf = append(s.buf, payload[1:1+pointer]...)
+			sections = s.take(sections)
 		}
+		s.buf = append([]byte{}, payload[1+pointer:]...)
+	} else if s.buf != nil {
+		s.buf = append(s.buf, payload...)
 	}
+	return s.take(sections)
+}
+
+// take moves the complete sections at the start of the buffer to out.
+func (s *sectionBuf) take(out [][]byte) [][]byte {
+	for len(s.buf) >= 3 {
+		if s.buf[0] == 0xFF {
+			s.buf = nil //stuffing up to the next PUSI
+			break
+		}
+		n := 3 + int(binary.BigEndian.Uint16(s.buf[1:3])&0x0FFF)
+		if len(s.buf) < n {
+			break
+		}
+		if sec := s.buf[:n]; n >= 12 && sectionCRC(sec) == 0 {
+			out = append(out, sec)
+		}
+		s.buf = s.buf[n:]
+	}
+	return out
+}
+
+// sectionCRC is the MPEG-2 CRC32; it is 0 over a section that ends with
+// its own CRC.
+func sectionCRC(b []byte) uint32 {
+	crc := uint32(0xFFFFFFFF)
+	for _, x := range b {
+		crc ^= uint32(x) << 24
+		for i := 0; i < 8; i++ {
+			if crc&0x80000000 != 0 {
+				crc = crc<<1 ^ 0x04C11DB7
+			} else {
+				crc <<= 1
+			}
+		}
+	}
+	return crc
 }
 
 // parsePAT pulls the first PMT entry from the Program Association
 // Table. We only support a single program; multi-program TS would need
 // a richer accumulator.
-func (d *Demuxer) parsePAT(payload []byte) {
-	if len(payload) < 2 {
-		return
-	}
-	//Skip pointer + section header (8 bytes).
-	pointer := int(payload[0])
-	if 1+pointer+8 > len(payload) {
-		return
+func (d *Demuxer) parsePAT(section []byte) {
+	if section[0] != 0x00 || section[5]&0x01 == 0 {
+		return //another table, or not yet applicable
 	}
-	body := payload[1+pointer:]
-	//Section length covers everything from after section_length itself
-	//up to and including the CRC. For our needs we just walk the
-	//program loop right after the 8-byte fixed header.
-	for off := 8; off+4 <= len(body)-4; off += 4 {
-		programNumber := binary.BigEndian.Uint16(body[off : off+2])
-		pid := binary.BigEndian.Uint16(body[off+2:off+4]) & 0x1FFF
+	for off := 8; off+4 <= len(section)-4; off += 4 {
+		programNumber := binary.BigEndian.Uint16(section[off : off+2])
+		pid := binary.BigEndian.Uint16(section[off+2:off+4]) & 0x1FFF
 		if programNumber != 0 {
+			if pid != d.pmtPID {
+				d.pmt = sectionBuf{}
+			}
 			d.pmtPID = pid
 			return
 		}
@@ -131,96 +271,217 @@ func (d *Demuxer) parsePAT(payload []byte) {
 // parsePMT fishes the audio/video stream PIDs out of a Program Map
 // Table. stream_type 0x1B = H.264, 0x24 = HEVC, 0x0F = AAC ADTS,
 // 0x11 = LATM (we don't handle), 0xC1 = AC-3 (skipped).
-func (d *Demuxer) parsePMT(payload []byte) {
-	if len(payload) < 2 {
-		return
-	}
-	pointer := int(payload[0])
-	body := payload[1+pointer:]
-	if len(body) < 12 {
-		return
+func (d *Demuxer) parsePMT(section []byte) {
+	if section[0] != 0x02 || section[5]&0x01 == 0 || len(section) < 16 {
+		return //another table, or not yet applicable
 	}
-	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
-	if sectionLen > len(body) {
-		sectionLen = len(body)
-	}
-	progInfoLen := int(binary.BigEndian.Uint16(body[10:12]) & 0x0FFF)
+	progInfoLen := int(binary.BigEndian.Uint16(section[10:12]) & 0x0FFF)
 	off := 12 + progInfoLen
-	for off+5 <= sectionLen-4 {
-		streamType := body[off]
-		streamPID := binary.BigEndian.Uint16(body[off+1:off+3]) & 0x1FFF
-		esInfoLen := int(binary.BigEndian.Uint16(body[off+3:off+5]) & 0x0FFF)
+	var video, audio uint16
+	var hevc bool
+	for off+5 <= len(section)-4 {
+		streamType := section[off]
+		streamPID := binary.BigEndian.Uint16(section[off+1:off+3]) & 0x1FFF
+		esInfoLen := int(binary.BigEndian.Uint16(section[off+3:off+5]) & 0x0FFF)
 		off += 5 + esInfoLen
 		switch streamType {
 		case 0x1B, 0x24:
-			d.videoPID = streamPID
+			if video == 0 {
+				video, hevc = streamPID, streamType == 0x24
+			}
 		case 0x0F:
-			d.audioPID = streamPID
+			if audio == 0 {
+				audio = streamPID
+			}
 		}
 	}
+	if video != d.videoPID || hevc != d.hevc {
+		d.flushVideo()
+		d.video = pesBuf{}
+		d.videoPID, d.hevc = video, hevc
+	}
+	if audio != d.audioPID {
+		d.flushAudio()
+		d.audio = pesBuf{}
+		d.dropAudio()
+		d.audioPID = audio
+	}
 }
 
-// feedVideo / feedAudio buffer PES bytes, flushing on PUSI boundaries.
-// Internally we treat one PES unit as one access unit (true for live
-// MPEG-TS produced by FFmpeg with -codec copy from H.264).
-func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
-	if pusi && len(d.videoBuf) > 0 {
-		d.flushVideo()
+// feed adds one TS payload. flush is called when the PES packet in the
+// buffer is complete; lost when packets are missing before this one.
+func (p *pesBuf) feed(pusi bool, cc byte, discontinuity bool, payload []byte, flush, lost func()) {
+	dup, gap := p.cc.check(pusi, cc, discontinuity, payload)
+	if dup {
+		return
+	}
+	if gap {
+		p.buf = nil
+		lost()
 	}
 	if pusi {
-		pts, dts, body, ok := parsePESHeader(payload)
-		if !ok {
-			return
+		flush()
+		p.buf = append([]byte{}, payload...)
+	} else if p.buf != nil {
+		p.buf = append(p.buf, payload...)
+	}
+	if len(p.buf) > maxPESSize {
+		p.buf = nil
+		lost()
+	}
+	//A PES packet that states its length need not wait for the next one.
+	if len(p.buf) >= 6 {
+		n := 6 + int(binary.BigEndian.Uint16(p.buf[4:6]))
+		if n > 6 && len(p.buf) >= n {
+			p.buf = p.buf[:n]
+			flush()
 		}
-		d.videoTS = pts
-		d.videoDTS = dts
-		d.videoBuf = append(d.videoBuf[:0], body...)
-		return
 	}
-	d.videoBuf = append(d.videoBuf, payload...)
+}
+
+// feedVideo / feedAudio buffer PES bytes.
+// Internally we treat one PES unit as one access unit (true for live
+// MPEG-TS produced by FFmpeg with -codec copy from H.264).
+func (d *Demuxer) feedVideo(pusi bool, cc byte, discontinuity bool, payload []byte) {
+	d.video.feed(pusi, cc, discontinuity, payload, d.flushVideo, func() {})
 }
 
 func (d *Demuxer) flushVideo() {
-	if d.OnVideo == nil {
-		d.videoBuf = d.videoBuf[:0]
+	pes := d.video.buf
+	d.video.buf = nil
+	pts, dts, body, ok := completePES(pes)
+	if !ok || d.OnVideo == nil {
 		return
 	}
+	if pes[7]&0x80 != 0 {
+		d.videoTS, d.videoDTS = pts, dts
+	}
 	au := AccessUnit{
-		PTS: d.videoTS,
-		DTS: d.videoDTS,
-		NAL: append([]byte(nil), d.videoBuf...),
-		Key: containsAnnexBKeyframe(d.videoBuf),
+		PTS:  d.videoTS,
+		DTS:  d.videoDTS,
+		HEVC: d.hevc,
+		NAL:  append([]byte(nil), body...),
+	}
+	if d.hevc {
+		au.Key = containsAnnexBIRAP(body)
+	} else {
+		au.Key = containsAnnexBKeyframe(body)
 	}
-	d.videoBuf = d.videoBuf[:0]
 	d.OnVideo(au)
 }
 
-func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
-	if pusi && len(d.audioBuf) > 0 {
-		d.flushAudio()
-	}
-	if pusi {
-		pts, _, body, ok := parsePESHeader(payload)
-		if !ok {
-			return
+func (d *Demuxer) feedAudio(pusi bool, cc byte, discontinuity bool, payload []byte) {
+	d.audio.feed(pusi, cc, discontinuity, payload, d.flushAudio, d.dropAudio)
+}
+
+// dropAudio forgets the frame that was not complete when data was lost.
+func (d *Demuxer) dropAudio() {
+	d.audioES, d.audioSynced = nil, false
+}
+
+// flushAudio splits the elementary stream into ADTS frames. The PTS of a
+// PES packet belongs to the first frame that starts in it.
+func (d *Demuxer) flushAudio() {
+	pes := d.audio.buf
+	d.audio.buf = nil
+	pts, _, body, ok := completePES(pes)
+	if !ok {
+		if pes != nil {
+			d.dropAudio()
 		}
-		d.audioTS = pts
-		d.audioBuf = append(d.audioBuf[:0], body...)
 		return
 	}
-	d.audioBuf = append(d.audioBuf, payload...)
+	carried := len(d.audioES) //bytes of a frame that started earlier
+	es := append(d.audioES, body...)
+	pos := 0
+	timed := pes[7]&0x80 == 0 //the PTS, if any, has been used
+	stamp := func() {
+		if !timed && pos >= carried {
+			d.audioTS, d.audioBlocks, timed = pts, 0, true
+		}
+	}
+	for len(es)-pos >= 7 {
+		n, blocks, rate, ok := adtsFrame(es[pos:])
+		if !ok || !d.audioSynced && pos != 0 && pos != carried && !d.plausible(es[pos:], n) {
+			//Not at a frame: find the next one that can be.
+			d.audioSynced = false
+			pos++
+			for pos < len(es) && es[pos] != 0xFF {
+				pos++
+			}
+			continue
+		}
+		d.audioSynced = true
+		if len(es)-pos < n {
+			break
+		}
+		d.audioHead = adtsHead(es[pos:])
+		stamp()
+		if d.OnAudio != nil {
+			d.OnAudio(AudioFrame{
+				PTS:  (d.audioTS + d.audioBlocks*1024*90000/rate) & (1<<33 - 1),
+				Data: append([]byte(nil), es[pos:pos+n]...),
+			})
+		}
+		pos += n
+		d.audioBlocks += blocks
+	}
+	stamp()
+	d.audioES = append([]byte(nil), es[pos:]...)
 }
 
-func (d *Demuxer) flushAudio() {
-	if d.OnAudio == nil {
-		d.audioBuf = d.audioBuf[:0]
-		return
+// plausible reports whether what looks like a frame of n bytes at the start
+// of es, found while searching for one, is more than a chance match.
+func (d *Demuxer) plausible(es []byte, n int) bool {
+	head := adtsHead(es)
+	if bytes.Equal(head, d.audioHead) {
+		return true
 	}
-	d.OnAudio(AudioFrame{
-		PTS:  d.audioTS,
-		Data: append([]byte(nil), d.audioBuf...),
-	})
-	d.audioBuf = d.audioBuf[:0]
+	return len(es) >= n && bytes.HasPrefix(head, adtsHead(es[n:]))
+}
+
+// adtsHead is the part of an ADTS header that all frames of a stream share, or as much
+// of it as there is.
+func adtsHead(b []byte) []byte {
+	if len(b) > 4 {
+		b = b[:4]
+	}
+	head := append([]byte(nil), b...)
+	if len(head) > 1 {
+		head[1] |= 0x01
+	}
+	if len(head) > 2 {
+		head[2] &^= 0x02
+	}
+	if len(head) > 3 {
+		head[3] &= 0xC0
+	}
+	return head
+}
+
+// adtsFrame returns the length of the ADTS frame at the start of b, the
+// number of AAC blocks (of 1024 samples) in it and its sampling rate.
+func adtsFrame(b []byte) (size int, blocks, rate uint64, ok bool) {
+	rates := [...]uint64{96000, 88200, 64000, 48000, 44100, 32000, 24000,
+		22050, 16000, 12000, 11025, 8000, 7350}
+	index := int(b[2] >> 2 & 0x0F)
+	size = int(b[3]&0x03)<<11 | int(b[4])<<3 | int(b[5])>>5
+	if b[0] != 0xFF || b[1]&0xF6 != 0xF0 || index >= len(rates) || size < 7 {
+		return 0, 0, 0, false
+	}
+	return size, uint64(b[6]&0x03) + 1, rates[index], true
+}
+
+// completePES checks that all of a PES packet is there and splits it.
+func completePES(pes []byte) (pts, dts uint64, body []byte, ok bool) {
+	pts, dts, body, ok = parsePESHeader(pes)
+	if !ok || len(body) == 0 {
+		return 0, 0, nil, false
+	}
+	if n := int(binary.BigEndian.Uint16(pes[4:6])); n > 0 && len(pes) < 6+n {
+		return 0, 0, nil, false
+	}
+	return pts, dts, body, true
 }
 
 // parsePESHeader pulls the PTS (and DTS, when present) out of a PES
@@ -290,3 +551,16 @@ func containsAnnexBKeyframe(buf []byte) bool {
 	}
 	return false
 }
+
+// containsAnnexBIRAP is the H.265 counterpart: NAL types 16 to 23.
+func containsAnnexBIRAP(buf []byte) bool {
+	for i := 0; i+3 < len(buf); i++ {
+		if buf[i] == 0 && buf[i+1] == 0 && buf[i+2] == 1 {
+			if t := buf[i+3] >> 1 & 0x3F; t >= 16 && t <= 23 {
+				return true
+			}
+			i += 2
+		}
+	}
+	return false
+}
-- 
2.43.0


From 9af2dab90d36003a1b354e307cb4e0432f517007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 10/27] fix: bound the size of RTSP requests

---
 librtsp/message.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/librtsp/message.go b/librtsp/message.go
index 0a1a222..f76bdff 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -13,6 +13,7 @@ package librtsp
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -51,6 +52,13 @@ func (h Headers) Set(key, value string) { h[strings.ToLower(key)] = value }
 func (h Headers) Get(key string) string { return h[strings.ToLower(key)] }
 func (h Headers) Del(key string)        { delete(h, strings.ToLower(key)) }
 
+// What a request may consist of. Real ones are far smaller.
+const (
+	maxLine    = 16 << 10
+	maxHeaders = 128
+	maxBody    = 1 << 20
+)
+
 // ReadRequest consumes one request from r. Body length is taken from
 // the Content-Length header; absent length means no body.
 func ReadRequest(r *bufio.Reader) (*Request, error) {
@@ -76,11 +84,15 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		if err != nil {
 			return nil, fmt.Errorf("bad Content-Length: %v", err)
 		}
-		body := make([]byte, n)
-		if _, err := io.ReadFull(r, body); err != nil {
+		if n < 0 || n > maxBody {
+			return nil, fmt.Errorf("bad Content-Length: %d", n)
+		}
+		//The buffer grows with what arrives, whatever was announced.
+		var body bytes.Buffer
+		if _, err := io.CopyN(&body, r, int64(n)); err != nil {
 			return nil, err
 		}
-		req.Body = body
+		req.Body = body.Bytes()
 	}
 	return req, nil
 }
@@ -111,16 +123,24 @@ func (resp *Response) Bytes() []byte {
 // readLine returns the next CRLF-terminated line without the CRLF.
 // Tolerates bare LF (which some clients emit).
 func readLine(r *bufio.Reader) (string, error) {
-	line, err := r.ReadString('\n')
-	if err != nil {
-		return "", err
+	var line []byte
+	for {
+		part, err := r.ReadSlice('\n')
+		line = append(line, part...)
+		if err == nil {
+			return strings.TrimRight(string(line), "\r\n"), nil
+		}
+		if err != bufio.ErrBufferFull {
+			return "", err
+		}
+		if len(line) > maxLine {
+			return "", errors.New("line too long")
+		}
 	}
-	line = strings.TrimRight(line, "\r\n")
-	return line, nil
 }
 
 func readHeaders(r *bufio.Reader, h Headers) error {
-	for {
+	for n := 0; ; n++ {
 		line, err := readLine(r)
 		if err != nil {
 			return err
@@ -128,6 +148,9 @@ func readHeaders(r *bufio.Reader, h Headers) error {
 		if line == "" {
 			return nil
 		}
+		if n == maxHeaders {
+			return errors.New("too many headers")
+		}
 		idx := strings.Index(line, ":")
 		if idx < 0 {
 			return fmt.Errorf("malformed header: %q", line)
-- 
2.43.0


From 72e4f688e7ddcd94515dbc5584d8f97aa4368767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 11/27] fix: SRT handshake, sequence wrap, ACKs, session
 lifetime and callers kept apart

---
 librtmp/srt_server.go | 265 +++++++++++++++++--------------
 libsrt/listener.go    | 360 +++++++++++++++++++++++++++---------------
 2 files changed, 374 insertions(+), 251 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 9f2c329..ca633b1 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -1,12 +1,11 @@
 package librtmp
 
 import (
-	"encoding/binary"
+	"bytes"
 	"fmt"
-	"sync"
-	"time"
 
 	"github.com/sbraveyoung/GGmpeg/libflv"
+	"github.com/sbraveyoung/GGmpeg/librtsp"
 	"github.com/sbraveyoung/GGmpeg/libsrt"
 )
 
@@ -20,43 +19,41 @@ type srtSpec struct {
 	streamID string
 }
 
-// srtBridge wraps one libsrt.Listener and the per-stream demux state
-// that turns MPEG-TS into FLV tags. There's one bridge per WithSRT
-// invocation.
-type srtBridge struct {
-	spec    srtSpec
-	server  *server
-	mu      sync.Mutex
-	room    *Room
-	demux   *libsrt.Demuxer
+// srtCaller is the publishing side of one SRT session: the demux state
+// that turns MPEG-TS into FLV tags. The first session to send data while the
+// stream has no publisher becomes it.
+type srtCaller struct {
+	spec   srtSpec
+	server *server
+	rtmp   *RTMP //pseudo-publisher, so that cleanup paths match
+	demux  *libsrt.Demuxer
+
+	// TS time, which wraps at 33 bits, without the wrap.
+	time  int64
+	timed bool
 
 	// Sequence-header bookkeeping. Once SPS/PPS are extracted from
 	// an in-band IDR access unit, we synthesise AVCDecoderConfigurationRecord
-	// and emit the FLV video sequence header. Same idea for AAC: pull
-	// the codec config out of the first ADTS frame and emit the audio
-	// sequence header.
-	emittedVideoSeqHdr bool
-	emittedAudioSeqHdr bool
-	cachedSPS          []byte
-	cachedPPS          []byte
+	// and emit the FLV video sequence header, and again whenever they change.
+	// Same idea for AAC: pull the codec config out of the ADTS frames and emit
+	// the audio sequence header.
+	sps, pps []byte
+	videoHdr []byte //emitted last
+	audioHdr []byte
 }
 
 // startSRT installs the listener; called from server.Handler() once
 // per WithSRT spec.
 func startSRT(srv *server, spec srtSpec) {
-	br := &srtBridge{
-		spec:   spec,
-		server: srv,
-		demux:  libsrt.NewDemuxer(),
-	}
-	br.demux.OnVideo = br.onVideo
-	br.demux.OnAudio = br.onAudio
-
-	listener, err := libsrt.Listen(spec.address, spec.streamID, br.onData)
+	listener, err := libsrt.Listen(spec.address, spec.streamID, nil)
 	if err != nil {
 		fmt.Printf("srt listen %s: %v\n", spec.address, err)
 		return
 	}
+	listener.OnSession = func(string) (libsrt.DataHandler, func()) {
+		caller := newSRTCaller(srv, spec)
+		return caller.onData, caller.close
+	}
 	go func() {
 		if err := listener.Run(); err != nil {
 			fmt.Printf("srt run %s: %v\n", spec.address, err)
@@ -64,77 +61,112 @@ func startSRT(srv *server, spec srtSpec) {
 	}()
 }
 
+func newSRTCaller(srv *server, spec srtSpec) *srtCaller {
+	c := &srtCaller{
+		spec:   spec,
+		server: srv,
+		demux:  libsrt.NewDemuxer(),
+	}
+	c.demux.OnVideo = c.onVideo
+	c.demux.OnAudio = c.onAudio
+	return c
+}
+
 // onData feeds raw TS bytes from the SRT listener into the demuxer.
 // Lazy-allocates the Room on first invocation so empty publishes don't
 // pollute the App's room map.
-func (br *srtBridge) onData(streamID string, payload []byte) error {
-	br.mu.Lock()
-	if br.room == nil {
-		app, ok := br.server.apps[br.spec.app]
+func (c *srtCaller) onData(streamID string, payload []byte) error {
+	if c.rtmp == nil {
+		app, ok := c.server.apps[c.spec.app]
 		if !ok {
-			br.mu.Unlock()
-			return fmt.Errorf("srt: app %q missing", br.spec.app)
+			return fmt.Errorf("srt: app %q missing", c.spec.app)
 		}
-		if app.Load(br.spec.streamID) != nil {
-			br.mu.Unlock()
-			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
+		rtmp := &RTMP{
+			peer:   "srt://" + c.spec.address,
+			server: c.server,
 		}
-		//Pseudo-publisher RTMP struct so cleanup paths match.
-		ps := &RTMP{
-			peer:   "srt://" + br.spec.address,
-			server: br.server,
-			role:   rolePublisher,
-			app:    br.spec.app,
+		if !rtmp.startPublish(app, c.spec.streamID) {
+			return fmt.Errorf("srt: stream %q already publishing", c.spec.streamID)
 		}
-		ps.room = NewRoom(ps, br.spec.streamID)
-		br.room = ps.room
-		app.Store(br.spec.streamID, br.room)
+		c.rtmp = rtmp
 	}
-	br.mu.Unlock()
-	br.demux.Feed(payload)
+	c.demux.Feed(payload)
 	return nil
 }
 
+// close ends the stream with the session that published it.
+func (c *srtCaller) close() {
+	if c.rtmp == nil {
+		return
+	}
+	c.demux.Flush()
+	c.rtmp.endPublish()
+}
+
+// ms converts a TS time to milliseconds, without the wrap.
+func (c *srtCaller) ms(ts uint64) int64 {
+	if !c.timed {
+		c.timed, c.time = true, int64(ts)
+	}
+	c.time += tsDiff(ts, uint64(c.time))
+	if c.time < 0 {
+		return 0
+	}
+	return c.time / 90
+}
+
+// tsDiff returns a − b for 33-bit times.
+func tsDiff(a, b uint64) int64 {
+	return int64((a-b)<<31) >> 31
+}
+
 // onVideo converts an AnnexB-formatted access unit into FLV video
 // tag(s). On the first IDR we mine SPS/PPS, emit the AVC sequence
 // header, then continue with NALU tags.
-func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
-	nals := splitAnnexB(au.NAL)
-	var sps, pps []byte
+func (c *srtCaller) onVideo(au libsrt.AccessUnit) {
+	if au.HEVC {
+		return //not bridged
+	}
+	dts := c.ms(au.DTS)
+	pts := (c.time + tsDiff(au.PTS, au.DTS)) / 90
+
+	var params, sps, pps [][]byte
 	var pictureNALs [][]byte
-	for _, n := range nals {
-		if len(n) == 0 {
-			continue
-		}
+	for _, n := range splitAnnexB(au.NAL) {
 		switch n[0] & 0x1F {
 		case 7:
-			sps = n
+			sps = append(sps, n)
+			params = append(params, n)
 		case 8:
-			pps = n
+			pps = append(pps, n)
+			params = append(params, n)
 		default:
 			pictureNALs = append(pictureNALs, n)
 		}
 	}
-	if !br.emittedVideoSeqHdr {
-		if sps != nil {
-			br.cachedSPS = sps
-		}
-		if pps != nil {
-			br.cachedPPS = pps
-		}
-		if br.cachedSPS != nil && br.cachedPPS != nil {
-			seq := buildAVCSequenceHeader(br.cachedSPS, br.cachedPPS)
+	if len(sps) > 0 {
+		c.sps = sps[len(sps)-1]
+	}
+	if len(pps) > 0 {
+		c.pps = pps[len(pps)-1]
+	}
+	if len(sps) > 1 || len(pps) > 1 {
+		//The header only has room for one of each.
+		pictureNALs = append(params, pictureNALs...)
+	}
+	if len(c.sps) >= 4 && c.pps != nil {
+		if seq := buildAVCSequenceHeader(c.sps, c.pps); !bytes.Equal(seq, c.videoHdr) {
+			c.videoHdr = seq
 			vt := &libflv.VideoTag{
-				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
+				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: uint32(dts)},
 				FrameType:     libflv.KEY_FRAME,
 				CodecID:       libflv.FLV_VIDEO_AVC,
 				AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
 				VideoData:     seq,
 			}
 			vt.DataSize = uint32(len(vt.Data()))
-			br.room.setVideoSequenceHeader(vt)
-			br.room.GOP.WriteMeta(vt)
-			br.emittedVideoSeqHdr = true
+			c.rtmp.room.setVideoSequenceHeader(vt)
+			c.rtmp.room.GOP.WriteMeta(vt)
 		}
 	}
 	if len(pictureNALs) == 0 {
@@ -144,59 +176,60 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 	if au.Key {
 		frameType = libflv.KEY_FRAME
 	}
-	avcc := make([]byte, 0)
-	for _, n := range pictureNALs {
-		var sz [4]byte
-		binary.BigEndian.PutUint32(sz[:], uint32(len(n)))
-		avcc = append(avcc, sz[:]...)
-		avcc = append(avcc, n...)
-	}
-	tagTS := uint32(au.DTS / 90) //PTS/DTS in 90 kHz; FLV in ms
-	cts := uint32((au.PTS - au.DTS) / 90)
 	vt := &libflv.VideoTag{
-		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
+		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: uint32(dts)},
 		FrameType:     frameType,
 		CodecID:       libflv.FLV_VIDEO_AVC,
 		AVCPacketType: libflv.AVC_NALU,
-		Cts:           cts,
-		VideoData:     avcc,
+		Cts:           uint32(pts-dts) & 0xFFFFFF, //signed
+		VideoData:     librtsp.AVCCFromNALs(pictureNALs),
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if au.Key {
-		br.room.GOP.Reset()
+		c.rtmp.room.GOP.Reset()
 	}
-	br.room.GOP.Write(vt)
+	c.rtmp.room.GOP.Write(vt)
 }
 
 // onAudio converts an ADTS-prefixed AAC frame into one FLV audio tag.
-// The first frame triggers the sequence-header emission derived from
-// the ADTS profile/rate/channel fields.
-func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
+// The sequence header is derived from the ADTS profile/rate/channel fields,
+// and emitted when there is a new one.
+func (c *srtCaller) onAudio(af libsrt.AudioFrame) {
 	if len(af.Data) < 7 {
 		return
 	}
 	if af.Data[0] != 0xFF || (af.Data[1]&0xF0) != 0xF0 {
 		return //not ADTS — punt
 	}
-	profile := (af.Data[2] >> 6) & 0x03                              //2 bits
-	sampleIndex := (af.Data[2] >> 2) & 0x0F                          //4 bits
+	header := 7
+	if af.Data[1]&0x01 == 0 {
+		header = 9 //with a CRC
+	}
+	if len(af.Data) <= header {
+		return
+	}
+	tagTS := uint32(c.ms(af.PTS))
+	profile := (af.Data[2] >> 6) & 0x03     //2 bits
+	sampleIndex := (af.Data[2] >> 2) & 0x0F //4 bits
 	channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)
-	if !br.emittedAudioSeqHdr {
-		//AAC AudioSpecificConfig per ISO/IEC 14496-3:
-		//  5 bits profile (audio object type, ADTS profile + 1)
-		//  4 bits sampling frequency index
-		//  4 bits channel config
-		//  3 bits pad
-		objType := uint8(profile) + 1
-		var asc [2]byte
-		asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
-		asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
-		soundType := uint8(libflv.SND_STEREO)
-		if channels == 1 {
-			soundType = libflv.SND_MONO
-		}
+	soundType := uint8(libflv.SND_STEREO)
+	if channels == 1 {
+		soundType = libflv.SND_MONO
+	}
+
+	//AAC AudioSpecificConfig per ISO/IEC 14496-3:
+	//  5 bits profile (audio object type, ADTS profile + 1)
+	//  4 bits sampling frequency index
+	//  4 bits channel config
+	//  3 bits pad
+	objType := uint8(profile) + 1
+	var asc [2]byte
+	asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
+	asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
+	if !bytes.Equal(asc[:], c.audioHdr) {
+		c.audioHdr = asc[:]
 		seq := &libflv.AudioTag{
-			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: 0},
+			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: tagTS},
 			SoundFormat:   libflv.FLV_AUDIO_AAC,
 			SoundRate:     3,
 			SoundSize:     libflv.SND_16_BIT,
@@ -205,25 +238,20 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 			SoundData:     asc[:],
 		}
 		seq.DataSize = uint32(len(seq.Data()))
-		br.room.setAudioSequenceHeader(seq)
-		br.room.GOP.WriteMeta(seq)
-		br.emittedAudioSeqHdr = true
-	}
-	soundType := uint8(libflv.SND_STEREO)
-	if channels == 1 {
-		soundType = libflv.SND_MONO
+		c.rtmp.room.setAudioSequenceHeader(seq)
+		c.rtmp.room.GOP.WriteMeta(seq)
 	}
 	at := &libflv.AudioTag{
-		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(af.PTS / 90)},
+		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: tagTS},
 		SoundFormat:   libflv.FLV_AUDIO_AAC,
 		SoundRate:     3,
 		SoundSize:     libflv.SND_16_BIT,
 		SoundType:     soundType,
 		AACPacketType: libflv.AAC_RAW,
-		SoundData:     af.Data[7:], //strip 7-byte ADTS header
+		SoundData:     af.Data[header:], //strip the ADTS header
 	}
 	at.DataSize = uint32(len(at.Data()))
-	br.room.GOP.Write(at)
+	c.rtmp.room.GOP.Write(at)
 }
 
 // splitAnnexB walks an AnnexB-formatted byte stream and yields one
@@ -262,14 +290,11 @@ func splitAnnexB(buf []byte) [][]byte {
 				break
 			}
 		}
-		if end > nalStart {
-			out = append(out, buf[nalStart:end])
+		//Zeros may fill up the space before the next start code.
+		if nal := bytes.TrimRight(buf[nalStart:end], "\x00"); len(nal) > 0 {
+			out = append(out, nal)
 		}
 		i = end
 	}
 	return out
 }
-
-// silence the unused-time import in case the demuxer-feed path needs
-// time.Time later for stats.
-var _ = time.Now
diff --git a/libsrt/listener.go b/libsrt/listener.go
index 867c791..8bf11d9 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -1,11 +1,11 @@
 package libsrt
 
 import (
-	"fmt"
-	"hash/crc32"
-	"math/rand"
+	"crypto/rand"
+	"crypto/sha256"
+	"encoding/binary"
+	"errors"
 	"net"
-	"sync"
 	"time"
 )
 
@@ -21,37 +21,60 @@ import (
 type DataHandler func(streamID string, payload []byte) error
 
 // Listener owns one UDP socket and demultiplexes packets across many
-// SRT sessions keyed by (peer addr, our destSocketID). Sessions live
+// SRT sessions keyed by the peer's address. Sessions live
 // in memory until the peer Shuts down or stops sending for a while.
+//
+// Everything but Close happens on the goroutine that calls Run.
 type Listener struct {
-	conn       *net.UDPConn
-	streamID   string
-	onData     DataHandler
+	// OnSession, if set before Run, is called when a session begins. The
+	// session's payloads go to the returned handler instead of the one given
+	// to Listen; onClose is called when the session is over. Either may be
+	// nil.
+	OnSession func(streamID string) (onData DataHandler, onClose func())
+
+	conn     *net.UDPConn
+	streamID string
+	onData   DataHandler
 
-	mu       sync.Mutex
 	sessions map[string]*session
-	socketID uint32 //ours, monotonically incremented per accept
+	pending  int      //sessions without conclusion
+	socketID uint32   //ours, monotonically incremented per session
+	secret   [16]byte //what cookies are made from
+	ackDue   bool     //a session waits for its ACK
 }
 
+const (
+	//sessionTimeout is how long a silent peer keeps its session.
+	sessionTimeout = 10 * time.Second
+	//maxPending bounds the sessions of peers that only sent an induction.
+	maxPending = 1024
+	//ackInterval is how often an ACK is sent at most (SRT's recommended
+	//"Light ACK" interval).
+	ackInterval = 10 * time.Millisecond
+
+	seqMask = 1<<31 - 1
+
+	//srtMagic in an induction reply tells callers that version 5 is spoken.
+	srtMagic = 0x4A17
+)
+
 type session struct {
-	peerAddr      *net.UDPAddr
-	peerSocketID  uint32
-	ourSocketID   uint32
-	cookie        uint32
-	concluded     bool
-	startTime     time.Time
-	lastSeen      time.Time
-	streamID      string
-	expectedSeq   uint32
+	peerAddr     *net.UDPAddr
+	peerSocketID uint32
+	ourSocketID  uint32
+	concluded    bool
+	startTime    time.Time
+	lastSeen     time.Time
+	streamID     string
+	expectedSeq  uint32
+	onData       DataHandler
+	onClose      func()
 
-	// ACK / NAK bookkeeping. lastACKedSeq is the sequence number we
-	// last reported via an ACK; ackNum is the monotonically-incrementing
+	// ACK bookkeeping. ackNum is the monotonically-incrementing
 	// ACK serial for SRT's ACKACK round-trip estimation.
-	mu             sync.Mutex
-	lastACKedSeq   uint32
-	ackNum         uint32
-	lastACK        time.Time
-	receivedSeqs   uint64 //packets observed since session start (for receiving rate)
+	ackDue  bool
+	ackNum  uint32
+	lastACK time.Time
 }
 
 // Listen opens a UDP socket on addr and dispatches data packets via
@@ -63,16 +86,23 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 	if err != nil {
 		return nil, err
 	}
-	conn, err := net.ListenUDP("udp", uaddr)
-	if err != nil {
-		return nil, err
-	}
 	l := &Listener{
-		conn:     conn,
 		streamID: streamID,
 		onData:   onData,
 		sessions: map[string]*session{},
-		socketID: rand.Uint32() | 0x40000000, //bit 30 set so it doesn't look like 0
+	}
+	var id [4]byte
+	if _, err := rand.Read(l.secret[:]); err != nil {
+		return nil, err
+	}
+	if _, err := rand.Read(id[:]); err != nil {
+		return nil, err
+	}
+	//bit 30 set so it doesn't look like 0
+	l.socketID = binary.BigEndian.Uint32(id[:])&0x3FFFFFFF | 0x40000000
+	l.conn, err = net.ListenUDP("udp", uaddr)
+	if err != nil {
+		return nil, err
 	}
 	return l, nil
 }
@@ -80,16 +110,64 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 // Run drives the receive loop until the underlying socket closes.
 // Caller is responsible for invoking Close().
 func (l *Listener) Run() error {
-	buf := make([]byte, 1500)
+	defer func() {
+		for key := range l.sessions {
+			l.drop(key)
+		}
+	}()
+	buf := make([]byte, 65536)
+	next := time.Now()
 	for {
+		if now := time.Now(); !now.Before(next) {
+			l.tick(now)
+			next = now.Add(time.Second)
+		}
+		wake := next
+		if l.ackDue {
+			if soon := time.Now().Add(ackInterval); soon.Before(wake) {
+				wake = soon
+			}
+		}
+		if err := l.conn.SetReadDeadline(wake); err != nil {
+			return err
+		}
 		n, peer, err := l.conn.ReadFromUDP(buf)
 		if err != nil {
-			return err
+			var netErr net.Error
+			if !errors.As(err, &netErr) || !netErr.Timeout() {
+				return err
+			}
+			n = 0
 		}
-		if n < HeaderSize {
-			continue
+		if n >= HeaderSize {
+			l.handlePacket(peer, append([]byte(nil), buf[:n]...))
+		}
+		if l.ackDue {
+			l.sendACKs()
+		}
+	}
+}
+
+// tick ends the sessions of peers that went away without a word.
+func (l *Listener) tick(now time.Time) {
+	for key, sess := range l.sessions {
+		if now.Sub(sess.lastSeen) > sessionTimeout {
+			l.drop(key)
 		}
-		l.handlePacket(peer, append([]byte(nil), buf[:n]...))
+	}
+}
+
+// drop forgets a session.
+func (l *Listener) drop(key string) {
+	sess := l.sessions[key]
+	if sess == nil {
+		return
+	}
+	delete(l.sessions, key)
+	if !sess.concluded {
+		l.pending--
+	} else if sess.onClose != nil {
+		sess.onClose()
 	}
 }
 
@@ -105,37 +183,28 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 		return
 	}
 	key := peer.String()
-	l.mu.Lock()
 	sess := l.sessions[key]
-	l.mu.Unlock()
+	if sess != nil {
+		sess.lastSeen = time.Now()
+	}
 
 	switch hdr.Kind {
 	case KindControl:
 		switch hdr.ControlType {
 		case CtrlHandshake:
-			l.handleHandshake(peer, hdr, body)
+			l.handleHandshake(peer, body)
 		case CtrlShutdown:
-			if sess != nil {
-				l.mu.Lock()
-				delete(l.sessions, key)
-				l.mu.Unlock()
-			}
+			l.drop(key)
 		case CtrlKeepAlive:
 			if sess != nil {
-				sess.lastSeen = time.Now()
 				//Mirror the keepalive back per spec.
-				resp := make([]byte, HeaderSize)
-				MarshalControlHeader(resp, CtrlKeepAlive, 0, 0,
-					uint32(time.Since(sess.startTime).Microseconds()),
-					sess.peerSocketID)
-				_, _ = l.conn.WriteToUDP(resp, peer)
+				l.sendControl(sess, CtrlKeepAlive, 0, 0, nil)
 			}
 		}
 	case KindData:
 		if sess == nil || !sess.concluded {
 			return
 		}
-		sess.lastSeen = time.Now()
 		l.handleDataPacket(sess, hdr, body)
 	}
 }
@@ -147,128 +216,157 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 // over SRT tolerates the occasional skip better than an unbounded
 // jitter buffer.
 func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
-	sess.mu.Lock()
-	if sess.expectedSeq == 0 && sess.ackNum == 0 {
-		//First data packet — adopt its sequence as the baseline.
-		sess.expectedSeq = hdr.SeqNumber
-	}
+	sess.ackDue, l.ackDue = true, true
 	diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)
-	sess.receivedSeqs++
-
-	switch {
-	case diff < 0:
-		//Late retransmit — already delivered, drop quietly.
-		sess.mu.Unlock()
+	if diff < 0 {
+		//Late retransmit — already delivered or given up, drop quietly.
 		return
-	case diff > 0:
-		//Loss detected: gap is [expectedSeq, hdr.SeqNumber-1]. Emit a
+	}
+	from := sess.expectedSeq
+	sess.expectedSeq = (hdr.SeqNumber + 1) & seqMask
+	if diff > 0 {
+		//Loss detected: gap is [from, hdr.SeqNumber-1]. Emit a
 		//NAK so the sender can retransmit; either it arrives before we
 		//hand off media (benign) or we've already moved past it.
-		from := sess.expectedSeq
-		to := hdr.SeqNumber - 1
-		sess.expectedSeq = hdr.SeqNumber + 1
-		sess.mu.Unlock()
-		l.sendNAK(sess, from, to)
-	default:
-		sess.expectedSeq++
-		sess.mu.Unlock()
+		l.sendNAK(sess, from, (hdr.SeqNumber-1)&seqMask)
 	}
-	if l.onData != nil {
-		_ = l.onData(sess.streamID, body)
+	if sess.onData == nil {
+		return
+	}
+	if err := sess.onData(sess.streamID, body); err != nil {
+		//The application does not want this session (any more).
+		l.sendControl(sess, CtrlShutdown, 0, 0, nil)
+		l.drop(sess.peerAddr.String())
 	}
-	l.maybeSendACK(sess)
 }
 
 // sendNAK emits a single-range NAK loss-list.
 func (l *Listener) sendNAK(sess *session, from, to uint32) {
-	body := MarshalNAK([]LossRange{{From: from, To: to}})
-	l.sendControl(sess.peerAddr, CtrlNAK, 0, 0, sess, body)
+	l.sendControl(sess, CtrlNAK, 0, 0, MarshalNAK([]LossRange{{From: from, To: to}}))
 }
 
-// maybeSendACK emits an ACK at most every 10 ms (SRT's recommended
-// "Light ACK" interval) so the sender's send window can slide.
-func (l *Listener) maybeSendACK(sess *session) {
-	const ackInterval = 10 * time.Millisecond
-	sess.mu.Lock()
-	if time.Since(sess.lastACK) < ackInterval {
-		sess.mu.Unlock()
-		return
+// sendACKs emits the ACKs that are due, at most one every ackInterval per
+// session, so the senders' send windows can slide.
+func (l *Listener) sendACKs() {
+	l.ackDue = false
+	now := time.Now()
+	for _, sess := range l.sessions {
+		if !sess.ackDue {
+			continue
+		}
+		if now.Sub(sess.lastACK) < ackInterval {
+			l.ackDue = true
+			continue
+		}
+		sess.ackDue = false
+		sess.lastACK = now
+		sess.ackNum++
+		body := (&ACKBody{LastAckedSeq: sess.expectedSeq}).Marshal()
+		l.sendControl(sess, CtrlACK, 0, sess.ackNum, body)
+	}
+}
+
+// cookie returns what a peer has to echo in its conclusion. It depends on the
+// peer's address only, so that it need not be remembered.
+func (l *Listener) cookie(peer *net.UDPAddr) uint32 {
+	sum := sha256.Sum256(append(l.secret[:], peer.String()...))
+	return binary.BigEndian.Uint32(sum[:4]) | 1 //never 0
+}
+
+// newSession adds a session for peer that is not concluded yet.
+func (l *Listener) newSession(peer *net.UDPAddr) *session {
+	if l.pending >= maxPending {
+		oldest := ""
+		for key, sess := range l.sessions {
+			if !sess.concluded && (oldest == "" || sess.lastSeen.Before(l.sessions[oldest].lastSeen)) {
+				oldest = key
+			}
+		}
+		l.drop(oldest)
 	}
-	sess.lastACK = time.Now()
-	sess.ackNum++
-	ackNum := sess.ackNum
-	body := (&ACKBody{LastAckedSeq: sess.expectedSeq}).Marshal()
-	sess.mu.Unlock()
-	l.sendControl(sess.peerAddr, CtrlACK, 0, ackNum, sess, body)
+	now := time.Now()
+	sess := &session{
+		peerAddr:    peer,
+		ourSocketID: l.socketID,
+		startTime:   now,
+		lastSeen:    now,
+		streamID:    l.streamID,
+	}
+	l.socketID++
+	l.sessions[peer.String()] = sess
+	l.pending++
+	return sess
 }
 
 // handleHandshake walks the v5 induction → conclusion two-step. We
-// produce a per-session cookie at induction time and require the
+// hand out a cookie at induction time and require the
 // caller to echo it back in the conclusion.
-func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte) {
+func (l *Listener) handleHandshake(peer *net.UDPAddr, body []byte) {
 	hs, err := ParseHandshake(body)
 	if err != nil {
 		return
 	}
 	key := peer.String()
-
-	l.mu.Lock()
 	sess := l.sessions[key]
-	if sess == nil {
-		sess = &session{
-			peerAddr:     peer,
-			ourSocketID:  l.socketID,
-			startTime:    time.Now(),
-			streamID:     l.streamID,
-		}
-		l.socketID++
-		l.sessions[key] = sess
-	}
-	l.mu.Unlock()
 
 	switch hs.HandshakeType {
 	case HSTypeAgreement: //v5 INDUCTION
-		//Mint a cookie tied to the peer's socket id; the conclusion
-		//must echo it back. CRC32 is used as a cheap mixer; real SRT
-		//also includes a server start time and IP.
-		sess.peerSocketID = hs.SrtSocketID
-		sess.cookie = crc32.ChecksumIEEE(
-			[]byte(fmt.Sprintf("%s-%d-%d",
-				peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
-
+		switch {
+		case sess == nil:
+			sess = l.newSession(peer)
+			sess.peerSocketID = hs.SrtSocketID
+		case !sess.concluded:
+			sess.peerSocketID = hs.SrtSocketID
+		}
 		reply := *hs
+		reply.Version = srtVersion5
+		reply.ExtensionField = srtMagic
 		reply.HandshakeType = HSTypeAgreement
 		reply.SrtSocketID = sess.ourSocketID
-		reply.SyncCookie = sess.cookie
+		reply.SyncCookie = l.cookie(peer)
 
-		l.sendControl(peer, CtrlHandshake, 0, 0, sess, reply.Marshal())
+		//A caller that starts anew on the address of a session that has not
+		//ended is answered by its new socket id.
+		to := *sess
+		to.peerSocketID = hs.SrtSocketID
+		l.sendControl(&to, CtrlHandshake, 0, 0, reply.Marshal())
 
 	case HSTypeConclusion:
-		if hs.SyncCookie != sess.cookie {
+		if hs.SyncCookie != l.cookie(peer) {
 			//Wrong cookie — quietly drop. Real SRT rejects.
 			return
 		}
-		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence
-		sess.concluded = true
+		if sess != nil && sess.concluded && sess.peerSocketID != hs.SrtSocketID {
+			l.drop(key) //another caller now
+			sess = nil
+		}
+		if sess == nil {
+			sess = l.newSession(peer)
+		}
+		if !sess.concluded {
+			l.pending--
+			sess.concluded = true
+			sess.peerSocketID = hs.SrtSocketID
+			sess.expectedSeq = hs.InitialSequence & seqMask
+			sess.onData = l.onData
+			if l.OnSession != nil {
+				sess.onData, sess.onClose = l.OnSession(sess.streamID)
+			}
+		}
 
 		reply := *hs
+		reply.Version = srtVersion5
 		reply.HandshakeType = HSTypeConclusion
 		reply.SrtSocketID = sess.ourSocketID
 		reply.ExtensionField = 0 //no extensions in our reply
-		l.sendControl(peer, CtrlHandshake, 0, 0, sess, reply.Marshal())
+		l.sendControl(sess, CtrlHandshake, 0, 0, reply.Marshal())
 	}
 }
 
-func (l *Listener) sendControl(peer *net.UDPAddr, ct ControlType, sub uint16, typeInfo uint32, sess *session, body []byte) {
+func (l *Listener) sendControl(sess *session, ct ControlType, sub uint16, typeInfo uint32, body []byte) {
 	out := make([]byte, HeaderSize+len(body))
-	ts := uint32(0)
-	if sess != nil {
-		ts = uint32(time.Since(sess.startTime).Microseconds())
-		MarshalControlHeader(out, ct, sub, typeInfo, ts, sess.peerSocketID)
-	} else {
-		MarshalControlHeader(out, ct, sub, typeInfo, ts, 0)
-	}
+	ts := uint32(time.Since(sess.startTime).Microseconds())
+	MarshalControlHeader(out, ct, sub, typeInfo, ts, sess.peerSocketID)
 	copy(out[HeaderSize:], body)
-	_, _ = l.conn.WriteToUDP(out, peer)
+	_, _ = l.conn.WriteToUDP(out, sess.peerAddr)
 }
-- 
2.43.0


From 083d183eac7460b2ddc668413158395ac08d5cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 12/27] fix: WebSocket frames are written whole, limited in
 size, and close is answered

---
 librtmp/websocket.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7506a9b..b17a407 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -11,6 +11,8 @@ import (
 	"net"
 	"net/http"
 	"strings"
+	"sync"
+	"time"
 )
 
 // Minimal RFC 6455 server implementation. Covers exactly what flv.js
@@ -36,11 +38,17 @@ const (
 	wsOpPong         wsOpcode = 0xA
 )
 
+// wsMaxPayload bounds the frames taken from a client, which has nothing to
+// send but control frames.
+const wsMaxPayload = 64 << 10
+
 // wsConn is a thin server-side WebSocket connection. The caller owns
 // the underlying net.Conn lifetime.
 type wsConn struct {
-	conn net.Conn
-	br   *bufio.Reader
+	conn    net.Conn
+	br      *bufio.Reader
+	writeMu sync.Mutex //a frame is written in one go
+	closed  bool       //a close frame has been sent
 }
 
 // upgradeWebSocket performs the HTTP/1.1 Upgrade handshake against
@@ -49,13 +57,16 @@ type wsConn struct {
 // net.Conn.
 func upgradeWebSocket(w http.ResponseWriter, r *http.Request) (*wsConn, error) {
 	if !strings.EqualFold(r.Header.Get("Upgrade"), "websocket") {
+		w.WriteHeader(http.StatusBadRequest)
 		return nil, errors.New("not a websocket upgrade")
 	}
-	if !strings.Contains(strings.ToLower(r.Header.Get("Connection")), "upgrade") {
+	if !strings.Contains(strings.ToLower(strings.Join(r.Header["Connection"], ",")), "upgrade") {
+		w.WriteHeader(http.StatusBadRequest)
 		return nil, errors.New("missing Connection: Upgrade")
 	}
 	key := r.Header.Get("Sec-WebSocket-Key")
 	if key == "" {
+		w.WriteHeader(http.StatusBadRequest)
 		return nil, errors.New("missing Sec-WebSocket-Key")
 	}
 
@@ -109,13 +120,13 @@ func (ws *wsConn) writeFrame(op wsOpcode, payload []byte) error {
 		header = append(header, ln[:]...)
 	}
 
-	if _, err := ws.conn.Write(header); err != nil {
-		return err
-	}
-	if len(payload) == 0 {
-		return nil
+	ws.writeMu.Lock()
+	defer ws.writeMu.Unlock()
+	if ws.closed {
+		return errors.New("close frame already sent")
 	}
-	_, err := ws.conn.Write(payload)
+	ws.closed = op == wsOpClose
+	_, err := ws.conn.Write(append(header, payload...))
 	return err
 }
 
@@ -155,6 +166,9 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		}
 	}
 
+	if plen > wsMaxPayload || (op >= wsOpClose && plen > 125) {
+		return 0, nil, errors.New("frame too large")
+	}
 	payload := make([]byte, plen)
 	if _, err := io.ReadFull(ws.br, payload); err != nil {
 		return 0, nil, err
@@ -176,6 +190,8 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 // Close sends a close frame (best-effort) and tears down the TCP
 // connection.
 func (ws *wsConn) Close() error {
+	//whatever is being written to a client that does not read gives up
+	_ = ws.conn.SetWriteDeadline(time.Now().Add(time.Second))
 	_ = ws.writeFrame(wsOpClose, nil)
 	return ws.conn.Close()
 }
@@ -208,6 +224,14 @@ func (ws *wsConn) servePings(stop chan struct{}) {
 		case wsOpPing:
 			_ = ws.writeFrame(wsOpPong, payload)
 		case wsOpClose:
+			//echo the status code, if there is one
+			if len(payload) > 2 {
+				payload = payload[:2]
+			}
+			if len(payload) < 2 {
+				payload = nil
+			}
+			_ = ws.writeFrame(wsOpClose, payload)
 			close(stop)
 			return
 		}
-- 
2.43.0


From b0d2fbc174a282c9d222f502dd7170ba180d9d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 13/27] fix: RTMP messages of several chunk streams may
 interleave; bounded and checked control messages

---
 librtmp/chunk.go           | 40 ++++++++++++++++++++++++++++++--------
 librtmp/control_message.go | 38 ++++++++++++++++++++++++++++--------
 librtmp/message.go         | 32 ++++++++++++------------------
 3 files changed, 74 insertions(+), 36 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index c5e66c1..a6b6db6 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -2,7 +2,6 @@ package librtmp
 
 import (
 	"encoding/binary"
-	"fmt"
 
 	"github.com/pkg/errors"
 )
@@ -158,11 +157,12 @@ func parseChunkMessageHeader(rtmp *RTMP, basicHeader *ChunkBasicHeader, firstChu
 		}
 	}
 
-	fmt.Printf("[message] chunk fmt:%d, csid:%d, firstChuninMessage:%t, messageType:%d, timeStampDelta:%d, timeStamp:%d, ext:%t\n",
-		basicHeader.Fmt, basicHeader.CsID, firstChunkinMessage, cmhp.MessageType, cmhp.MessageTimeDelta, cmhp.MessageTimeStamp, cmhp.ExtendedTimestamp)
 	return cmhp, nil
 }
 
+// readPiece is how much of a chunk is read at once.
+const readPiece = 64 << 10
+
 type Chunk struct {
 	ChunkBasicHeader
 	ChunkMessageHeader
@@ -175,6 +175,17 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 		return nil, err
 	}
 
+	if message == nil {
+		if partial, ok := rtmp.partial[basicHeader.CsID]; ok {
+			if basicHeader.Fmt == FMT3 {
+				message = partial
+			} else {
+				//a new message; the rest of this one is not coming
+				delete(rtmp.partial, basicHeader.CsID)
+			}
+		}
+	}
+
 	messageHeader, err := parseChunkMessageHeader(rtmp, basicHeader, message == nil)
 	if err != nil {
 		return nil, err
@@ -189,10 +200,23 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 			chunkSize = remain
 		}
 	}
-	b := make([]byte, chunkSize)
-	err = rtmp.readerConn.ReadFull(b)
-	if err != nil {
-		return nil, err
+	//the size is the peer's word only; allocate as its bytes arrive
+	var b []byte
+	for remain := chunkSize; remain > 0; {
+		n := remain
+		if n > readPiece {
+			n = readPiece
+		}
+		piece, err := rtmp.readerConn.ReadN(n)
+		if err != nil {
+			return nil, err
+		}
+		if b == nil && n == chunkSize {
+			b = piece
+		} else {
+			b = append(b, piece...)
+		}
+		remain -= n
 	}
 	cp = &Chunk{
 		ChunkBasicHeader:   *basicHeader,
@@ -234,7 +258,7 @@ func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 	} else {
 		b = append(b, uint8(chunk.Fmt<<6)|uint8(0x01))
 		b = append(b, uint8(0), uint8(0))
-		binary.BigEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
+		binary.LittleEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
 	}
 
 	//For FMT0 we carry an absolute timestamp; for FMT1/FMT2 a delta.
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index a1dd3a2..f9209ee 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -40,18 +40,23 @@ func NewWindowAcknowledgeSizeMessage(mb MessageBase, fields ...interface{} /*win
 func (wasm *WindowAcknowledgeSizeMessage) Send() (err error) {
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, uint32(wasm.AcknowledgementWindowSize))
+	wasm.rtmp.writeMu.Lock()
+	defer wasm.rtmp.writeMu.Unlock()
 	return NewChunk(WINDOW_ACKNOWLEDGEMENT_SIZE, 4, wasm.messageTime, FMT0, csidProtocolControl, b).Send(wasm.rtmp)
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
+	if len(wasm.messagePayload) < 4 {
+		return fmt.Errorf("WindowAcknowledgeSize payload too short: %d", len(wasm.messagePayload))
+	}
 	wasm.AcknowledgementWindowSize = binary.BigEndian.Uint32(wasm.messagePayload)
-	fmt.Println("windowAcknowledgeSize:", wasm.AcknowledgementWindowSize)
 	return nil
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Do() (err error) {
 	//remember the peer's window so our Acknowledgement cadence matches.
 	wasm.rtmp.peerWindowAckSize = wasm.AcknowledgementWindowSize
+	wasm.rtmp.acknowledge()
 	return nil
 }
 
@@ -89,6 +94,8 @@ func (spbwm *SetPeerBandWidthMessage) Send() (err error) {
 	b := make([]byte, 5)
 	binary.BigEndian.PutUint32(b, spbwm.AcknowledgementWindowSize)
 	b[4] = byte(spbwm.LimitType)
+	spbwm.rtmp.writeMu.Lock()
+	defer spbwm.rtmp.writeMu.Unlock()
 	return NewChunk(SET_PEER_BANDWIDTH, 5, spbwm.messageTime, FMT0, csidPeerBandWidth, b).Send(spbwm.rtmp)
 }
 
@@ -98,8 +105,6 @@ func (spbwm *SetPeerBandWidthMessage) Parse() (err error) {
 	}
 	spbwm.AcknowledgementWindowSize = binary.BigEndian.Uint32(spbwm.messagePayload[:4])
 	spbwm.LimitType = LimitType(spbwm.messagePayload[4])
-	fmt.Println("peerBandWidth:", spbwm.AcknowledgementWindowSize)
-	fmt.Println("limitType:", spbwm.LimitType)
 	return nil
 }
 
@@ -180,6 +185,8 @@ func (ucm *UserControlMessage) Send() (err error) {
 	default:
 		return fmt.Errorf("unsupported user control event type: %d", ucm.EventType)
 	}
+	ucm.rtmp.writeMu.Lock()
+	defer ucm.rtmp.writeMu.Unlock()
 	return NewChunk(USER_CONTROL_MESSAGE, uint32(len(payload)), ucm.messageTime, FMT0, csidUserControl, payload).Send(ucm.rtmp)
 }
 
@@ -189,7 +196,6 @@ func (ucm *UserControlMessage) Parse() (err error) {
 	}
 	ucm.EventType = EventType(binary.BigEndian.Uint16(ucm.messagePayload[0:2]))
 	ucm.EventData = ucm.messagePayload[2:]
-	fmt.Println("----------ucm.EventType:", ucm.EventType)
 	return nil
 }
 
@@ -228,12 +234,23 @@ func NewSetChunkSizeMessage(mb MessageBase, fields ...interface{} /*NewChunkSize
 func (scsm *SetChunkSizeMessage) Send() error {
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, uint32(scsm.NewChunkSize))
-	return NewChunk(SET_CHUNK_SIZE, 4, scsm.messageTime, FMT0, csidProtocolControl, b).Send(scsm.rtmp)
+	scsm.rtmp.writeMu.Lock()
+	defer scsm.rtmp.writeMu.Unlock()
+	if err := NewChunk(SET_CHUNK_SIZE, 4, scsm.messageTime, FMT0, csidProtocolControl, b).Send(scsm.rtmp); err != nil {
+		return err
+	}
+	scsm.rtmp.ownMaxChunkSize = int(scsm.NewChunkSize)
+	return nil
 }
 
 func (scsm *SetChunkSizeMessage) Parse() (err error) {
+	if len(scsm.messagePayload) < 4 {
+		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
+	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
-	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
+	if scsm.NewChunkSize == 0 || scsm.NewChunkSize > 0x7FFFFFFF {
+		return fmt.Errorf("invalid chunk size: %d", scsm.NewChunkSize)
+	}
 	return nil
 }
 
@@ -265,6 +282,8 @@ func NewAbortMessage(mb MessageBase, fields ...interface{} /*ChunkStreamID uint3
 func (am *AbortMessage) Send() error {
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, am.ChunkStreamID)
+	am.rtmp.writeMu.Lock()
+	defer am.rtmp.writeMu.Unlock()
 	return NewChunk(ABORT_MESSAGE, 4, am.messageTime, FMT0, csidProtocolControl, b).Send(am.rtmp)
 }
 
@@ -278,8 +297,9 @@ func (am *AbortMessage) Parse() (err error) {
 
 func (am *AbortMessage) Do() error {
 	//Drop any partial message on the indicated chunk stream so the next
-	//chunk on that CSID starts a fresh message.
-	delete(am.rtmp.lastChunk, am.ChunkStreamID)
+	//chunk on that CSID starts a fresh message. Its header still is what
+	//later chunks refer to.
+	delete(am.rtmp.partial, am.ChunkStreamID)
 	return nil
 }
 
@@ -306,6 +326,8 @@ func NewAcknowledgeMessage(mb MessageBase, fields ...interface{} /*SequenceNumbe
 func (am *AcknowledgeMessage) Send() error {
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, am.SequenceNumber)
+	am.rtmp.writeMu.Lock()
+	defer am.rtmp.writeMu.Unlock()
 	return NewChunk(ACKNOWLEDGEMENT, 4, am.messageTime, FMT0, csidProtocolControl, b).Send(am.rtmp)
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index f9d56a3..c36a07c 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -1,10 +1,7 @@
 package librtmp
 
 import (
-	"fmt"
-
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/pkg/errors"
 )
 
@@ -115,13 +112,14 @@ func ParseMessage(rtmp *RTMP) (err error) {
 	var chunk *Chunk
 	var message Message
 
-	//read message payload from many chunks
+	//read chunks, of any number of chunk streams, until one completes a message
 	for {
-		chunk, err = ParseChunk(rtmp, message)
+		chunk, err = ParseChunk(rtmp, nil)
 		if err != nil {
 			return err
 		}
 
+		message = rtmp.partial[chunk.CsID]
 		if message == nil {
 			mb := MessageBase{
 				rtmp:            rtmp,
@@ -130,7 +128,6 @@ func ParseMessage(rtmp *RTMP) (err error) {
 				messageType:     chunk.MessageType,
 				messageStreamID: chunk.MessageStreamID,
 				amf:             libamf.AMF0,
-				messagePayload:  make([]byte, 0, chunk.MessageLength),
 			}
 
 			switch chunk.MessageType {
@@ -179,29 +176,24 @@ func ParseMessage(rtmp *RTMP) (err error) {
 			default:
 				return errors.New("invalid message type")
 			}
-		} else {
-			message.Update(chunk.MessageTimeStamp)
 		}
 
 		message.Append(chunk)
+		chunk.Payload = nil //the message has it
 		if message.Done() {
+			delete(rtmp.partial, chunk.CsID)
 			break
 		}
-	}
-
-	//Track inbound bytes so we can send Window Acknowledgement messages
-	//on schedule. The sequence number is the cumulative count received.
-	rtmp.bytesReceived += message.GetInfo().messageLength
-	if rtmp.peerWindowAckSize > 0 && rtmp.bytesReceived-rtmp.lastAcked >= rtmp.peerWindowAckSize {
-		ack := NewAcknowledgeMessage(MessageBase{rtmp: rtmp}, rtmp.bytesReceived)
-		if sendErr := ack.Send(); sendErr == nil {
-			rtmp.lastAcked = rtmp.bytesReceived
-		} else {
-			fmt.Println("send acknowledgement error:", sendErr)
+		if rtmp.partial == nil {
+			rtmp.partial = make(map[uint32]Message)
 		}
+		rtmp.partial[chunk.CsID] = message
 	}
 
-	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
-- 
2.43.0


From 94efb5334adb14c7499cfc6016136a7577e32b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 14/27] fix: RTSP sessions release what they hold, follow the
 state machine, carry current parameter sets and right clocks

---
 librtmp/rtsp_ingest.go | 277 +++++++++---------
 librtmp/rtsp_server.go | 622 +++++++++++++++++++++++++----------------
 2 files changed, 514 insertions(+), 385 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 0869d36..144d6f9 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -1,11 +1,12 @@
 package librtmp
 
 import (
-	"encoding/binary"
-	"fmt"
+	"bytes"
 	"net"
 	"strings"
+	"sync"
 	"sync/atomic"
+	"time"
 
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
@@ -18,10 +19,38 @@ type rtspIngest struct {
 	parsed  *librtsp.ParsedSDP
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
-	videoRA *librtsp.H264Reassembler
-	//Audio re-assembly is per-packet (every packet is one+ frame), so
-	//no per-publisher state is needed — we just decode each RTP
-	//payload via librtsp.AACAUExtract.
+
+	mu        sync.Mutex //packets arrive on several goroutines in UDP mode
+	videoRA   librtsp.H264Reassembler
+	audioRA   librtsp.AACReassembler
+	start     time.Time //of the first packet
+	videoTime rtpClock
+	audioTime rtpClock
+	sps, pps  []byte //in the video sequence header sent last
+}
+
+// rtpClock turns the RTP timestamps of a track, which start anywhere and wrap,
+// into milliseconds.
+type rtpClock struct {
+	started bool
+	last    uint32
+	ticks   int64
+	base    int64 //ms
+}
+
+// ms returns the time of ts. The first timestamp of a track corresponds to now.
+func (c *rtpClock) ms(ts uint32, rate int, now time.Duration) uint32 {
+	if !c.started {
+		c.started, c.last = true, ts
+		c.base = now.Milliseconds()
+	}
+	c.ticks += int64(int32(ts - c.last))
+	c.last = ts
+	ms := c.base + c.ticks*1000/int64(rate)
+	if ms < 0 {
+		ms = 0
+	}
+	return uint32(ms)
 }
 
 // handleAnnounce picks up an SDP body the publisher just pushed,
@@ -29,6 +58,9 @@ type rtspIngest struct {
 // downstream protocols (HTTP-FLV / HLS / DASH / RTSP PLAY) can mirror
 // the stream.
 func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if s.ingest != nil || s.reader != nil || s.setUp() {
+		return notValidInState(resp)
+	}
 	app, room := parseRTSPURL(req.URL)
 	if app == "" || room == "" {
 		resp.StatusCode = 400
@@ -41,11 +73,6 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	if a.Load(room) != nil {
-		resp.StatusCode = 461
-		resp.Reason = "Stream Already Publishing"
-		return resp
-	}
 
 	parsed, err := librtsp.ParseSDP(req.Body)
 	if err != nil {
@@ -53,6 +80,12 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Bad SDP: " + err.Error()
 		return resp
 	}
+	if !(parsed.HasVideo && !parsed.IsHEVC) && !(parsed.HasAudio && !parsed.IsOpus) {
+		//Nothing we could depacketise.
+		resp.StatusCode = 415
+		resp.Reason = "Unsupported Media Type"
+		return resp
+	}
 
 	//Build a synthetic RTMP "pseudo-publisher" so the room cleanup
 	//path (Room.Close on TCP disconnect) works the same as for real
@@ -60,18 +93,18 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	rtmp := &RTMP{
 		peer:   s.conn.RemoteAddr().String(),
 		server: s.server,
-		role:   rolePublisher,
-		app:    app,
 	}
-	rtmp.room = NewRoom(rtmp, room)
-	a.Store(room, rtmp.room)
+	if !rtmp.startPublish(a, room) {
+		resp.StatusCode = 461
+		resp.Reason = "Stream Already Publishing"
+		return resp
+	}
 
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
 		parsed:  parsed,
 		videoCh: -1,
 		audioCh: -1,
-		videoRA: &librtsp.H264Reassembler{},
 	}
 	s.publishRTMP = rtmp
 
@@ -79,20 +112,10 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	//that join before any media tag arrives still receive the decoder
 	//config. We synthesize libflv tags (TimeStamp 0) that mirror what
 	//an RTMP publisher would have written.
-	if parsed.HasVideo && len(parsed.SPS) > 0 && len(parsed.PPS) > 0 {
-		seqHdr := buildAVCSequenceHeader(parsed.SPS, parsed.PPS)
-		vt := &libflv.VideoTag{
-			TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
-			FrameType:     libflv.KEY_FRAME,
-			CodecID:       libflv.FLV_VIDEO_AVC,
-			AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
-			VideoData:     seqHdr,
-		}
-		vt.DataSize = uint32(len(vt.Data()))
-		rtmp.room.setVideoSequenceHeader(vt)
-		rtmp.room.GOP.WriteMeta(vt)
+	if parsed.HasVideo && !parsed.IsHEVC {
+		s.setParameterSets(parsed.SPS, parsed.PPS, 0)
 	}
-	if parsed.HasAudio && len(parsed.AudioConfig) >= 2 {
+	if parsed.HasAudio && !parsed.IsOpus && len(parsed.AudioConfig) >= 2 {
 		soundRate := uint8(3) //AAC always advertises 44.1 kHz in the FLV header
 		soundType := uint8(libflv.SND_STEREO)
 		if parsed.AudioChans == 1 {
@@ -114,111 +137,61 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	return resp
 }
 
-// handleRecord starts the RTP-receive loop. The loop reads $-prefixed
-// interleaved frames off the RTSP TCP connection until EOF, parses the
-// embedded RTP packets, and forwards reassembled access units into
-// the room's GOP broadcast.
-func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.publishRTMP == nil || s.ingest == nil {
-		resp.StatusCode = 455
-		resp.Reason = "Method Not Valid In This State"
-		return resp
+// setParameterSets emits the video sequence header for the given SPS and PPS,
+// unless it is the one emitted last.
+func (s *rtspSession) setParameterSets(sps, pps []byte, timestamp uint32) {
+	if len(sps) < 4 || len(pps) == 0 ||
+		bytes.Equal(sps, s.ingest.sps) && bytes.Equal(pps, s.ingest.pps) {
+		return
 	}
-	resp.Headers.Set("Session", s.sessionID)
-
-	//Send the 200 OK first, then enter the ingest loop. Returning nil
-	//tells dispatch's caller "you take it from here" — the run() loop
-	//calls writeResponse but then we hijack and read interleaved
-	//frames forever.
-	if err := s.writeResponse(resp); err != nil {
-		return nil
+	s.ingest.sps, s.ingest.pps = sps, pps
+	vt := &libflv.VideoTag{
+		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: timestamp},
+		FrameType:     libflv.KEY_FRAME,
+		CodecID:       libflv.FLV_VIDEO_AVC,
+		AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
+		VideoData:     buildAVCSequenceHeader(sps, pps),
 	}
-	atomic.StoreInt32(&s.recording, 1)
-	s.runIngestLoop()
-	return nil
+	vt.DataSize = uint32(len(vt.Data()))
+	s.publishRTMP.room.setVideoSequenceHeader(vt)
+	s.publishRTMP.room.GOP.WriteMeta(vt)
 }
 
-// runIngestLoop reads RTP packets off whichever transport(s) the
-// client negotiated in SETUP — TCP-interleaved $-frames, UDP, or both.
-// UDP tracks each get their own read goroutine; the TCP control loop
-// concurrently handles GET_PARAMETER / TEARDOWN / etc.
-func (s *rtspSession) runIngestLoop() {
-	defer atomic.StoreInt32(&s.recording, 0)
-	defer func() {
-		if s.publishRTMP != nil {
-			s.publishRTMP.cleanup()
-		}
-		if s.videoUDP != nil {
-			_ = s.videoUDP.Close()
-		}
-		if s.audioUDP != nil {
-			_ = s.audioUDP.Close()
-		}
-		if s.videoUDPRTCP != nil {
-			_ = s.videoUDPRTCP.Close()
-		}
-		if s.audioUDPRTCP != nil {
-			_ = s.audioUDPRTCP.Close()
-		}
-	}()
-
-	//Spawn a UDP reader per track that was set up in UDP mode.
+// handleRecord starts taking the media. Each UDP track gets its own read
+// goroutine; interleaved frames come with the requests (see run).
+func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if s.publishRTMP == nil || s.ingest == nil || !s.setUp() {
+		return notValidInState(resp)
+	}
+	resp.Headers.Set("Session", s.sessionID)
+	if !atomic.CompareAndSwapInt32(&s.recording, 0, 1) {
+		return resp
+	}
 	if s.videoUDP != nil {
+		s.udpReaders.Add(1)
 		go s.runUDPReader(s.videoUDP, false)
 	}
 	if s.audioUDP != nil {
+		s.udpReaders.Add(1)
 		go s.runUDPReader(s.audioUDP, true)
 	}
-
-	//Some clients (FFmpeg notably) send periodic GET_PARAMETER pings
-	//interleaved with media. Detect "$" framing vs the start of an
-	//RTSP keyword by peek-and-dispatch.
-	for {
-		first, err := s.br.ReadByte()
-		if err != nil {
-			return
-		}
-		if first != '$' {
-			//Push the byte back and parse as an RTSP request.
-			if err := s.br.UnreadByte(); err != nil {
-				return
-			}
-			req, err := librtsp.ReadRequest(s.br)
-			if err != nil {
-				return
-			}
-			resp := s.dispatch(req)
-			if resp == nil {
-				return
-			}
-			if err := s.writeResponse(resp); err != nil {
-				return
-			}
-			continue
-		}
-		hdr := make([]byte, 3)
-		if _, err := s.br.Read(hdr); err != nil {
-			return
-		}
-		ch := hdr[0]
-		ln := int(binary.BigEndian.Uint16(hdr[1:3]))
-		body := make([]byte, ln)
-		if _, err := s.br.Read(body); err != nil {
-			return
-		}
-		s.handleInterleaved(ch, body)
-	}
+	return resp
 }
 
-// runUDPReader pumps RTP packets off a per-track UDP socket. isAudio
-// distinguishes the two depacketisation paths.
+// runUDPReader pumps RTP packets off a per-track UDP socket until it is
+// closed. isAudio distinguishes the two depacketisation paths.
 func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
-	buf := make([]byte, 1500)
+	defer s.udpReaders.Done()
+	peer := s.peerHostIP()
+	buf := make([]byte, 65536)
 	for atomic.LoadInt32(&s.recording) == 1 {
-		n, _, err := c.ReadFromUDP(buf)
+		n, addr, err := c.ReadFromUDP(buf)
 		if err != nil {
 			return
 		}
+		if !addr.IP.Equal(peer) {
+			continue //not from the publisher
+		}
 		pkt, perr := librtsp.ParseRTP(append([]byte(nil), buf[:n]...))
 		if perr != nil {
 			continue
@@ -246,17 +219,45 @@ func (s *rtspSession) handleInterleaved(channel uint8, payload []byte) {
 	}
 }
 
+// sinceStart returns the time since the first packet of the session.
+func (in *rtspIngest) sinceStart() time.Duration {
+	if in.start.IsZero() {
+		in.start = time.Now()
+	}
+	return time.Since(in.start)
+}
+
 func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
-	nals, ts := s.ingest.videoRA.Push(pkt)
-	if len(nals) == 0 {
+	if pkt.PayloadType != s.ingest.parsed.VideoPayloadType {
 		return
 	}
+	s.ingest.mu.Lock()
+	defer s.ingest.mu.Unlock()
+	now := s.ingest.sinceStart()
+	for nals, ts := s.ingest.videoRA.Push(pkt); len(nals) > 0; nals, ts = s.ingest.videoRA.Next() {
+		s.publishVideo(nals, s.ingest.videoTime.ms(ts, 90000, now))
+	}
+}
+
+// publishVideo forwards one access unit.
+func (s *rtspSession) publishVideo(nals [][]byte, tagTS uint32) {
+	//Parameter sets may also come, or change, in-band.
+	sps, pps := s.ingest.sps, s.ingest.pps
+	for _, nal := range nals {
+		switch nal[0] & 0x1F {
+		case 7:
+			sps = nal
+		case 8:
+			pps = nal
+		}
+	}
+	s.setParameterSets(sps, pps, tagTS)
+
 	avcc := librtsp.AVCCFromNALs(nals)
 	frameType := uint8(libflv.INTER_FRAME)
 	if librtsp.ContainsKeyframe(nals) {
 		frameType = libflv.KEY_FRAME
 	}
-	tagTS := ts / 90 //RTP video clock is 90 kHz; FLV tags are ms
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -271,14 +272,23 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	s.publishRTMP.room.GOP.Write(vt)
 }
 
+// aacFrameSamples is the duration of an AAC frame.
+const aacFrameSamples = 1024
+
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
-	frames := librtsp.AACAUExtract(pkt.Payload)
+	if pkt.PayloadType != s.ingest.parsed.AudioPayloadType {
+		return
+	}
+	s.ingest.mu.Lock()
+	defer s.ingest.mu.Unlock()
+	now := s.ingest.sinceStart()
 	rate := s.ingest.parsed.AudioRate
 	if rate <= 0 {
 		rate = 44100
 	}
-	for _, frame := range frames {
-		tagTS := uint32(uint64(pkt.Timestamp) * 1000 / uint64(rate))
+	for i, frame := range s.ingest.audioRA.Push(pkt) {
+		//The timestamp is that of the first frame in the packet.
+		tagTS := s.ingest.audioTime.ms(pkt.Timestamp+uint32(i*aacFrameSamples), rate, now)
 		soundType := uint8(libflv.SND_STEREO)
 		if s.ingest.parsed.AudioChans == 1 {
 			soundType = libflv.SND_MONO
@@ -332,26 +342,19 @@ func trackPathMatches(setupURL, control string) bool {
 	if strings.Contains(control, "://") {
 		return strings.EqualFold(url, control)
 	}
+	control = "/" + strings.TrimPrefix(control, "/")
 	return strings.HasSuffix(strings.ToLower(url), strings.ToLower(control))
 }
 
-// notifyIngestSetup records which interleave channel a track will
-// arrive on so handleInterleaved can dispatch correctly. Returns false
-// when the URL doesn't match any advertised track.
-func (s *rtspSession) notifyIngestSetup(setupURL string, rtpCh int) (audio bool, ok bool) {
-	if s.ingest == nil {
-		return false, false
-	}
-	if s.ingest.parsed.HasVideo && trackPathMatches(setupURL, s.ingest.parsed.VideoControl) {
-		s.ingest.videoCh = rtpCh
+// matchIngestTrack returns the announced track a SETUP URL names. ok is false
+// when there is none, or none whose media we could take.
+func (s *rtspSession) matchIngestTrack(setupURL string) (audio bool, ok bool) {
+	p := s.ingest.parsed
+	if p.HasVideo && !p.IsHEVC && trackPathMatches(setupURL, p.VideoControl) {
 		return false, true
 	}
-	if s.ingest.parsed.HasAudio && trackPathMatches(setupURL, s.ingest.parsed.AudioControl) {
-		s.ingest.audioCh = rtpCh
+	if p.HasAudio && !p.IsOpus && trackPathMatches(setupURL, p.AudioControl) {
 		return true, true
 	}
 	return false, false
 }
-
-// silence error from importing fmt only sometimes.
-var _ = fmt.Sprintf
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 53edd91..bf3618b 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -2,6 +2,7 @@ package librtmp
 
 import (
 	"bufio"
+	"encoding/binary"
 	"fmt"
 	"io"
 	"net"
@@ -11,7 +12,7 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
+	"github.com/sbraveyoung/GGmpeg/libaac"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
@@ -32,6 +33,8 @@ type rtspSession struct {
 	app        string
 	streamID   string
 	playing    int32 //atomic — 0 idle, 1 playing
+	reader     *gopReader    //set by PLAY
+	streamDone chan struct{} //set once the media of PLAY is being sent
 	recording  int32 //atomic — 0 idle, 1 receiving from publisher
 	wmu        sync.Mutex //serialise writes to conn (PLAY goroutine + replies)
 
@@ -46,6 +49,14 @@ type rtspSession struct {
 	videoRTP  *librtsp.RTPPacker
 	audioRTP  *librtsp.RTPPacker
 
+	// What the media of PLAY needs to be packetised: the RTP clock the SDP
+	// promised for audio, its time so far in ms without the wrap, and the
+	// parameter sets in force.
+	audioRate   int
+	audioTime   int64
+	audioTimed  bool
+	videoParams [][]byte
+
 	// UDP transport per RFC 2326 §10.12 alternative form. videoUDP /
 	// audioUDP are the server-side sockets we listen on; peerVideoRTP
 	// / peerAudioRTP are the addresses the SETUP client_port tells us
@@ -62,6 +73,7 @@ type rtspSession struct {
 	// ANNOUNCE; handleRecord enters the RTP receive loop.
 	ingest      *rtspIngest
 	publishRTMP *RTMP
+	udpReaders  sync.WaitGroup
 }
 
 func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
@@ -80,11 +92,26 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 }
 
 // run is the per-connection event loop: parse a request, dispatch it,
-// flush a response. Runs until either side closes the TCP connection
-// or PLAY's goroutine reports a write failure.
+// flush a response. $-prefixed interleaved frames may come at any time: they
+// are the media of a publisher, and a player's RTCP, which is skipped. Runs
+// until either side closes the TCP connection or the stream played ends.
 func (s *rtspSession) run() {
-	defer s.conn.Close()
+	defer s.cleanup()
 	for {
+		first, err := s.br.Peek(1)
+		if err != nil {
+			return
+		}
+		if first[0] == '$' {
+			channel, payload, err := readInterleaved(s.br)
+			if err != nil {
+				return
+			}
+			if atomic.LoadInt32(&s.recording) == 1 {
+				s.handleInterleaved(channel, payload)
+			}
+			continue
+		}
 		req, err := librtsp.ReadRequest(s.br)
 		if err != nil {
 			if err != io.EOF {
@@ -96,12 +123,50 @@ func (s *rtspSession) run() {
 		if resp == nil {
 			return
 		}
-		s.wmu.Lock()
-		_, werr := s.conn.Write(resp.Bytes())
-		s.wmu.Unlock()
-		if werr != nil {
+		if err := s.writeResponse(resp); err != nil {
 			return
 		}
+		if s.reader != nil && s.streamDone == nil {
+			s.streamDone = make(chan struct{})
+			go s.streamLoop()
+		}
+	}
+}
+
+// readInterleaved reads one $-prefixed frame.
+func readInterleaved(br *bufio.Reader) (channel uint8, payload []byte, err error) {
+	var hdr [4]byte
+	if _, err = io.ReadFull(br, hdr[:]); err != nil {
+		return 0, nil, err
+	}
+	payload = make([]byte, binary.BigEndian.Uint16(hdr[2:]))
+	_, err = io.ReadFull(br, payload)
+	return hdr[1], payload, err
+}
+
+// cleanup releases everything the session owned.
+func (s *rtspSession) cleanup() {
+	_ = s.conn.Close()
+	atomic.StoreInt32(&s.playing, 0)
+	atomic.StoreInt32(&s.recording, 0)
+	if s.reader != nil {
+		s.reader.Close()
+	}
+	if s.streamDone != nil {
+		<-s.streamDone
+	}
+	closeUDP(s.videoUDP, s.videoUDPRTCP, s.audioUDP, s.audioUDPRTCP)
+	s.udpReaders.Wait()
+	if s.publishRTMP != nil {
+		s.publishRTMP.endPublish()
+	}
+}
+
+func closeUDP(socks ...*net.UDPConn) {
+	for _, c := range socks {
+		if c != nil {
+			_ = c.Close()
+		}
 	}
 }
 
@@ -131,7 +196,6 @@ func (s *rtspSession) dispatch(req *librtsp.Request) *librtsp.Response {
 	case "RECORD":
 		return s.handleRecord(req, resp)
 	case "TEARDOWN":
-		atomic.StoreInt32(&s.playing, 0)
 		resp.Headers.Set("Connection", "close")
 		_ = s.writeResponse(resp)
 		return nil
@@ -151,48 +215,69 @@ func (s *rtspSession) writeResponse(resp *librtsp.Response) error {
 	return err
 }
 
-// handleDescribe builds an SDP for the requested room. Refuses with
-// 503 (Service Unavailable) until both AVC and AAC sequence headers
-// have been observed — without them the SDP would be unplayable.
-func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	app, room := parseRTSPURL(req.URL)
-	if app == "" || room == "" {
+// lookupRoom returns the stream a request is about; if there is none, resp
+// says so.
+func (s *rtspSession) lookupRoom(app, streamID string, resp *librtsp.Response) *Room {
+	if app == "" || streamID == "" {
 		resp.StatusCode = 400
 		resp.Reason = "Bad Request"
-		return resp
+		return nil
 	}
-	a, ok := s.server.apps[app]
-	if !ok {
-		resp.StatusCode = 404
-		resp.Reason = "Not Found"
-		return resp
+	if a, ok := s.server.apps[app]; ok {
+		if room := a.Load(streamID); room != nil {
+			return room
+		}
 	}
-	rm := a.Load(room)
+	resp.StatusCode = 404
+	resp.Reason = "Not Found"
+	return nil
+}
+
+func notValidInState(resp *librtsp.Response) *librtsp.Response {
+	resp.StatusCode = 455
+	resp.Reason = "Method Not Valid In This State"
+	return resp
+}
+
+// handleDescribe builds an SDP for the requested room. Refuses with
+// 503 (Service Unavailable) until a sequence header of a codec RTSP can carry
+// has been observed — without one the SDP would be unplayable.
+func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	app, streamID := parseRTSPURL(req.URL)
+	rm := s.lookupRoom(app, streamID, resp)
 	if rm == nil {
-		resp.StatusCode = 404
-		resp.Reason = "Not Found"
 		return resp
 	}
-	s.app, s.streamID = app, room
-
-	sdp := buildSDPFromRoom(rm)
-	if sdp == nil {
+	p := sdpParamsFromRoom(rm)
+	if p == nil {
 		resp.StatusCode = 503
 		resp.Reason = "Service Unavailable"
 		resp.Headers.Set("Retry-After", "1")
 		return resp
 	}
+	if !s.setUp() {
+		s.app, s.streamID = app, streamID
+		s.audioRate = p.AudioRate
+	}
 	resp.Headers.Set("Content-Type", "application/sdp")
-	resp.Headers.Set("Content-Base", req.URL+"/")
-	resp.Body = sdp
+	resp.Headers.Set("Content-Base", strings.TrimSuffix(req.URL, "/")+"/")
+	resp.Body = librtsp.BuildSDP(*p)
 	return resp
 }
 
+// setUp reports whether a track has been set up.
+func (s *rtspSession) setUp() bool {
+	return s.videoChan >= 0 || s.audioChan >= 0 || s.videoUDP != nil || s.audioUDP != nil
+}
+
 // handleSetup parses the client's Transport and prepares either an
 // interleaved-TCP channel pair or a UDP socket pair. The chosen mode
 // is recorded on the session so subsequent PLAY / RECORD send paths
 // know which transport to use.
 func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if s.reader != nil || atomic.LoadInt32(&s.recording) == 1 {
+		return notValidInState(resp)
+	}
 	transport := req.Headers.Get("transport")
 	useUDP := strings.Contains(transport, "RTP/AVP") &&
 		!strings.Contains(transport, "RTP/AVP/TCP")
@@ -225,63 +310,83 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 			resp.Reason = "Bad Request"
 			return resp
 		}
-		var err error
-		udpSocks, srvRTPPort, srvRTCPPort, err = openUDPPair()
-		if err != nil {
-			resp.StatusCode = 500
-			resp.Reason = "Internal Server Error"
-			return resp
-		}
 	}
 
 	//Two SETUP shapes:
-	//  - playback: client called DESCRIBE first; we use our own
-	//    /trackID=0 (video) and /trackID=1 (audio) suffixes.
+	//  - playback: our own /trackID=0 (video) and /trackID=1 (audio)
+	//    suffixes of the URL of the stream.
 	//  - ingest:   client did ANNOUNCE first and the SDP carried
 	//    arbitrary control= URLs; rtspIngest knows how to match.
 	isAudio := false
 	if s.ingest != nil {
 		var ok bool
-		isAudio, ok = s.notifyIngestSetup(req.URL, rtpCh)
+		isAudio, ok = s.matchIngestTrack(req.URL)
 		if !ok {
 			resp.StatusCode = 404
 			resp.Reason = "Not Found"
 			return resp
 		}
 	} else {
+		app, streamID := parseRTSPURL(req.URL)
+		rm := s.lookupRoom(app, streamID, resp)
+		if rm == nil {
+			return resp
+		}
 		track := strings.ToLower(strings.TrimRight(req.URL, "/"))
-		switch {
-		case strings.HasSuffix(track, "/trackid=0"):
-			s.videoChan = rtpCh
-			s.videoRTP = librtsp.NewRTPPacker(96, s.videoSSRC)
-			isAudio = false
-		case strings.HasSuffix(track, "/trackid=1"):
-			s.audioChan = rtpCh
-			s.audioRTP = librtsp.NewRTPPacker(97, s.audioSSRC)
-			isAudio = true
-		default:
+		isAudio = strings.HasSuffix(track, "/trackid=1")
+		p := sdpParamsFromRoom(rm)
+		if p == nil || !isAudio && !(p.HasVideo && strings.HasSuffix(track, "/trackid=0")) ||
+			isAudio && !p.HasAudio {
 			resp.StatusCode = 404
 			resp.Reason = "Not Found"
 			return resp
 		}
+		if app != s.app || streamID != s.streamID {
+			if s.setUp() {
+				resp.StatusCode = 459
+				resp.Reason = "Aggregate Operation Not Allowed"
+				return resp
+			}
+			s.app, s.streamID, s.audioRate = app, streamID, 0
+		}
+		if s.audioRate == 0 {
+			s.audioRate = p.AudioRate
+		}
 	}
 
-	//Wire up UDP sockets to the per-track slot so PLAY / RECORD
-	//goroutines can find them later.
 	if useUDP {
-		clientHost := s.peerHostIP()
-		rtpPeer := &net.UDPAddr{IP: clientHost, Port: clientRTPPort}
-		if isAudio {
-			s.audioUDP = udpSocks[0]
-			s.audioUDPRTCP = udpSocks[1]
-			s.peerAudioRTP = rtpPeer
-		} else {
-			s.videoUDP = udpSocks[0]
-			s.videoUDPRTCP = udpSocks[1]
-			s.peerVideoRTP = rtpPeer
+		var err error
+		udpSocks, srvRTPPort, srvRTCPPort, err = openUDPPair()
+		if err != nil {
+			resp.StatusCode = 500
+			resp.Reason = "Internal Server Error"
+			return resp
 		}
 	}
 
+	//Wire up the transport to the per-track slot so PLAY / RECORD
+	//can find it later. A track set up again gets the new one. In UDP mode
+	//the channel only marks the track as set up.
+	var peer *net.UDPAddr
+	if useUDP {
+		rtpCh = udpChannel
+		peer = &net.UDPAddr{IP: s.peerHostIP(), Port: clientRTPPort}
+	}
+	if isAudio {
+		closeUDP(s.audioUDP, s.audioUDPRTCP)
+		s.audioUDP, s.audioUDPRTCP, s.peerAudioRTP = udpSocks[0], udpSocks[1], peer
+		s.audioChan = rtpCh
+		s.audioRTP = librtsp.NewRTPPacker(97, s.audioSSRC)
+	} else {
+		closeUDP(s.videoUDP, s.videoUDPRTCP)
+		s.videoUDP, s.videoUDPRTCP, s.peerVideoRTP = udpSocks[0], udpSocks[1], peer
+		s.videoChan = rtpCh
+		s.videoRTP = librtsp.NewRTPPacker(96, s.videoSSRC)
+	}
+	if s.ingest != nil {
+		s.ingest.videoCh, s.ingest.audioCh = s.videoChan, s.audioChan
+	}
+
 	if s.sessionID == "" {
 		s.sessionID = fmt.Sprintf("%d", time.Now().UnixNano())
 	}
@@ -323,23 +428,23 @@ func parseClientPorts(transport string) (rtp, rtcp int, ok bool) {
 			if err != nil {
 				return 0, 0, false
 			}
-			return n, n + 1, true
+			return n, n + 1, n > 0 && n < 65535
 		}
 		a, err1 := strconv.Atoi(v[:dash])
 		b, err2 := strconv.Atoi(v[dash+1:])
 		if err1 != nil || err2 != nil {
 			return 0, 0, false
 		}
-		return a, b, true
+		return a, b, a > 0 && a <= 65535 && b > 0 && b <= 65535
 	}
 	return 0, 0, false
 }
 
 // openUDPPair binds two consecutive UDP ports — RTP on the even, RTCP
-// on the odd. Loops up to a few times in case some other process
+// on the odd. Loops a number of times in case some other process
 // snipes the odd-numbered port between our two binds.
 func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
-	for attempt := 0; attempt < 8; attempt++ {
+	for attempt := 0; attempt < 100; attempt++ {
 		var c1 *net.UDPConn
 		c1, err = net.ListenUDP("udp", &net.UDPAddr{Port: 0})
 		if err != nil {
@@ -362,112 +467,55 @@ func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
 	return [2]*net.UDPConn{}, 0, 0, fmt.Errorf("failed to bind RTP/RTCP UDP pair")
 }
 
-// handlePlay starts the per-track packetisation goroutine that pulls
-// FLV tags from the room's broadcast and writes interleaved RTP frames
-// into the same TCP connection used by the RTSP control channel.
+// handlePlay starts the packetisation of the stream that was set up, which
+// begins after the reply.
 func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.app == "" || s.streamID == "" {
-		resp.StatusCode = 455
-		resp.Reason = "Method Not Valid In This State"
-		return resp
-	}
-	a, ok := s.server.apps[s.app]
-	if !ok {
-		resp.StatusCode = 404
-		resp.Reason = "Not Found"
-		return resp
+	if s.ingest != nil || !s.setUp() {
+		return notValidInState(resp)
 	}
-	rm := a.Load(s.streamID)
+	rm := s.lookupRoom(s.app, s.streamID, resp)
 	if rm == nil {
-		resp.StatusCode = 404
-		resp.Reason = "Not Found"
 		return resp
 	}
 	resp.Headers.Set("Session", s.sessionID)
 	resp.Headers.Set("Range", "npt=0.000-")
 
-	if !atomic.CompareAndSwapInt32(&s.playing, 0, 1) {
-		return resp
+	if atomic.CompareAndSwapInt32(&s.playing, 0, 1) {
+		s.reader = newGOPReader(rm.GOP)
 	}
-	go s.streamLoop(rm)
 	return resp
 }
 
 // streamLoop reads from the room's GOP broadcast and emits RTP packets
-// for each video/audio FLV tag. Runs until the publisher disconnects
-// or the TCP connection's write side fails.
-func (s *rtspSession) streamLoop(room *Room) {
-	defer atomic.StoreInt32(&s.playing, 0)
-
-	//Backfill cached sequence headers as in-band data so any client
-	//that decodes off the wire rather than the SDP fmtp gets the
-	//SPS/PPS too.
-	_, videoHdr, _ := room.snapshotHeaders()
-	if s.videoChan >= 0 && videoHdr != nil {
-		s.sendVideoSeqHeader(videoHdr)
-	}
-
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
+// for each video/audio FLV tag. Runs until the stream ends, which the client
+// learns by the end of the connection, or the TCP connection's write side
+// fails.
+func (s *rtspSession) streamLoop() {
+	defer close(s.streamDone)
+	defer s.conn.Close()
 	for atomic.LoadInt32(&s.playing) == 1 {
-		p, alive := gopReader.Read()
+		p, alive := s.reader.Read()
 		if !alive {
 			return
 		}
-		tag, ok := p.(libflv.Tag)
-		if !ok {
-			continue
-		}
-		switch t := tag.(type) {
+		var err error
+		switch t := p.(type) {
 		case *libflv.VideoTag:
-			if s.videoChan < 0 {
-				continue
-			}
-			if err := s.sendVideo(t); err != nil {
-				return
+			if s.videoChan >= 0 {
+				err = s.sendVideo(t)
 			}
 		case *libflv.AudioTag:
-			if s.audioChan < 0 {
-				continue
-			}
-			if err := s.sendAudio(t); err != nil {
-				return
+			if s.audioChan >= 0 {
+				err = s.sendAudio(t)
 			}
 		}
-	}
-}
-
-// sendVideoSeqHeader emits the SPS/PPS NALs as separate single-NAL RTP
-// packets at timestamp 0 so receivers that joined mid-GOP can prime
-// their decoders.
-func (s *rtspSession) sendVideoSeqHeader(tag *libflv.VideoTag) {
-	if tag.AVCPacketType != libflv.AVC_SEQUENCE_HEADER {
-		return
-	}
-	sps, pps, _, _, err := parseAVCDCRForRTSP(tag.Data())
-	if err != nil || len(sps) == 0 {
-		return
-	}
-	for _, nal := range [][]byte{sps, pps} {
-		for _, payload := range librtsp.PackNAL(nal, librtsp.DefaultMTU) {
-			pkt := s.videoRTP.Pack(false, 0, payload)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
-				return
-			}
+		if err != nil {
+			return
 		}
 	}
 }
 
 func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
-	if tag.AVCPacketType != libflv.AVC_NALU {
-		return nil
-	}
-	nals := librtsp.SplitAVCC(tag.Data())
-	if len(nals) == 0 {
-		return nil
-	}
-	//PTS in 90 kHz clock; FLV gives us DTS in ms plus a CTS offset.
-	pts := (uint32(tag.GetTagInfo().TimeStamp) + uint32(tag.Cts)) * 90
-
 	//Codec-specific packetiser. For unsupported codecs we silently
 	//drop the frame — better than tearing down the RTSP session.
 	var pack func([]byte, int) [][]byte
@@ -479,71 +527,82 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 	default:
 		return nil
 	}
+	if tag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+		s.videoParams = parameterSets(tag)
+		return nil
+	}
+	if tag.AVCPacketType != libflv.AVC_NALU {
+		return nil
+	}
+	nals := librtsp.SplitAVCC(tag.Data())
+	if len(nals) == 0 {
+		return nil
+	}
+	//A keyframe comes with the parameter sets it needs, so that any client
+	//that decodes off the wire rather than the SDP fmtp gets them, and the
+	//current ones.
+	if isKeyFrame(tag) && !containsSPS(tag.CodecID, nals) {
+		nals = append(append([][]byte(nil), s.videoParams...), nals...)
+	}
+	//PTS in 90 kHz clock; FLV gives us DTS in ms plus a CTS offset, which is
+	//a signed 24-bit number.
+	cts := int32(tag.Cts<<8) >> 8
+	pts := (tag.GetTagInfo().TimeStamp + uint32(cts)) * 90
 
-	for ni, nal := range nals {
-		pieces := pack(nal, librtsp.DefaultMTU)
-		for pi, piece := range pieces {
-			marker := ni == len(nals)-1 && pi == len(pieces)-1
-			pkt := s.videoRTP.Pack(marker, pts, piece)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
-				return err
-			}
+	var pieces [][]byte
+	for _, nal := range nals {
+		pieces = append(pieces, pack(nal, librtsp.DefaultMTU)...)
+	}
+	for i, piece := range pieces {
+		pkt := s.videoRTP.Pack(i == len(pieces)-1, pts, piece)
+		if err := s.writeRTP(s.videoChan, s.videoUDP, s.peerVideoRTP, pkt); err != nil {
+			return err
 		}
 	}
 	return nil
 }
 
 func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
+	if isAudioHeader(tag) {
+		return nil //no in-RTP equivalent
+	}
+	var payload []byte
 	switch tag.SoundFormat {
 	case libflv.FLV_AUDIO_AAC:
-		if tag.AACPacketType != libflv.AAC_RAW {
-			return nil
-		}
-		//AAC RTP timestamp uses sample-rate clock; default 44.1 kHz.
-		rate := 44100
-		switch tag.SoundRate {
-		case 0:
-			rate = 5500
-		case 1:
-			rate = 11025
-		case 2:
-			rate = 22050
-		}
-		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * uint64(rate) / 1000)
-		frame := librtsp.AdtsToRaw(tag.Data())
-		payload := librtsp.PackAACFrame(frame)
-		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
-
+		payload = librtsp.PackAACFrame(librtsp.AdtsToRaw(tag.Data()))
 	case libflv.FLV_AUDIO_OPUS:
-		if tag.AACPacketType != libflv.AAC_RAW {
-			return nil //skip Opus sequence header (no in-RTP equivalent)
-		}
-		//Opus RTP clock is fixed at 48 kHz per RFC 7587 §4.1.
-		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
-		payload := librtsp.PackOpusFrame(tag.Data())
-		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		payload = librtsp.PackOpusFrame(tag.Data())
 	}
-	return nil
+	if len(payload) == 0 {
+		return nil
+	}
+	//FLV timestamps wrap at 2^32 ms, which is no multiple of the RTP wrap.
+	now := tag.GetTagInfo().TimeStamp
+	if s.audioTimed {
+		s.audioTime += int64(int32(now - uint32(s.audioTime)))
+	} else {
+		s.audioTimed, s.audioTime = true, int64(now)
+	}
+	rate := s.audioRate
+	if rate <= 0 {
+		rate = 44100 //what BuildSDP writes
+	}
+	ts := uint32(s.audioTime * int64(rate) / 1000)
+	return s.writeRTP(s.audioChan, s.audioUDP, s.peerAudioRTP, s.audioRTP.Pack(true, ts, payload))
 }
 
-// writeInterleaved sends one RTP packet on the appropriate transport.
-// ch is the interleave channel (used in TCP mode); routing in UDP mode
-// is by even/odd channel number — the same convention SETUP responses
-// use. We resolve the right UDP socket + peer addr from the session.
-func (s *rtspSession) writeInterleaved(ch uint8, rtp []byte) error {
-	//UDP: pick the matching per-track socket. Channel 0 / 2 / … (the
-	//RTP halves) map to whichever track we set up first.
-	if int(ch) == s.videoChan && s.videoUDP != nil {
-		_, err := s.videoUDP.WriteToUDP(rtp, s.peerVideoRTP)
-		return err
-	}
-	if int(ch) == s.audioChan && s.audioUDP != nil {
-		_, err := s.audioUDP.WriteToUDP(rtp, s.peerAudioRTP)
-		return err
-	}
-	frame := librtsp.InterleaveFrame(ch, rtp)
+// udpChannel stands in for the interleave channel of a track set up over UDP.
+const udpChannel = 256
+
+// writeRTP sends one RTP packet of a track: over UDP if the track has a
+// socket, interleaved on channel ch otherwise. UDP is lossy anyway, so that a
+// send that fails is a lost packet and no more.
+func (s *rtspSession) writeRTP(ch int, udp *net.UDPConn, peer *net.UDPAddr, rtp []byte) error {
+	if udp != nil {
+		_, _ = udp.WriteToUDP(rtp, peer)
+		return nil
+	}
+	frame := librtsp.InterleaveFrame(uint8(ch), rtp)
 	s.wmu.Lock()
 	defer s.wmu.Unlock()
 	_, err := s.conn.Write(frame)
@@ -590,88 +649,155 @@ func parseInterleavedChannels(transport string) (rtp, rtcp int, ok bool) {
 			if err != nil {
 				return 0, 0, false
 			}
-			return rtp, rtp + 1, true
+			return rtp, rtp + 1, rtp >= 0 && rtp < 255
 		}
 		a, err1 := strconv.Atoi(v[:dash])
 		b, err2 := strconv.Atoi(v[dash+1:])
 		if err1 != nil || err2 != nil {
 			return 0, 0, false
 		}
-		return a, b, true
+		return a, b, a >= 0 && a <= 255 && b >= 0 && b <= 255
 	}
 	return 0, 0, false
 }
 
-// buildSDPFromRoom inspects the cached sequence headers on a Room and
-// builds the SDP that DESCRIBE returns. Returns nil if the publisher
-// hasn't yet emitted enough metadata.
-func buildSDPFromRoom(room *Room) []byte {
+// sdpParamsFromRoom inspects the cached sequence headers on a Room and
+// returns what the SDP for DESCRIBE is built from. Returns nil if the
+// publisher hasn't yet emitted a header of a codec RTSP can carry.
+func sdpParamsFromRoom(room *Room) *librtsp.SDPParams {
 	_, videoHdr, audioHdr := room.snapshotHeaders()
-	if videoHdr == nil || videoHdr.AVCPacketType != libflv.AVC_SEQUENCE_HEADER {
-		return nil
-	}
-	p := librtsp.SDPParams{
-		StreamID: room.RoomID,
-		HasVideo: true,
-	}
-	switch videoHdr.CodecID {
-	case libflv.FLV_VIDEO_AVC:
-		sps, pps, _, _, err := parseAVCDCRForRTSP(videoHdr.Data())
-		if err != nil {
-			return nil
-		}
-		p.SPS, p.PPS = sps, pps
-	case libflv.FLV_VIDEO_HEVC:
-		vps, sps, pps, err := parseHEVCDCRForRTSP(videoHdr.Data())
-		if err != nil {
-			//Players will need in-band parameter sets; emit minimal
-			//SDP without sprop-* fields rather than fail outright.
-			p.IsHEVC = true
-		} else {
-			p.IsHEVC = true
-			p.VPS, p.SPS, p.PPS = vps, sps, pps
+	p := &librtsp.SDPParams{StreamID: room.RoomID}
+	if videoHdr != nil && videoHdr.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+		switch videoHdr.CodecID {
+		case libflv.FLV_VIDEO_AVC:
+			sps, pps, _, _, err := parseAVCDCRForRTSP(videoHdr.Data())
+			if err == nil && len(sps) >= 4 {
+				p.HasVideo = true
+				p.SPS, p.PPS = sps, pps
+			}
+		case libflv.FLV_VIDEO_HEVC:
+			p.HasVideo, p.IsHEVC = true, true
+			//Without them players will need in-band parameter sets; emit
+			//minimal SDP without sprop-* fields rather than fail outright.
+			if vps, sps, pps, err := parseHEVCDCRForRTSP(videoHdr.Data()); err == nil {
+				p.VPS, p.SPS, p.PPS = vps, sps, pps
+			}
 		}
-	default:
-		return nil
 	}
 
 	if audioHdr != nil {
+		p.AudioChans = 1
+		if audioHdr.SoundType == libflv.SND_STEREO {
+			p.AudioChans = 2
+		}
 		switch audioHdr.SoundFormat {
 		case libflv.FLV_AUDIO_AAC:
-			if audioHdr.AACPacketType != libflv.AAC_SEQUENCE_HEADER {
+			if audioHdr.AACPacketType != libflv.AAC_SEQUENCE_HEADER || len(audioHdr.Data()) < 2 {
 				break
 			}
 			p.HasAudio = true
 			p.AudioConfig = audioHdr.Data()
-			p.AudioRate = decodeAACRate(audioHdr.SoundRate)
+			rate, chans := parseASC(p.AudioConfig)
+			p.AudioRate = rate
+			if chans > 0 {
+				p.AudioChans = chans
+			}
 		case libflv.FLV_AUDIO_OPUS:
 			p.HasAudio = true
 			p.IsOpus = true
 			p.AudioRate = librtsp.OpusClockRate
 		}
-		if audioHdr.SoundType == libflv.SND_STEREO {
-			p.AudioChans = 2
-		} else {
-			p.AudioChans = 1
+	}
+	if !p.HasVideo && !p.HasAudio {
+		return nil
+	}
+	return p
+}
+
+// parseASC returns the sample rate and number of channels that an AAC
+// AudioSpecificConfig states; 0 for what it does not.
+func parseASC(asc []byte) (rate, chans int) {
+	bit := 0
+	bits := func(n int) (v int) {
+		for ; n > 0; n-- {
+			v <<= 1
+			if bit>>3 < len(asc) {
+				v |= int(asc[bit>>3]>>(7-uint(bit&7))) & 1
+			}
+			bit++
 		}
+		return v
+	}
+	if bits(5) == 31 {
+		bits(6) //object types from 32 on
+	}
+	if index := bits(4); index < len(libaac.AACRates) {
+		rate = libaac.AACRates[index]
+	} else if index == 15 {
+		rate = bits(24)
 	}
-	return librtsp.BuildSDP(p)
+	chans = bits(4)
+	if chans == 7 {
+		chans = 8
+	}
+	return rate, chans
 }
 
-// decodeAACRate maps the FLV 2-bit sound-rate code back to Hz. Only
-// 44.1 kHz is correct for AAC per the FLV spec, but other publishers
-// emit 22050/11025/5500 occasionally.
-func decodeAACRate(code uint8) int {
-	switch code {
-	case 0:
-		return 5500
-	case 1:
-		return 11025
-	case 2:
-		return 22050
-	default:
-		return 44100
+// parameterSets returns the NAL units in a decoder configuration record, as
+// far as they can be read.
+func parameterSets(tag *libflv.VideoTag) (nals [][]byte) {
+	b := tag.Data()
+	list := func(n int) {
+		for ; n > 0 && len(b) >= 2; n-- {
+			size := int(binary.BigEndian.Uint16(b))
+			b = b[2:]
+			if size > len(b) {
+				b = nil
+				return
+			}
+			if size > 0 {
+				nals = append(nals, b[:size])
+			}
+			b = b[size:]
+		}
+	}
+	if tag.CodecID == libflv.FLV_VIDEO_HEVC {
+		if len(b) < 23 {
+			return nil
+		}
+		arrays := int(b[22])
+		for b = b[23:]; arrays > 0 && len(b) >= 3; arrays-- {
+			n := int(binary.BigEndian.Uint16(b[1:]))
+			b = b[3:]
+			list(n)
+		}
+		return nals
+	}
+	if len(b) < 6 {
+		return nil
+	}
+	n := int(b[5] & 0x1F)
+	b = b[6:]
+	list(n)
+	if len(b) > 0 {
+		n = int(b[0])
+		b = b[1:]
+		list(n)
+	}
+	return nals
+}
+
+func containsSPS(codec uint8, nals [][]byte) bool {
+	for _, nal := range nals {
+		if len(nal) == 0 {
+			continue
+		}
+		if codec == libflv.FLV_VIDEO_AVC && nal[0]&0x1F == 7 ||
+			codec == libflv.FLV_VIDEO_HEVC && nal[0]>>1&0x3F == 33 {
+			return true
+		}
 	}
+	return false
 }
 
 // parseHEVCDCRForRTSP pulls VPS/SPS/PPS NALs out of an HEVC
-- 
2.43.0


From 921ccf02cbdf8d68830192aa8474bf78e14b7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 15/27] fix: one publisher per stream, viewers that never stall
 it, current headers, clean ends of sessions

---
 libdash/dash.go            |   3 +
 libhls/hls.go              |   5 +
 librtmp/app.go             | 126 +++++++++++++++-
 librtmp/audio.go           |  13 +-
 librtmp/client.go          |  28 ++--
 librtmp/command_message.go | 125 ++++++++++------
 librtmp/data_message.go    |  12 +-
 librtmp/gop.go             | 287 +++++++++++++++++++++++++++++++++++++
 librtmp/room.go            | 124 +++++-----------
 librtmp/rtmp.go            | 141 ++++++++++++++++--
 librtmp/server.go          | 158 +++++++++++++-------
 librtmp/video.go           |  23 ++-
 12 files changed, 800 insertions(+), 245 deletions(-)
 create mode 100644 librtmp/gop.go

diff --git a/libdash/dash.go b/libdash/dash.go
index f7d29ae..dfc9937 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -163,6 +163,9 @@ func (d *DASH) Manifest() []byte {
 
 func (d *DASH) WaitFirstSegment() { <-d.ready }
 
+// Ready is closed when WaitFirstSegment would return.
+func (d *DASH) Ready() <-chan struct{} { return d.ready }
+
 func (d *DASH) Stop() {
 	if !atomic.CompareAndSwapInt32(&d.stopped, 0, 1) {
 		return
diff --git a/libhls/hls.go b/libhls/hls.go
index 1c0ce3c..7f0ac86 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -260,6 +260,11 @@ func (hls *HLS) WaitFirstSegment() {
 	<-hls.ready
 }
 
+// Ready is closed when WaitFirstSegment would return.
+func (hls *HLS) Ready() <-chan struct{} {
+	return hls.ready
+}
+
 // Stop requests graceful shutdown of the transcoder and removes any
 // lingering segment files on disk; Start removes the one it is writing when
 // it returns. Idempotent.
diff --git a/librtmp/app.go b/librtmp/app.go
index b336523..cde512f 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -1,6 +1,11 @@
 package librtmp
 
 import (
+	"fmt"
+	"net/url"
+	"os"
+	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -9,7 +14,8 @@ import (
 
 type App struct {
 	appName     string
-	rooms       *sync.Map //roomID, *Room
+	mu          sync.Mutex //serialises changes of rooms, hls and dash
+	rooms       *sync.Map  //roomID, *Room
 	hlsMode     libhls.HLS_MODE
 	hlsDir      string
 	hls         *sync.Map //roomID, *libhls.HLS
@@ -42,7 +48,40 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
+// Publish makes room the one viewers of its name get, unless the name is
+// taken, and starts the segmenters that do not wait for a viewer.
+func (app *App) Publish(room *Room) bool {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if _, taken := app.rooms.LoadOrStore(room.RoomID, room); taken {
+		return false
+	}
+	if app.hlsMode == libhls.IMMEDIATELY {
+		app.startHLS(room)
+	}
+	if app.dashEnabled {
+		app.startDASH(room)
+	}
+	return true
+}
+
+// Unpublish takes room out of the app. A room that has taken its place is
+// left alone.
+func (app *App) Unpublish(room *Room) {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) == room {
+		app.delete(room.RoomID)
+	}
+}
+
 func (app *App) Delete(roomID string) {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	app.delete(roomID)
+}
+
+func (app *App) delete(roomID string) {
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
 			hls.Stop()
@@ -79,3 +118,88 @@ func (app *App) LoadDASH(roomID string) *libdash.DASH {
 func (app *App) StoreDASH(roomID string, dash *libdash.DASH) {
 	app.dash.Store(roomID, dash)
 }
+
+// DelayedHLS returns room's segmenter, and starts it if nobody has yet.
+func (app *App) DelayedHLS(room *Room) *libhls.HLS {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if hls := app.LoadHLS(room.RoomID); hls != nil {
+		return hls
+	}
+	return app.startHLS(room)
+}
+
+// DelayedDASH is DelayedHLS for DASH.
+func (app *App) DelayedDASH(room *Room) *libdash.DASH {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if dash := app.LoadDASH(room.RoomID); dash != nil {
+		return dash
+	}
+	return app.startDASH(room)
+}
+
+// startHLS starts segmenting room, which is done when the room closes. The
+// caller holds app.mu.
+func (app *App) startHLS(room *Room) *libhls.HLS {
+	if app.Load(room.RoomID) != room {
+		return nil //it ended meanwhile
+	}
+	dir, err := app.segmentDir(app.hlsDir, room.RoomID)
+	if err != nil {
+		fmt.Println("hls:", err)
+		return nil
+	}
+	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(dir)
+	app.StoreHLS(room.RoomID, hls)
+	go func() {
+		_ = hls.Start(newGOPReader(room.GOP))
+		hls.Stop()
+		_ = os.RemoveAll(dir)
+	}()
+	return hls
+}
+
+func (app *App) startDASH(room *Room) *libdash.DASH {
+	if app.Load(room.RoomID) != room {
+		return nil //it ended meanwhile
+	}
+	dir, err := app.segmentDir(app.dashDir, room.RoomID)
+	if err != nil {
+		fmt.Println("dash:", err)
+		return nil
+	}
+	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(dir)
+	app.StoreDASH(room.RoomID, dash)
+	go func() {
+		_ = dash.Start(newGOPReader(room.GOP))
+		dash.Stop()
+		_ = os.RemoveAll(dir)
+	}()
+	return dash
+}
+
+// segmentDir creates the directory for the segments of one publication of a
+// stream. Each has its own, so that no stream's files, nor those of an earlier
+// publication of the same name, are ever mistaken for another's.
+func (app *App) segmentDir(base, roomID string) (string, error) {
+	if !segmentableName(roomID) {
+		return "", fmt.Errorf("stream name %q cannot name files", roomID)
+	}
+	dir := filepath.Join(base, "app-"+url.PathEscape(app.appName))
+	if err := os.MkdirAll(dir, 0o755); err != nil {
+		return "", err
+	}
+	return os.MkdirTemp(dir, "stream-")
+}
+
+// segmentableName reports whether a stream name can be part of a file name
+// and of a URL's last path element.
+func segmentableName(roomID string) bool {
+	if roomID == "" || len(roomID) > 200 {
+		return false
+	}
+	return strings.IndexFunc(roomID, func(r rune) bool {
+		return r < ' ' || r == 0x7f || r == '/' || r == '\\'
+	}) < 0
+}
diff --git a/librtmp/audio.go b/librtmp/audio.go
index 86957fc..389c31e 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -1,9 +1,6 @@
 package librtmp
 
 import (
-	"fmt"
-	"time"
-
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
 
@@ -46,6 +43,8 @@ func NewAudioMessage(mb MessageBase, fields ...interface{}) (am *AudioMessage) {
 }
 
 func (am *AudioMessage) Send() (err error) {
+	am.rtmp.writeMu.Lock()
+	defer am.rtmp.writeMu.Unlock()
 	chunkSize := am.rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		lIndex := i * chunkSize
@@ -81,16 +80,14 @@ func (am *AudioMessage) Parse() (err error) {
 }
 
 func (am *AudioMessage) Do() (err error) {
-	if am.rtmp.room == nil {
-		return nil
+	if room, err := am.rtmp.publishRoom(); room == nil {
+		return err
 	}
-	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+	if isAudioHeader(am.audioTag) {
 		am.rtmp.room.setAudioSequenceHeader(am.audioTag)
 		am.rtmp.room.GOP.WriteMeta(am.audioTag)
-		fmt.Printf("write packet audio :%+v\n", am.audioTag)
 		return nil
 	}
-	fmt.Printf("[gop receive audio] message time(dts):%d, now:%+v\n", am.messageTime, time.Now())
 	am.rtmp.room.GOP.Write(am.audioTag)
 	return nil
 }
diff --git a/librtmp/client.go b/librtmp/client.go
index 8f0f29b..8f91f7a 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -28,8 +28,9 @@ type pullSpec struct {
 // connect/createStream/play handshake, and writes incoming
 // audio/video/data tags into a Room owned by the local server.
 type PullClient struct {
-	spec   pullSpec
-	server *server
+	spec      pullSpec
+	server    *server
+	published bool //this session received media
 }
 
 func newPullClient(srv *server, ps pullSpec) *PullClient {
@@ -63,13 +64,7 @@ func (pc *PullClient) Run() error {
 		_ = conn.Close()
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
-	rtmp.app = pc.spec.app
-	rtmp.room = NewRoom(rtmp, pc.spec.streamID)
-	app.Store(pc.spec.streamID, rtmp.room)
-	//We act as publisher into the local broadcast — when the upstream
-	//disconnects, cleanup() should tear the local room down so HLS /
-	//FLV viewers exit cleanly.
-	rtmp.role = rolePublisher
+	rtmp.pull = pc
 
 	rtmp.connectApp = parseAppName(u.Path)
 	rtmp.tcURL = strings.TrimSuffix(pc.spec.remoteURL,
@@ -83,6 +78,19 @@ func (pc *PullClient) Run() error {
 	return nil
 }
 
+// publish puts the pulled stream under its local name. We act as publisher
+// into the local broadcast — when the upstream disconnects, cleanup() should
+// tear the local room down so HLS / FLV viewers exit cleanly. This waits for
+// the first media, so that an upstream that has none to offer does not keep
+// the name from others.
+func (pc *PullClient) publish(rtmp *RTMP) error {
+	if !rtmp.startPublish(pc.server.apps[pc.spec.app], pc.spec.streamID) {
+		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
+	}
+	pc.published = true
+	return nil
+}
+
 // runClientCommands drives connect → createStream → play on the
 // outbound side. ParseMessage runs synchronously between sends so by
 // the time we return, the upstream has accepted the play request.
@@ -154,6 +162,8 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 	if err != nil {
 		return err
 	}
+	rtmp.writeMu.Lock()
+	defer rtmp.writeMu.Unlock()
 	chunkSize := rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		l := i * chunkSize
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d814d54..b87e95f 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -4,15 +4,11 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"reflect"
 	"sync/atomic"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/sbraveyoung/GGmpeg/libdash"
-	"github.com/sbraveyoung/GGmpeg/libhls"
 	"github.com/fatih/structs"
 	"github.com/goinggo/mapstructure"
 	"github.com/pkg/errors"
@@ -59,7 +55,7 @@ type ConnectReqCommandObject struct {
 type CommandMessage struct {
 	MessageBase
 	CommandName    string
-	TranscationID  int
+	TranscationID  float64
 	CommandObject  ConnectReqCommandObject
 	PublishingName string //releaseStream,FCPublish,publish
 	//Type of publishing. Set to "live", "record", or "append".
@@ -78,6 +74,9 @@ type CommandMessage struct {
 
 	// Reader flag toggles for receiveAudio / receiveVideo.
 	BoolFlag bool
+
+	StatusLevel string //onStatus
+	StatusCode  string //onStatus
 }
 
 func NewCommandMessage(mb MessageBase, fields ...interface{} /*commandName string, transcationID int, others*/) (cm *CommandMessage) {
@@ -89,8 +88,8 @@ func NewCommandMessage(mb MessageBase, fields ...interface{} /*commandName strin
 		if cm.CommandName, ok = fields[0].(string); !ok {
 			cm.CommandName = ""
 		}
-		if cm.TranscationID, ok = fields[1].(int); !ok {
-			cm.TranscationID = 0
+		if id, ok := fields[1].(int); ok {
+			cm.TranscationID = float64(id)
 		}
 	}
 	return cm
@@ -113,17 +112,20 @@ func (cm *CommandMessage) Parse() (err error) {
 	if len(array) < 3 {
 		return errors.New("invalid data")
 	}
-	for index, a := range array {
-		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
-	}
 
-	cm.CommandName = array[0].(string)
-	cm.TranscationID = int(array[1].(float64))
+	var ok bool
+	if cm.CommandName, ok = array[0].(string); !ok {
+		return errors.New("command name is not a string")
+	}
+	if cm.TranscationID, ok = array[1].(float64); !ok {
+		return errors.New("transaction id is not a number")
+	}
 	switch cm.CommandName {
 	case CONNECT:
-		_ = array[2]
+		//Only the app and the encoding matter; the other properties come
+		//in all sorts of types.
 		err = mapstructure.Decode(array[2], &cm.CommandObject)
-		if err != nil {
+		if err != nil && cm.CommandObject.App == "" {
 			return errors.Wrap(err, "mapstructure.Decode")
 		}
 	case RELEASE_STREAM, FCPUBLISH, FCUNPUBLISH:
@@ -162,11 +164,20 @@ func (cm *CommandMessage) Parse() (err error) {
 		if len(array) >= 4 {
 			cm.BoolFlag, _ = array[3].(bool)
 		}
+	case ON_STATUS:
+		if len(array) >= 4 {
+			info, _ := array[3].(map[string]interface{})
+			cm.StatusLevel, _ = info["level"].(string)
+			cm.StatusCode, _ = info["code"].(string)
+		}
 	}
 	return nil
 }
 
 func (cm *CommandMessage) Do() (err error) {
+	if cm.rtmp.pull != nil {
+		return cm.doClient()
+	}
 
 	var err1, err2, err3, err4, err5 error
 	switch cm.CommandName {
@@ -179,8 +190,7 @@ func (cm *CommandMessage) Do() (err error) {
 		cm.rtmp.ownWindowAckSize = 2500000
 		err2 = NewSetPeerBandWidthMessage(cm.MessageBase, uint32(2500000), DYNAMIC).Send()
 		//BUG: If do not set ownChunkSize or set ownChunkSize to other value, player maybe panic. But I don't know the reason.
-		cm.rtmp.ownMaxChunkSize = 4096
-		err3 = NewSetChunkSizeMessage(cm.MessageBase, uint32(cm.rtmp.ownMaxChunkSize)).Send()
+		err3 = NewSetChunkSizeMessage(cm.MessageBase, uint32(4096)).Send()
 		err4 = NewUserControlMessage(cm.MessageBase, StreamBegin).Send()
 		err5 = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
@@ -211,6 +221,9 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 	case FCUNPUBLISH:
+		if room := cm.rtmp.room; room != nil && (cm.PublishingName == "" || cm.PublishingName == room.RoomID) {
+			cm.rtmp.endPublish()
+		}
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
@@ -239,7 +252,7 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		if existing := app.Load(cm.PublishingName); existing != nil {
+		if !cm.rtmp.startPublish(app, cm.PublishingName) {
 			//Refuse a second publish to the same stream — replacing the
 			//publisher mid-stream would desync every viewer.
 			return (&CommandMessageResponse{
@@ -254,10 +267,6 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.room = NewRoom(cm.rtmp, cm.PublishingName)
-		cm.rtmp.role = rolePublisher
-		app.Store(cm.PublishingName, cm.rtmp.room)
-
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
@@ -270,24 +279,13 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
-		if app.hlsMode == libhls.IMMEDIATELY {
-			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
-			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
-		}
-		if app.dashEnabled {
-			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
-			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
-		}
-
 	case PLAY:
 		app, ok := cm.rtmp.server.apps[cm.rtmp.app]
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		cm.rtmp.room = app.Load(cm.PublishingName)
-		if cm.rtmp.room == nil {
+		room := app.Load(cm.PublishingName)
+		if room == nil {
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -300,8 +298,7 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.role = rolePlayer
-		cm.rtmp.room.RTMPJoin(cm.rtmp)
+		cm.rtmp.endPlay()
 
 		err1 = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
@@ -348,6 +345,9 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 		err = easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3, err4, err5)
+		if err == nil {
+			cm.rtmp.startPlay(room)
+		}
 
 	case PAUSE:
 		code := "NetStream.Unpause.Notify"
@@ -393,10 +393,10 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 	case DELETE_STREAM, CLOSE_STREAM:
-		//Stream close emitted by OBS when the user stops streaming.
-		//We rely on cleanup() in HandlerServer for the actual teardown;
-		//here we just reply with a status update so the client can
-		//proceed to disconnect.
+		//Stream close emitted by OBS when the user stops streaming, and by
+		//players. The client may go on to use the connection otherwise.
+		cm.rtmp.endPublish()
+		cm.rtmp.endPlay()
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
@@ -409,17 +409,46 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
+	default:
+	}
+
+	return err
+}
+
+// doClient handles what the upstream of an outbound session says.
+func (cm *CommandMessage) doClient() error {
+	switch cm.CommandName {
 	case _RESULT:
-		//Outbound-client path: bump the response counter so the
-		//connect/createStream sender can move on. No-op for the more
-		//common server-side case.
+		//bump the response counter so the connect/createStream sender can
+		//move on.
 		atomic.AddUint32(&cm.rtmp.resultCount, 1)
 	case _ERROR:
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
-	default:
+		return errors.New("upstream refused a command")
+	case ON_STATUS:
+		switch {
+		case cm.StatusLevel == "error":
+			return errors.Errorf("upstream: %s", cm.StatusCode)
+		case cm.StatusCode == "NetStream.Play.UnpublishNotify", cm.StatusCode == "NetStream.Play.Stop":
+			return io.EOF
+		}
 	}
+	return nil
+}
 
-	return err
+// sendPlayEnd tells a player that the stream it plays is over.
+func (rtmp *RTMP) sendPlayEnd() error {
+	err1 := NewUserControlMessage(MessageBase{rtmp: rtmp}, StreamEOF).Send()
+	err2 := (&CommandMessageResponse{
+		MessageBase:     MessageBase{rtmp: rtmp},
+		CommandName:     PLAY,
+		CommandRespName: ON_STATUS,
+		CommandObject: ConnectRespCommandObject{
+			Level:       "status",
+			Code:        "NetStream.Play.UnpublishNotify",
+			Description: "Stream ended",
+		},
+	}).Send()
+	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2)
 }
 
 type ConnectRespCommandObject struct {
@@ -435,7 +464,7 @@ type CommandMessageResponse struct {
 	MessageBase
 	CommandName     string
 	CommandRespName string
-	TranscationID   int
+	TranscationID   float64
 	CommandObject   ConnectRespCommandObject
 	StreamID        uint32
 	// When NullValue is true, encode a null property object instead of
@@ -479,6 +508,8 @@ func (cmr *CommandMessageResponse) Send() (err error) {
 	if err != nil {
 		return err
 	}
+	cmr.rtmp.writeMu.Lock()
+	defer cmr.rtmp.writeMu.Unlock()
 	chunkSize := cmr.rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		lIndex := i * chunkSize
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 60c2b17..049b723 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -1,8 +1,6 @@
 package librtmp
 
 import (
-	"fmt"
-
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
 
@@ -28,6 +26,8 @@ func NewDataMessage(mb MessageBase, fields ...interface{}) (dm *DataMessage) {
 }
 
 func (dm *DataMessage) Send() (err error) {
+	dm.rtmp.writeMu.Lock()
+	defer dm.rtmp.writeMu.Unlock()
 	chunkSize := dm.rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		lIndex := i * chunkSize
@@ -64,10 +64,10 @@ func (dm *DataMessage) Parse() (err error) {
 }
 
 func (dm *DataMessage) Do() (err error) {
-	if dm.rtmp.room == nil {
-		return nil
+	if room, err := dm.rtmp.publishRoom(); room == nil {
+		return err
 	}
-	if dm.metaTag.SecondField != "onMetaData" {
+	if !isMetaData(dm.metaTag) {
 		//Text data, cue points and the like belong to their place in the
 		//stream; they are not the metadata later viewers need.
 		dm.rtmp.room.GOP.Write(dm.metaTag)
@@ -75,7 +75,5 @@ func (dm *DataMessage) Do() (err error) {
 	}
 	dm.rtmp.room.setMeta(dm.metaTag)
 	dm.rtmp.room.GOP.WriteMeta(dm.metaTag)
-	fmt.Printf("write packet data :%+v\n", dm.metaTag)
-
 	return nil
 }
diff --git a/librtmp/gop.go b/librtmp/gop.go
new file mode 100644
index 0000000..e32fcab
--- /dev/null
+++ b/librtmp/gop.go
@@ -0,0 +1,287 @@
+package librtmp
+
+import (
+	"sync"
+
+	"github.com/sbraveyoung/GGmpeg/libflv"
+)
+
+// Bounds of what a gopCache keeps. The newest groups of pictures are kept as
+// long as they fit; the group being written and the one before it always are,
+// unless the group being written itself grows out of proportion.
+const (
+	gopKeepTags  = 512
+	gopKeepBytes = 8 << 20
+	gopMaxTags   = 1 << 15
+	gopMaxBytes  = 64 << 20
+)
+
+// codedFramesX is the packet type of frames without composition offset.
+const codedFramesX = 3
+
+// headers are the tags a decoder needs before the first frame.
+type headers struct {
+	meta  *libflv.MetaTag
+	video *libflv.VideoTag
+	audio *libflv.AudioTag
+}
+
+// gop is a run of tags: a group of pictures, or the continuation of one that
+// got too large. Tags are only ever appended.
+type gop struct {
+	seq  uint64
+	key  bool    //the first tag is a keyframe
+	hdr  headers //in force when the run begins
+	tags []libflv.Tag
+	size int
+}
+
+// gopCache hands the tags of one publisher to any number of readers. Readers
+// never hold up the publisher: one that falls behind further than the cache
+// reaches back skips whole groups of pictures.
+type gopCache struct {
+	mu     sync.Mutex
+	cond   *sync.Cond
+	gops   []*gop //never empty, the last one is being written
+	hdr    headers
+	reset  bool //the next tag is a keyframe
+	keyed  bool //there has been a keyframe
+	closed bool
+}
+
+func newGOPCache() *gopCache {
+	c := &gopCache{gops: []*gop{{}}}
+	c.cond = sync.NewCond(&c.mu)
+	return c
+}
+
+// WriteMeta appends metadata or a decoder configuration, which is also
+// replayed to every reader that joins later.
+func (c *gopCache) WriteMeta(tag libflv.Tag) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	switch t := tag.(type) {
+	case *libflv.MetaTag:
+		c.hdr.meta = t
+	case *libflv.VideoTag:
+		c.hdr.video = t
+	case *libflv.AudioTag:
+		c.hdr.audio = t
+	}
+	c.append(tag)
+}
+
+// Reset announces that the next tag written starts a group of pictures.
+func (c *gopCache) Reset() {
+	c.mu.Lock()
+	c.reset = true
+	c.mu.Unlock()
+}
+
+// Write appends a frame.
+func (c *gopCache) Write(tag libflv.Tag) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if c.reset {
+		c.reset, c.keyed = false, true
+		c.start(true)
+	}
+	c.append(tag)
+}
+
+func (c *gopCache) append(tag libflv.Tag) {
+	if c.closed {
+		return
+	}
+	cur := c.gops[len(c.gops)-1]
+	maxTags := gopMaxTags
+	if !c.keyed {
+		maxTags = gopKeepTags
+	}
+	if len(cur.tags) >= maxTags || cur.size >= gopMaxBytes {
+		cur = c.start(false)
+	}
+	cur.tags = append(cur.tags, tag)
+	cur.size += len(tag.Data()) + 64
+	c.cond.Broadcast()
+}
+
+// start begins a new run and drops the oldest ones that no longer fit.
+func (c *gopCache) start(key bool) *gop {
+	last := c.gops[len(c.gops)-1]
+	g := &gop{seq: last.seq + 1, key: key, hdr: c.hdr}
+	tags, size, first := 0, 0, len(c.gops)-1
+	for i := len(c.gops) - 1; i >= 0; i-- {
+		tags += len(c.gops[i].tags)
+		size += c.gops[i].size
+		if i < len(c.gops)-1 && (tags > gopKeepTags || size > gopKeepBytes) {
+			break
+		}
+		first = i
+	}
+	c.gops = append(append([]*gop(nil), c.gops[first:]...), g)
+	return g
+}
+
+// Close ends the stream: readers get what they have not read yet and then
+// alive=false.
+func (c *gopCache) Close() {
+	c.mu.Lock()
+	c.closed = true
+	c.cond.Broadcast()
+	c.mu.Unlock()
+}
+
+// gopReader is one reader's position in a gopCache.
+type gopReader struct {
+	c       *gopCache
+	g       *gop //nil until the first Read
+	next    int
+	waitKey bool    //coded video cannot be decoded before the next keyframe
+	sent    headers //what this reader got last
+	queue   []libflv.Tag
+	closed  bool
+}
+
+func newGOPReader(c *gopCache) *gopReader {
+	return &gopReader{c: c}
+}
+
+// Close makes the current and all further calls of Read return alive=false.
+func (r *gopReader) Close() {
+	r.c.mu.Lock()
+	r.closed = true
+	r.c.cond.Broadcast()
+	r.c.mu.Unlock()
+}
+
+// Ended reports whether the stream is over and nothing is left to read.
+func (r *gopReader) Ended() bool {
+	r.c.mu.Lock()
+	defer r.c.mu.Unlock()
+	return !r.closed && r.c.closed && len(r.queue) == 0 && r.g != nil &&
+		r.g == r.c.gops[len(r.c.gops)-1] && r.next == len(r.g.tags)
+}
+
+// Read returns the next tag. The first frames are those from the newest
+// keyframe on, preceded by the headers in force there.
+func (r *gopReader) Read() (p interface{}, alive bool) {
+	r.c.mu.Lock()
+	defer r.c.mu.Unlock()
+	for {
+		switch {
+		case r.closed:
+			return nil, false
+		case len(r.queue) > 0:
+			tag := r.queue[0]
+			r.queue = r.queue[1:]
+			return tag, true
+		case r.g == nil:
+			r.join()
+		case r.next < len(r.g.tags):
+			tag := r.g.tags[r.next]
+			r.next++
+			if r.note(tag) {
+				return tag, true
+			}
+		case r.g.seq < r.c.gops[len(r.c.gops)-1].seq:
+			if first := r.c.gops[0].seq; r.g.seq+1 >= first {
+				r.g, r.next = r.c.gops[r.g.seq+1-first], 0
+			} else {
+				r.join()
+			}
+		case r.c.closed:
+			return nil, false
+		default:
+			r.c.cond.Wait()
+		}
+	}
+}
+
+// note keeps the reader's state up to date and reports whether tag is to be
+// delivered.
+func (r *gopReader) note(tag libflv.Tag) bool {
+	switch t := tag.(type) {
+	case *libflv.MetaTag:
+		if isMetaData(t) {
+			r.sent.meta = t
+		}
+	case *libflv.AudioTag:
+		if isAudioHeader(t) {
+			r.sent.audio = t
+		}
+	case *libflv.VideoTag:
+		switch {
+		case isVideoHeader(t):
+			r.sent.video = t
+		case r.next == 1 && r.g.key:
+			r.waitKey = false
+		default:
+			return !r.waitKey
+		}
+	}
+	return true
+}
+
+// join moves the reader to the newest keyframe it has not read, or, if there
+// is none, to the newest run.
+func (r *gopReader) join() {
+	gops := r.c.gops
+	i := len(gops) - 1
+	for i > 0 && !gops[i].key && (r.g == nil || gops[i-1].seq > r.g.seq) {
+		i--
+	}
+	if !gops[i].key {
+		i = len(gops) - 1
+	}
+	r.g, r.next, r.waitKey = gops[i], 0, true
+	if h := r.g.hdr.meta; h != nil && h != r.sent.meta {
+		r.sent.meta = h
+		r.queue = append(r.queue, h)
+	}
+	if h := r.g.hdr.video; h != nil && h != r.sent.video {
+		r.sent.video = h
+		r.queue = append(r.queue, h)
+	}
+	if h := r.g.hdr.audio; h != nil && h != r.sent.audio {
+		r.sent.audio = h
+		r.queue = append(r.queue, h)
+	}
+}
+
+// isMetaData tells metadata from text data, cue points and the like.
+func isMetaData(tag *libflv.MetaTag) bool {
+	return tag.SecondField == "onMetaData"
+}
+
+// videoKind returns the frame type and packet type of a tag, whichever way its
+// codec writes them.
+func videoKind(tag *libflv.VideoTag) (frameType, packetType uint8) {
+	if tag.FrameType&0x08 != 0 {
+		//enhanced RTMP: a FourCC names the codec, and the packet type is
+		//where the codec id used to be
+		return tag.FrameType & 0x07, tag.CodecID
+	}
+	switch tag.CodecID {
+	case libflv.FLV_VIDEO_AVC, libflv.FLV_VIDEO_HEVC, libflv.FLV_VIDEO_AV1:
+		return tag.FrameType, tag.AVCPacketType
+	}
+	return tag.FrameType, libflv.AVC_NALU
+}
+
+func isVideoHeader(tag *libflv.VideoTag) bool {
+	_, packetType := videoKind(tag)
+	return packetType == libflv.AVC_SEQUENCE_HEADER
+}
+
+// isKeyFrame reports whether tag is a coded keyframe.
+func isKeyFrame(tag *libflv.VideoTag) bool {
+	frameType, packetType := videoKind(tag)
+	return frameType == libflv.KEY_FRAME &&
+		(packetType == libflv.AVC_NALU || packetType == codedFramesX)
+}
+
+func isAudioHeader(tag *libflv.AudioTag) bool {
+	return (tag.SoundFormat == libflv.FLV_AUDIO_AAC || tag.SoundFormat == libflv.FLV_AUDIO_OPUS) &&
+		tag.AACPacketType == libflv.AAC_SEQUENCE_HEADER
+}
diff --git a/librtmp/room.go b/librtmp/room.go
index 7300191..0b06b65 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -3,9 +3,7 @@ package librtmp
 import (
 	"fmt"
 	"sync"
-	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
@@ -13,7 +11,7 @@ import (
 type Room struct {
 	RoomID    string
 	Publisher *RTMP
-	GOP       *broadcast.Broadcast
+	GOP       *gopCache
 
 	// Cached sequence headers. Populated by the publisher the first
 	// time it emits them and replayed to every new subscriber before
@@ -32,7 +30,7 @@ func NewRoom(rtmp *RTMP, roomID string) *Room {
 	r := &Room{
 		RoomID:    roomID,
 		Publisher: rtmp,
-		GOP:       broadcast.NewBroadcast(3),
+		GOP:       newGOPCache(),
 	}
 	return r
 }
@@ -71,105 +69,51 @@ func (room *Room) Close() {
 	}
 	room.closed = true
 	room.mu.Unlock()
-	//DisAlive() wakes every BroadcastReader with alive=false so the
-	//RTMP/FLV/HLS join goroutines exit cleanly.
-	room.GOP.DisAlive()
+	//Close() ends every reader with alive=false so the RTMP/FLV/HLS join
+	//goroutines exit cleanly.
+	room.GOP.Close()
 }
 
-//player join the room
-func (room *Room) RTMPJoin(rtmp *RTMP) {
-	go func() {
-		//Backfill sequence headers so a player joining mid-GOP has the
-		//decoder configuration before the first video tag arrives.
-		meta, videoHdr, audioHdr := room.snapshotHeaders()
-		if meta != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   meta.GetTagInfo().TimeStamp,
-				messageLength: meta.GetTagInfo().DataSize,
-				messageType:   MessageType(meta.GetTagInfo().TagType),
-			}
-			_ = NewDataMessage(mb, meta).Send()
+//player join the room: gopReader's tags are sent to rtmp until either ends
+func (room *Room) RTMPJoin(rtmp *RTMP, gopReader *gopReader) {
+	var err error
+	for {
+		p, alive := gopReader.Read()
+		if !alive {
+			fmt.Println("the publisher had been exit.")
+			return
 		}
-		if videoHdr != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   videoHdr.GetTagInfo().TimeStamp,
-				messageLength: videoHdr.GetTagInfo().DataSize,
-				messageType:   MessageType(videoHdr.GetTagInfo().TagType),
-			}
-			_ = NewVideoMessage(mb, videoHdr).Send()
+		tag := p.(libflv.Tag)
+		mb := MessageBase{
+			rtmp:            rtmp,
+			messageTime:     tag.GetTagInfo().TimeStamp,
+			messageLength:   tag.GetTagInfo().DataSize,
+			messageType:     MessageType(tag.GetTagInfo().TagType),
+			messageStreamID: 0,
 		}
-		if audioHdr != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   audioHdr.GetTagInfo().TimeStamp,
-				messageLength: audioHdr.GetTagInfo().DataSize,
-				messageType:   MessageType(audioHdr.GetTagInfo().TagType),
-			}
-			_ = NewAudioMessage(mb, audioHdr).Send()
+		if audioTag, oka := tag.(*libflv.AudioTag); oka {
+			err = NewAudioMessage(mb, audioTag).Send()
+		} else if videoTag, okv := tag.(*libflv.VideoTag); okv {
+			err = NewVideoMessage(mb, videoTag).Send()
+		} else if dataTag, okd := tag.(*libflv.MetaTag); okd {
+			err = NewDataMessage(mb, dataTag).Send()
 		}
-
-		var err error
-		gopReader := broadcast.NewBroadcastReader(room.GOP)
-		for {
-			p, alive := gopReader.Read()
-			if !alive {
-				fmt.Println("the publisher had been exit.")
-				break
-			}
-			tag := p.(libflv.Tag)
-			fmt.Printf("read packet from gop, now:%v, tag:%+v\n", time.Now(), tag)
-			mb := MessageBase{
-				rtmp:            rtmp,
-				messageTime:     tag.GetTagInfo().TimeStamp,
-				messageLength:   tag.GetTagInfo().DataSize,
-				messageType:     MessageType(tag.GetTagInfo().TagType),
-				messageStreamID: 0,
-			}
-			if audioTag, oka := tag.(*libflv.AudioTag); oka {
-				err = NewAudioMessage(mb, audioTag).Send()
-			} else if videoTag, okv := tag.(*libflv.VideoTag); okv {
-				err = NewVideoMessage(mb, videoTag).Send()
-			} else if dataTag, okd := tag.(*libflv.MetaTag); okd {
-				err = NewDataMessage(mb, dataTag).Send()
-			}
-			if err != nil {
-				//A write error on a player socket generally means the
-				//player disconnected. Stop pushing — the outer handler
-				//will notice when the TCP read loop sees EOF.
-				fmt.Println("send data error:", err)
-				return
-			}
+		if err != nil {
+			//A write error on a player socket generally means the
+			//player disconnected. Stop pushing — the outer handler
+			//will notice when the TCP read loop sees EOF.
+			fmt.Println("send data error:", err)
+			return
 		}
-	}()
+	}
 }
 
-func (room *Room) FLVJoin(writer easyio.EasyWriter) {
+func (room *Room) FLVJoin(writer easyio.EasyWriter, gopReader *gopReader) {
 	//FLV header + PreviousTagSize0 (always zero).
 	if err := writer.WriteFull([]byte{0x46, 0x4c, 0x56, 0x01, 0x05, 0x00, 0x00, 0x00, 0x09, 0x00, 0x00, 0x00, 0x00}); err != nil {
 		return
 	}
 
-	//Backfill cached sequence headers for mid-GOP joiners.
-	meta, videoHdr, audioHdr := room.snapshotHeaders()
-	if meta != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(meta)); err != nil {
-			return
-		}
-	}
-	if videoHdr != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(videoHdr)); err != nil {
-			return
-		}
-	}
-	if audioHdr != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(audioHdr)); err != nil {
-			return
-		}
-	}
-
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
 	for {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index cc9ffc9..52a0c50 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -1,25 +1,32 @@
 package librtmp
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"net"
+	"sync"
+	"time"
 
 	"github.com/SmartBrave/Athena/easyio"
 )
 
 type RTMP struct {
+	conn             net.Conn
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
-	lastChunk        map[uint32]*Chunk //csid
+	writeMu          sync.Mutex         //a message is written in one go; guards ownMaxChunkSize
+	lastChunk        map[uint32]*Chunk  //csid
+	partial          map[uint32]Message //csid, messages not yet complete
 	peerMaxChunkSize uint32
 	ownMaxChunkSize  int
 	peer             string
 	app              string
-	room             *Room
+	room             *Room //the room this session publishes to
 	server           *server
 	playType         string
 	role             connRole
+	play             *playSession
 
 	// Peer-advertised flow control state.
 	peerWindowAckSize  uint32
@@ -30,7 +37,7 @@ type RTMP struct {
 	// bytes we must reply with an Acknowledgement so the peer's send
 	// window can slide forward (RTMP 1.0 §5.4.3).
 	ownWindowAckSize uint32
-	bytesReceived    uint32
+	bytesReceived    uint32 //handshake and chunk headers included
 	lastAcked        uint32
 
 	// Outbound (client) bookkeeping. connectApp is the app name passed
@@ -41,6 +48,39 @@ type RTMP struct {
 	connectApp   string
 	tcURL        string
 	resultCount  uint32 //atomic
+	pull         *PullClient
+}
+
+// playSession is the part of a session that sends a room's media to the peer.
+type playSession struct {
+	gopReader *gopReader
+	done      chan struct{}
+}
+
+// countingReader counts what the session received.
+type countingReader struct {
+	io.Reader
+	rtmp *RTMP
+}
+
+func (cr *countingReader) Read(p []byte) (n int, err error) {
+	n, err = cr.Reader.Read(p)
+	cr.rtmp.bytesReceived += uint32(n)
+	cr.rtmp.acknowledge()
+	return n, err
+}
+
+// acknowledge sends a Window Acknowledgement if one is due. The sequence
+// number is the cumulative count received.
+func (rtmp *RTMP) acknowledge() {
+	if rtmp.peerWindowAckSize > 0 && rtmp.bytesReceived-rtmp.lastAcked >= rtmp.peerWindowAckSize {
+		ack := NewAcknowledgeMessage(MessageBase{rtmp: rtmp}, rtmp.bytesReceived)
+		if sendErr := ack.Send(); sendErr == nil {
+			rtmp.lastAcked = rtmp.bytesReceived
+		} else {
+			fmt.Println("send acknowledgement error:", sendErr)
+		}
+	}
 }
 
 type connRole uint8
@@ -52,8 +92,8 @@ const (
 )
 
 func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
-	return &RTMP{
-		readerConn:       easyio.NewEasyReader(conn),
+	rtmp = &RTMP{
+		conn:             conn,
 		writerConn:       easyio.NewEasyWriter(conn),
 		lastChunk:        make(map[uint32]*Chunk),
 		peerMaxChunkSize: 128,
@@ -62,6 +102,8 @@ func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 		server:           server,
 		ownWindowAckSize: 2500000,
 	}
+	rtmp.readerConn = easyio.NewEasyReader(bufio.NewReader(&countingReader{Reader: conn, rtmp: rtmp}))
+	return rtmp
 }
 
 func (rtmp *RTMP) HandlerServer() {
@@ -90,22 +132,88 @@ func (rtmp *RTMP) HandlerServer() {
 	}
 }
 
-// cleanup releases any room state the connection owned. For publishers
-// it closes the GOP broadcast so every subscriber (RTMP/FLV/HLS) wakes
-// up with alive=false and exits its read loop; it also removes the
-// room from the owning App. For players it's a no-op — their goroutine
-// observes the closed broadcast on its own.
+// cleanup releases the connection and whatever it owned.
 func (rtmp *RTMP) cleanup() {
+	if rtmp.conn != nil {
+		_ = rtmp.conn.Close()
+	}
+	rtmp.endPublish()
+	rtmp.endPlay()
+}
+
+// publishRoom returns the room that takes the media this session receives, or
+// nil if there is none: media is only taken from a publisher.
+func (rtmp *RTMP) publishRoom() (*Room, error) {
+	if rtmp.room == nil && rtmp.pull != nil {
+		if err := rtmp.pull.publish(rtmp); err != nil {
+			return nil, err
+		}
+	}
+	return rtmp.room, nil
+}
+
+// startPublish makes this session the publisher of a stream, unless it is one
+// already or the name is taken.
+func (rtmp *RTMP) startPublish(app *App, roomID string) bool {
+	if rtmp.room != nil {
+		return false
+	}
+	room := NewRoom(rtmp, roomID)
+	if !app.Publish(room) {
+		return false
+	}
+	rtmp.room = room
+	rtmp.role = rolePublisher
+	rtmp.app = app.appName
+	return true
+}
+
+// endPublish ends the stream this session publishes, if any: the room is
+// removed from the owning App and its GOP broadcast is closed so every
+// subscriber (RTMP/FLV/HLS) wakes up with alive=false and exits its read loop.
+func (rtmp *RTMP) endPublish() {
 	if rtmp.room == nil {
 		return
 	}
-	if rtmp.role == rolePublisher {
-		if app, ok := rtmp.server.apps[rtmp.app]; ok {
-			app.Delete(rtmp.room.RoomID)
-		}
-		rtmp.room.Close()
+	if app, ok := rtmp.server.apps[rtmp.app]; ok {
+		app.Unpublish(rtmp.room)
 	}
+	rtmp.room.Close()
 	rtmp.room = nil
+	rtmp.role = roleUnknown
+}
+
+// startPlay sends room's media to the peer until endPlay or the end of the
+// stream, which the peer is told about.
+func (rtmp *RTMP) startPlay(room *Room) {
+	play := &playSession{
+		gopReader: newGOPReader(room.GOP),
+		done:      make(chan struct{}),
+	}
+	rtmp.play = play
+	if rtmp.role == roleUnknown {
+		rtmp.role = rolePlayer
+	}
+	go func() {
+		defer close(play.done)
+		room.RTMPJoin(rtmp, play.gopReader)
+		if play.gopReader.Ended() {
+			_ = rtmp.sendPlayEnd()
+		}
+	}()
+}
+
+// endPlay stops what startPlay began, if anything.
+func (rtmp *RTMP) endPlay() {
+	if rtmp.play == nil {
+		return
+	}
+	rtmp.play.gopReader.Close()
+	<-rtmp.play.done
+	rtmp.play = nil
+	if rtmp.role == rolePlayer {
+		rtmp.role = roleUnknown
+	}
 }
 
 // HandlerClient connects outbound: handshakes as client, sends
@@ -116,6 +224,8 @@ func (rtmp *RTMP) cleanup() {
 func (rtmp *RTMP) HandlerClient() {
 	defer rtmp.cleanup()
 
+	//An upstream that never answers must not keep us from trying again.
+	_ = rtmp.conn.SetReadDeadline(time.Now().Add(30 * time.Second))
 	if err := HandshakeClient(rtmp); err != nil {
 		fmt.Println("client handshake error:", err)
 		return
@@ -125,6 +235,7 @@ func (rtmp *RTMP) HandlerClient() {
 		fmt.Println("client command error:", err)
 		return
 	}
+	_ = rtmp.conn.SetReadDeadline(time.Time{})
 
 	for {
 		err := ParseMessage(rtmp)
diff --git a/librtmp/server.go b/librtmp/server.go
index 0189165..55827fe 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -13,7 +13,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -118,6 +117,7 @@ func (s *server) SetHlsDir(appName string, dir string) *server {
 		panic("appName does not exist.")
 	}
 	s.apps[appName].hlsDir = dir
+	s.apps[appName].dashDir = dir
 	return s
 }
 
@@ -171,6 +171,9 @@ func (s *server) Handler() error {
 				if err := pc.Run(); err != nil {
 					fmt.Printf("rtmp pull %s: %v\n", spec.remoteURL, err)
 				}
+				if pc.published {
+					backoff = time.Second
+				}
 				time.Sleep(backoff)
 				if backoff < 30*time.Second {
 					backoff *= 2
@@ -198,6 +201,22 @@ func (s *server) Handler() error {
 	}
 }
 
+// checkMethod answers requests that are not for content.
+func checkMethod(w http.ResponseWriter, r *http.Request) bool {
+	switch r.Method {
+	case http.MethodGet, http.MethodHead:
+		return true
+	case http.MethodOptions:
+		w.Header().Set("Access-Control-Allow-Origin", "*")
+		w.Header().Set("Access-Control-Allow-Methods", "GET,OPTIONS,HEAD")
+		w.WriteHeader(http.StatusNoContent)
+	default:
+		w.Header().Set("Allow", "GET,OPTIONS,HEAD")
+		w.WriteHeader(http.StatusMethodNotAllowed)
+	}
+	return false
+}
+
 // parseFlvURL normalises /app/stream.flv? paths into (appName, roomID).
 // Query strings are stripped and the ".flv" suffix must be present.
 func parseFlvURL(rawPath string) (appName, roomID string, ok bool) {
@@ -230,6 +249,9 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 	mux := http.NewServeMux()
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}.flv[?query]
+		if !checkMethod(w, r) {
+			return
+		}
 		appName, roomID, ok := parseFlvURL(r.URL.Path)
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
@@ -262,13 +284,15 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 			//background so the OS-level read buffer never stalls the
 			//writer side.
 			go ws.servePings(stop)
+			gopReader := newGOPReader(room.GOP)
 			done := make(chan struct{})
 			go func() {
-				room.FLVJoin(easyio.NewEasyWriter(&wsWriter{ws: ws}))
+				room.FLVJoin(easyio.NewEasyWriter(&wsWriter{ws: ws}), gopReader)
 				close(done)
 			}()
 			select {
 			case <-stop:
+				gopReader.Close()
 			case <-done:
 			}
 			return
@@ -284,8 +308,23 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 		//is set and Flush() has been called. FLVJoin flushes after each
 		//tag via the wrapped writer below.
 
+		if r.Method == http.MethodHead {
+			return
+		}
+
 		flusher, _ := w.(http.Flusher)
-		room.FLVJoin(newFlushingWriter(w, flusher))
+		gopReader := newGOPReader(room.GOP)
+		done := make(chan struct{})
+		defer close(done)
+		go func() {
+			//a viewer that leaves while there is nothing to write to it
+			select {
+			case <-r.Context().Done():
+				gopReader.Close()
+			case <-done:
+			}
+		}()
+		room.FLVJoin(newFlushingWriter(w, flusher), gopReader)
 	})
 	wg.Done()
 	return http.Serve(flvListener, mux)
@@ -336,6 +375,9 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 	}
 	mux := http.NewServeMux()
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
+		if !checkMethod(w, r) {
+			return
+		}
 		//http://{domain}:{port}/{app}/{roomID}/index.m3u8
 		//http://{domain}:{port}/{app}/{roomID}/{seq}.ts
 		appName, roomID, file, ok := parseHlsURL(r.URL.Path)
@@ -355,22 +397,6 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
-		hls := app.LoadHLS(roomID)
-		if hls == nil {
-			//DELAY mode: lazy-start the transcoder on first playlist
-			//hit so no-one is paying for HLS segmentation when no viewer
-			//is attached.
-			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
-				app.StoreHLS(roomID, hls)
-				go hls.Start(broadcast.NewBroadcastReader(room.GOP))
-				hls.WaitFirstSegment()
-			} else {
-				w.WriteHeader(http.StatusNotFound)
-				return
-			}
-		}
-
 		//DASH dispatch (manifest + init + media segments). Lazy-start
 		//if WithDASH is on but no DASH instance exists yet.
 		switch {
@@ -379,21 +405,36 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			strings.HasSuffix(file, ".m4s"):
 			dash := app.LoadDASH(roomID)
 			if dash == nil && app.dashEnabled {
-				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
-				app.StoreDASH(roomID, dash)
-				go dash.Start(broadcast.NewBroadcastReader(room.GOP))
-				dash.WaitFirstSegment()
+				dash = app.DelayedDASH(room)
+				if dash != nil {
+					waitReady(r, dash.Ready())
+				}
 			}
 			if dash == nil {
 				w.WriteHeader(http.StatusNotFound)
 				return
 			}
-			s.serveDASH(w, r, dash, file)
+			s.serveDASH(w, r, dash, roomID, file)
+			return
+		}
+
+		hls := app.LoadHLS(roomID)
+		if app.hlsMode == libhls.DELAY && file == "index.m3u8" {
+			//DELAY mode: lazy-start the transcoder on first playlist
+			//hit so no-one is paying for HLS segmentation when no viewer
+			//is attached.
+			hls = app.DelayedHLS(room)
+			if hls != nil {
+				waitReady(r, hls.Ready())
+			}
+		}
+		if hls == nil {
+			w.WriteHeader(http.StatusNotFound)
 			return
 		}
 
 		switch {
-		case strings.HasSuffix(file, ".m3u8"):
+		case file == "index.m3u8":
 			//LL-HLS blocking playlist reload: clients append
 			//_HLS_msn=<seq>&_HLS_part=<idx> to ask the server to delay
 			//the response until that media-sequence/part has been
@@ -423,19 +464,11 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			w.Header().Set("Access-Control-Allow-Origin", "*")
 			w.Header().Set("Cache-Control", "no-cache")
 			_, _ = w.Write(playlist)
-		case strings.HasSuffix(file, ".ts"):
-			//Resolve and re-clean the path under the segment dir to
-			//defeat path traversal attempts.
-			requested := filepath.Join(hls.Dir(), file)
-			rel, err := filepath.Rel(hls.Dir(), requested)
-			if err != nil || strings.HasPrefix(rel, "..") {
-				w.WriteHeader(http.StatusForbidden)
-				return
-			}
+		case isSegmentName(file, roomID, ".ts"):
 			w.Header().Set("Content-Type", "video/mp2t")
 			w.Header().Set("Access-Control-Allow-Origin", "*")
 			w.Header().Set("Cache-Control", "max-age=3600")
-			http.ServeFile(w, r, requested)
+			serveSegment(w, r, filepath.Join(hls.Dir(), file))
 		default:
 			w.WriteHeader(http.StatusNotFound)
 		}
@@ -448,10 +481,8 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 //   index.mpd            → dynamic manifest
 //   <stream>-init.mp4    → init segment (ftyp + moov)
 //   <stream>-<seq>.m4s   → media segment (moof + mdat)
-// Both file types are static under dash.Dir() so http.ServeFile is the
-// right tool — and it handles Range requests for free, which is useful
-// if/when we add CMAF byte-range chunked-transfer mode.
-func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash.DASH, file string) {
+// Both file types are static under dash.Dir().
+func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash.DASH, roomID, file string) {
 	switch {
 	case file == "index.mpd":
 		mpd := dash.Manifest()
@@ -463,31 +494,48 @@ func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash
 		w.Header().Set("Access-Control-Allow-Origin", "*")
 		w.Header().Set("Cache-Control", "no-cache")
 		_, _ = w.Write(mpd)
-	case strings.HasSuffix(file, "-init.mp4"):
-		full := filepath.Join(dash.Dir(), file)
-		rel, err := filepath.Rel(dash.Dir(), full)
-		if err != nil || strings.HasPrefix(rel, "..") {
-			w.WriteHeader(http.StatusForbidden)
-			return
-		}
+	case file == roomID+"-init.mp4":
 		w.Header().Set("Content-Type", "video/mp4")
 		w.Header().Set("Access-Control-Allow-Origin", "*")
-		http.ServeFile(w, r, full)
-	case strings.HasSuffix(file, ".m4s"):
-		full := filepath.Join(dash.Dir(), file)
-		rel, err := filepath.Rel(dash.Dir(), full)
-		if err != nil || strings.HasPrefix(rel, "..") {
-			w.WriteHeader(http.StatusForbidden)
-			return
-		}
+		serveSegment(w, r, filepath.Join(dash.Dir(), file))
+	case isSegmentName(file, roomID, ".m4s"):
 		w.Header().Set("Content-Type", "video/iso.segment")
 		w.Header().Set("Access-Control-Allow-Origin", "*")
-		http.ServeFile(w, r, full)
+		serveSegment(w, r, filepath.Join(dash.Dir(), file))
 	default:
 		w.WriteHeader(http.StatusNotFound)
 	}
 }
 
+// waitReady waits for a segmenter's first segment, or for the client to leave.
+func waitReady(r *http.Request, ready <-chan struct{}) {
+	select {
+	case <-ready:
+	case <-r.Context().Done():
+	}
+}
+
+// isSegmentName reports whether file is <roomID>-<number><ext>, so that nothing
+// but a segment of the stream can be asked for.
+func isSegmentName(file, roomID, ext string) bool {
+	if !strings.HasPrefix(file, roomID+"-") || !strings.HasSuffix(file, ext) {
+		return false
+	}
+	seq := strings.TrimSuffix(strings.TrimPrefix(file, roomID+"-"), ext)
+	return seq != "" && strings.Trim(seq, "0123456789") == ""
+}
+
+// serveSegment serves a file that may be gone already. http.ServeFile handles
+// Range requests for free.
+func serveSegment(w http.ResponseWriter, r *http.Request, name string) {
+	if _, err := os.Stat(name); err != nil {
+		w.Header().Del("Cache-Control")
+		w.WriteHeader(http.StatusNotFound)
+		return
+	}
+	http.ServeFile(w, r, name)
+}
+
 // handleRTSP runs the RTSP TCP listener. Each accepted connection
 // becomes one rtspSession running in its own goroutine.
 func (s *server) handleRTSP(wg *sync.WaitGroup) error {
diff --git a/librtmp/video.go b/librtmp/video.go
index 5ec3ad6..351c8d0 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -1,8 +1,6 @@
 package librtmp
 
 import (
-	"fmt"
-
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
 
@@ -47,6 +45,8 @@ func NewVideoMessage(mb MessageBase, fields ...interface{}) (vm *VideoMessage) {
 }
 
 func (vm *VideoMessage) Send() (err error) {
+	vm.rtmp.writeMu.Lock()
+	defer vm.rtmp.writeMu.Unlock()
 	chunkSize := vm.rtmp.ownMaxChunkSize
 	for i := 0; ; i++ {
 		lIndex := i * chunkSize
@@ -82,18 +82,15 @@ func (vm *VideoMessage) Parse() (err error) {
 }
 
 func (vm *VideoMessage) Do() (err error) {
-	if vm.rtmp.room == nil {
-		return nil
+	if room, err := vm.rtmp.publishRoom(); room == nil {
+		return err
 	}
-	if vm.videoTag.FrameType == libflv.KEY_FRAME {
-		if vm.videoTag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-			vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
-			vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
-		} else {
-			vm.rtmp.room.GOP.Reset()
-			vm.rtmp.room.GOP.Write(vm.videoTag)
-		}
-		fmt.Printf("write packet video :%+v\n", vm.videoTag)
+	if isVideoHeader(vm.videoTag) {
+		vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
+		vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
+	} else if isKeyFrame(vm.videoTag) {
+		vm.rtmp.room.GOP.Reset()
+		vm.rtmp.room.GOP.Write(vm.videoTag)
 	} else {
 		vm.rtmp.room.GOP.Write(vm.videoTag)
 	}
-- 
2.43.0


From b89db08ac19065b894203537ed94fd2329f3e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 16/27] fix: a stream ends in the app it was published to,
 whatever the session connects to later

---
 librtmp/rtmp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 52a0c50..87b3c87 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -23,6 +23,7 @@ type RTMP struct {
 	peer             string
 	app              string
 	room             *Room //the room this session publishes to
+	roomApp          *App  //the App that owns room
 	server           *server
 	playType         string
 	role             connRole
@@ -163,6 +164,7 @@ func (rtmp *RTMP) startPublish(app *App, roomID string) bool {
 		return false
 	}
 	rtmp.room = room
+	rtmp.roomApp = app
 	rtmp.role = rolePublisher
 	rtmp.app = app.appName
 	return true
@@ -175,9 +177,7 @@ func (rtmp *RTMP) endPublish() {
 	if rtmp.room == nil {
 		return
 	}
-	if app, ok := rtmp.server.apps[rtmp.app]; ok {
-		app.Unpublish(rtmp.room)
-	}
+	rtmp.roomApp.Unpublish(rtmp.room)
 	rtmp.room.Close()
 	rtmp.room = nil
 	rtmp.role = roleUnknown
-- 
2.43.0


From 7143537651f6b7439714271951645458e8f5fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 17/27] fix: publish and play commands whose name is no string
 are refused

---
 librtmp/command_message.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index b87e95f..3a7c0fd 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -143,13 +143,17 @@ func (cm *CommandMessage) Parse() (err error) {
 		if len(array) < 5 {
 			return errors.New("invalid publish command")
 		}
-		cm.PublishingName, _ = array[3].(string)
+		if cm.PublishingName, ok = array[3].(string); !ok {
+			return errors.New("publishing name is not a string")
+		}
 		cm.PublishingType, _ = array[4].(string)
 	case PLAY:
 		if len(array) < 4 {
 			return errors.New("invalid play command")
 		}
-		cm.PublishingName, _ = array[3].(string)
+		if cm.PublishingName, ok = array[3].(string); !ok {
+			return errors.New("stream name is not a string")
+		}
 	case PAUSE:
 		//pause(cmd, txn, null, pauseFlag, milliSeconds)
 		if len(array) >= 5 {
-- 
2.43.0


From 9e3c8733590fd7178794061a9279a0a2591f9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 18/27] fix: SRT timestamps keep their distance when the tracks
 begin on both sides of the wrap

---
 librtmp/srt_server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index ca633b1..4d8038f 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -30,6 +30,7 @@ type srtCaller struct {
 
 	// TS time, which wraps at 33 bits, without the wrap.
 	time  int64
+	lead  int64 //added to all
 	timed bool
 
 	// Sequence-header bookkeeping. Once SPS/PPS are extracted from
@@ -107,12 +108,15 @@ func (c *srtCaller) close() {
 func (c *srtCaller) ms(ts uint64) int64 {
 	if !c.timed {
 		c.timed, c.time = true, int64(ts)
+		if ts < 90000 {
+			c.lead = 90000 //the other track may begin before the wrap
+		}
 	}
 	c.time += tsDiff(ts, uint64(c.time))
-	if c.time < 0 {
+	if c.time+c.lead < 0 {
 		return 0
 	}
-	return c.time / 90
+	return (c.time + c.lead) / 90
 }
 
 // tsDiff returns a − b for 33-bit times.
@@ -128,7 +132,7 @@ func (c *srtCaller) onVideo(au libsrt.AccessUnit) {
 		return //not bridged
 	}
 	dts := c.ms(au.DTS)
-	pts := (c.time + tsDiff(au.PTS, au.DTS)) / 90
+	pts := (c.time + c.lead + tsDiff(au.PTS, au.DTS)) / 90
 
 	var params, sps, pps [][]byte
 	var pictureNALs [][]byte
-- 
2.43.0


From 9c5b5ad76a04901e1b455e5c6fe6653b2a9bad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 19/27] fix: WebSocket close frames with illegal status codes
 are not echoed

---
 librtmp/websocket.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index b17a407..3866886 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -228,8 +228,8 @@ func (ws *wsConn) servePings(stop chan struct{}) {
 			if len(payload) > 2 {
 				payload = payload[:2]
 			}
-			if len(payload) < 2 {
-				payload = nil
+			if len(payload) > 0 && !validCloseCode(payload) {
+				payload = []byte{1002 >> 8, 1002 & 0xFF} //protocol error
 			}
 			_ = ws.writeFrame(wsOpClose, payload)
 			close(stop)
@@ -237,3 +237,18 @@ func (ws *wsConn) servePings(stop chan struct{}) {
 		}
 	}
 }
+
+// validCloseCode tells whether a status code may be sent in a close frame
+// (RFC 6455 §7.4).
+func validCloseCode(payload []byte) bool {
+	if len(payload) < 2 {
+		return false
+	}
+	switch code := binary.BigEndian.Uint16(payload); {
+	case code == 1004, code == 1005, code == 1006:
+		return false
+	case code >= 1000 && code <= 1014, code >= 3000 && code <= 4999:
+		return true
+	}
+	return false
+}
-- 
2.43.0


From 7719d760b1dffe0b59b32c0303d419a217e73086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 20/27] fix: look up HTTP paths undecoded once more

The FLV and HLS handlers parsed the already decoded path as a URL again, so
that a stream whose name contains '%' or '?' was unreachable, or another
stream was served in its place.
---
 librtmp/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 55827fe..8f8ea4d 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -252,7 +252,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 		if !checkMethod(w, r) {
 			return
 		}
-		appName, roomID, ok := parseFlvURL(r.URL.Path)
+		appName, roomID, ok := parseFlvURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
@@ -380,7 +380,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 		}
 		//http://{domain}:{port}/{app}/{roomID}/index.m3u8
 		//http://{domain}:{port}/{app}/{roomID}/{seq}.ts
-		appName, roomID, file, ok := parseHlsURL(r.URL.Path)
+		appName, roomID, file, ok := parseHlsURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
-- 
2.43.0


From 76dceba4e15448cc35cfbc36894c855874f9bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 21/27] fix: serve segments of streams whose name is not UTF-8

http.ServeFile answers 404 for file names that are not UTF-8, so that the
playlist of such a stream named segments nobody could get.
---
 librtmp/server.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 8f8ea4d..ab43991 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -525,15 +525,20 @@ func isSegmentName(file, roomID, ext string) bool {
 	return seq != "" && strings.Trim(seq, "0123456789") == ""
 }
 
-// serveSegment serves a file that may be gone already. http.ServeFile handles
-// Range requests for free.
+// serveSegment serves a file that may be gone already. http.ServeContent handles
+// Range requests for free; http.ServeFile refuses names that are not UTF-8.
 func serveSegment(w http.ResponseWriter, r *http.Request, name string) {
-	if _, err := os.Stat(name); err != nil {
-		w.Header().Del("Cache-Control")
-		w.WriteHeader(http.StatusNotFound)
-		return
+	f, err := os.Open(name)
+	if err == nil {
+		defer f.Close()
+		var fi os.FileInfo
+		if fi, err = f.Stat(); err == nil {
+			http.ServeContent(w, r, name, fi.ModTime(), f)
+			return
+		}
 	}
-	http.ServeFile(w, r, name)
+	w.Header().Del("Cache-Control")
+	w.WriteHeader(http.StatusNotFound)
 }
 
 // handleRTSP runs the RTSP TCP listener. Each accepted connection
-- 
2.43.0


From 91a6165e93fac26aba5b4223c7dca82b211ff64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 22/27] fix: pull connects with the tcUrl of the application

The tcUrl was cut out of the configured URL by suffix, so a URL without
the stream name or with a query produced one with the application twice.
---
 librtmp/client.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 8f91f7a..f370e9f 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -67,8 +67,7 @@ func (pc *PullClient) Run() error {
 	rtmp.pull = pc
 
 	rtmp.connectApp = parseAppName(u.Path)
-	rtmp.tcURL = strings.TrimSuffix(pc.spec.remoteURL,
-		"/"+rtmp.connectApp+"/"+parsePlayName(u.Path)) + "/" + rtmp.connectApp
+	rtmp.tcURL = u.Scheme + "://" + u.Host + "/" + rtmp.connectApp
 	rtmp.playType = parsePlayName(u.Path)
 	if rtmp.playType == "" {
 		rtmp.playType = pc.spec.streamID
-- 
2.43.0


From 7de8a718cfc3b97b9544d585b1926cd6ab79d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 23/27] fix: PES extension fields end where their length says

---
 libmpeg/pes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmpeg/pes.go b/libmpeg/pes.go
index f8f686f..5cece53 100644
--- a/libmpeg/pes.go
+++ b/libmpeg/pes.go
@@ -174,6 +174,11 @@ func (pes *PES) Parse(reader easyio.EasyReader) (err error) {
 				if err != nil {
 					return err
 				}
+				packFieldLength := b[0]
+				b, err = reader.ReadN(uint32(packFieldLength))
+				if err != nil {
+					return err
+				}
 				//TODO
 			}
 			if programPacketSequenceCounterFlag == 0x01 {
@@ -195,7 +200,7 @@ func (pes *PES) Parse(reader easyio.EasyReader) (err error) {
 				if err != nil {
 					return err
 				}
-				pesExtensionFieldLength := b[0]
+				pesExtensionFieldLength := b[0] & 0x7f //a marker bit comes first
 				b, err = reader.ReadN(uint32(pesExtensionFieldLength))
 				if err != nil {
 					return err
-- 
2.43.0


From d4dfaf6fea22a11ef953d38395a4502a29912434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 24/27] fix: libavc: NAL unit lengths have the size the
 sequence header gives, not always 4 bytes

---
 libavc/avc.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 2355eb4..badaf68 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -58,6 +58,7 @@ type sequenceHeader struct {
 type Parser struct {
 	SpecificInfo []byte
 	Pps          *bytes.Buffer
+	naluLen      int //size of the NAL unit lengths, 0 before the first sequence header
 }
 
 func (parser *Parser) ParseSpecificInfo(src []byte) error {
@@ -93,6 +94,7 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 
 	//a later sequence header replaces the earlier one
 	parser.SpecificInfo = info
+	parser.naluLen = int(seq.naluLen)
 	return nil
 }
 
@@ -128,11 +130,19 @@ func (parser *Parser) IsNaluHeader(src []byte) bool {
 		src[3] == 0x01
 }
 
+// lengthSize is the size of the NAL unit lengths, as the sequence header has it.
+func (parser *Parser) lengthSize() int {
+	if parser.naluLen == 0 {
+		return naluBytesLen
+	}
+	return parser.naluLen
+}
+
 func (parser *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
+	if len(src) < parser.lengthSize() {
 		return 0, fmt.Errorf("nalusizedata invalid")
 	}
-	buf := src[:naluBytesLen]
+	buf := src[:parser.lengthSize()]
 	size := int(0)
 	for i := 0; i < len(buf); i++ {
 		size = size<<8 + int(buf[i])
@@ -144,7 +154,8 @@ func (parser *Parser) naluSize(src []byte) (int, error) {
 // access unit with an IDR picture but without a parameter set of its own gets the
 // ones of the sequence header. Nothing is written if src is malformed.
 func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
-	if len(src) < naluBytesLen {
+	lengthSize := parser.lengthSize()
+	if len(src) < lengthSize {
 		return videoDataInvalid
 	}
 
@@ -155,7 +166,7 @@ func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
 		if err != nil {
 			return dataSizeNotMatch
 		}
-		index += naluBytesLen
+		index += lengthSize
 		if nalLen <= 0 || nalLen > len(src)-index {
 			return naluBodyLenError
 		}
@@ -178,7 +189,7 @@ func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
 	}
 	for index := 0; index < len(src); {
 		nalLen, _ := parser.naluSize(src[index:])
-		index += naluBytesLen
+		index += lengthSize
 		nal := src[index : index+nalLen]
 		index += nalLen
 		if nal[0]&0x1f == nalu_type_aud {
-- 
2.43.0


From c9d0c37944240c905312cf0cd193c2f9ed102570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 25/27] fix: HLS: lengths of HEVC NAL units have the size the
 sequence header gives

---
 libhls/hls.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 7f0ac86..27108ce 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -88,6 +88,7 @@ type HLS struct {
 	frameInterval   uint64 //distance of the last two video frames
 	partIndependent bool   //the open part starts with a keyframe
 	hevcSets        []byte //AnnexB VPS/SPS/PPS of the latest HEVC sequence header
+	hevcLengthSize  int    //size of the NAL unit lengths, 0 before the first HEVC sequence header
 
 	// Shared state — protected by mu / cond. mu is a plain Mutex so it
 	// can satisfy sync.Cond's Locker contract (RWMutex would funnel
@@ -558,6 +559,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				//keyframes that come without VPS/SPS/PPS in-band.
 				if sets, ok := hevcParameterSets(pv.Data()); ok {
 					hls.hevcSets = sets
+					hls.hevcLengthSize = int(pv.Data()[21]&0x03) + 1
 				}
 				return nil, 0, false, true
 			}
@@ -573,11 +575,15 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
 			pes.HeaderIndex = 0
-			pes.Data = avccToAnnexB(pv.Data())
+			lengthSize := hls.hevcLengthSize
+			if lengthSize == 0 {
+				lengthSize = 4
+			}
+			pes.Data = avccToAnnexB(pv.Data(), lengthSize)
 			if len(pes.Data) == 0 {
 				return nil, 0, false, true
 			}
-			if videoKey && !hasHEVCSPS(pv.Data()) {
+			if videoKey && !hasHEVCSPS(pv.Data(), lengthSize) {
 				pes.Data = insertHEVCSets(pes.Data, hls.hevcSets)
 			}
 			if pv.Cts != 0 {
@@ -635,16 +641,15 @@ func newPAT(videoStreamType uint8) *libmpeg.PAT {
 	}
 }
 
-// avccToAnnexB rewrites a 4-byte length-prefixed NAL stream into an
+// avccToAnnexB rewrites a length-prefixed NAL stream into an
 // AnnexB stream (start code 0x00000001 between NALs). Codec-agnostic —
 // works for both H.264 and HEVC since both use the same AVCC framing
 // in FLV.
-func avccToAnnexB(buf []byte) []byte {
+func avccToAnnexB(buf []byte, lengthSize int) []byte {
 	out := make([]byte, 0, len(buf)+16)
-	for off := 0; off+4 <= len(buf); {
-		size := int(buf[off])<<24 | int(buf[off+1])<<16 |
-			int(buf[off+2])<<8 | int(buf[off+3])
-		off += 4
+	for off := 0; off+lengthSize <= len(buf); {
+		size := nalSize(buf[off : off+lengthSize])
+		off += lengthSize
 		if size == 0 {
 			continue
 		}
@@ -658,6 +663,14 @@ func avccToAnnexB(buf []byte) []byte {
 	return out
 }
 
+// nalSize is the NAL unit length that prefix holds.
+func nalSize(prefix []byte) (size int) {
+	for _, b := range prefix {
+		size = size<<8 | int(b)
+	}
+	return size
+}
+
 // hevcParameterSets lists the parameter sets of a
 // HEVCDecoderConfigurationRecord (ISO/IEC 14496-15 8.3.3.1) as AnnexB.
 func hevcParameterSets(record []byte) (sets []byte, ok bool) {
@@ -686,13 +699,13 @@ func hevcParameterSets(record []byte) (sets []byte, ok bool) {
 }
 
 // hasHEVCSPS reports whether a length-prefixed access unit carries an SPS.
-func hasHEVCSPS(buf []byte) bool {
-	for len(buf) > 4 {
-		size := int(buf[0])<<24 | int(buf[1])<<16 | int(buf[2])<<8 | int(buf[3])
-		if size > 0 && buf[4]>>1&0x3f == 33 {
+func hasHEVCSPS(buf []byte, lengthSize int) bool {
+	for len(buf) > lengthSize {
+		size := nalSize(buf[:lengthSize])
+		if size > 0 && buf[lengthSize]>>1&0x3f == 33 {
 			return true
 		}
-		if buf = buf[4:]; size > len(buf) {
+		if buf = buf[lengthSize:]; size > len(buf) {
 			return false
 		}
 		buf = buf[size:]
-- 
2.43.0


From 0710b697123d3ebad69adf2e38f665d452a8005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 26/27] fix: RTSP: NAL unit lengths have the size the sequence
 header gives, not always 4 bytes

---
 librtmp/rtsp_server.go | 28 ++++++++++++++++++++++------
 librtsp/h264.go        | 14 +++++++++++---
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index bf3618b..a5129b7 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -56,6 +56,7 @@ type rtspSession struct {
 	audioTime   int64
 	audioTimed  bool
 	videoParams [][]byte
+	lengthSize  int //of the NAL units in the video frames
 
 	// UDP transport per RFC 2326 §10.12 alternative form. videoUDP /
 	// audioUDP are the server-side sockets we listen on; peerVideoRTP
@@ -78,11 +79,12 @@ type rtspSession struct {
 
 func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 	return &rtspSession{
-		conn:      conn,
-		br:        bufio.NewReader(conn),
-		server:    srv,
-		videoChan: -1,
-		audioChan: -1,
+		conn:       conn,
+		br:         bufio.NewReader(conn),
+		server:     srv,
+		videoChan:  -1,
+		audioChan:  -1,
+		lengthSize: 4,
 		//SSRCs are arbitrary 32-bit ids; pinning to a function of
 		//the connection's local time gives unique-per-session values
 		//that stay stable for the lifetime of the connection.
@@ -529,12 +531,13 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 	}
 	if tag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
 		s.videoParams = parameterSets(tag)
+		s.lengthSize = nalLengthSize(tag)
 		return nil
 	}
 	if tag.AVCPacketType != libflv.AVC_NALU {
 		return nil
 	}
-	nals := librtsp.SplitAVCC(tag.Data())
+	nals := librtsp.SplitNALs(tag.Data(), s.lengthSize)
 	if len(nals) == 0 {
 		return nil
 	}
@@ -787,6 +790,19 @@ func parameterSets(tag *libflv.VideoTag) (nals [][]byte) {
 	return nals
 }
 
+// nalLengthSize is the size of the NAL unit lengths in the frames that follow
+// a sequence header.
+func nalLengthSize(tag *libflv.VideoTag) int {
+	at := 4
+	if tag.CodecID == libflv.FLV_VIDEO_HEVC {
+		at = 21
+	}
+	if b := tag.Data(); len(b) > at {
+		return int(b[at]&0x03) + 1
+	}
+	return 4
+}
+
 func containsSPS(codec uint8, nals [][]byte) bool {
 	for _, nal := range nals {
 		if len(nal) == 0 {
diff --git a/librtsp/h264.go b/librtsp/h264.go
index e284249..b0d3cd2 100644
--- a/librtsp/h264.go
+++ b/librtsp/h264.go
@@ -74,10 +74,18 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 // AVCC; we re-fragment per NAL because the "access unit = one or more
 // NALs" model is what RTP wants.
 func SplitAVCC(buf []byte) [][]byte {
+	return SplitNALs(buf, 4)
+}
+
+// SplitNALs is SplitAVCC for length prefixes of lengthSize bytes.
+func SplitNALs(buf []byte, lengthSize int) [][]byte {
 	var out [][]byte
-	for off := 0; off+4 <= len(buf); {
-		size := int(buf[off])<<24 | int(buf[off+1])<<16 | int(buf[off+2])<<8 | int(buf[off+3])
-		off += 4
+	for off := 0; off+lengthSize <= len(buf); {
+		size := 0
+		for _, b := range buf[off : off+lengthSize] {
+			size = size<<8 | int(b)
+		}
+		off += lengthSize
 		if size < 0 || size > len(buf)-off {
 			return out
 		}
-- 
2.43.0


From 12b0cd97e091d7626dcae9be7efc48fc4c8b5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 27/27] fix: RTSP: video with several SPS in its sequence
 header is described too

---
 librtmp/rtsp_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index a5129b7..5b49b1f 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -894,6 +894,9 @@ func parseAVCDCRForRTSP(src []byte) (sps, pps []byte, w, h uint16, err error) {
 	}
 	sps = append([]byte(nil), src[off:off+spsLen]...)
 	off += spsLen
+	for n := int(src[5] & 0x1F); n > 1 && off+2 <= len(src); n-- {
+		off += 2 + int(src[off])<<8 + int(src[off+1]) //a further SPS
+	}
 	if off >= len(src) {
 		err = fmt.Errorf("DCR truncated before PPS count")
 		return
-- 
2.43.0

