From 7a48529066efbae8a04f54a4454febdde323561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 01/25] fix: write lists longer than 65535 with the array32
 header

---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 1af483e..59d2b28 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -434,7 +434,7 @@ func (p messageWriter) WriteArrayHeader(len int) []byte {
 		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
 		return p.buf[:3]
 	default:
-		p.buf[0] = mpArray16
+		p.buf[0] = mpArray32
 		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
 		return p.buf[:5]
 	}
-- 
2.43.0


From e30b86440c11e71b85c490200f4e13ccd7ef54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 02/25] fix: keep write errors in the packer (pointer
 receivers)

---
 msgpack.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 59d2b28..12314d8 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -191,31 +191,31 @@ func MessagePacker(w io.Writer) *messagePacker {
 	return &messagePacker{w: w}
 }
 
-func (p messagePacker) PackNil()  {
+func (p *messagePacker) PackNil()  {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteNil())
 	}
 }
 
-func (p messagePacker) PackBool(val bool) {
+func (p *messagePacker) PackBool(val bool) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBool(val))
 	}
 }
 
-func (p messagePacker) PackLong(val int64) {
+func (p *messagePacker) PackLong(val int64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteLong(val))
 	}
 }
 
-func (p messagePacker) PackDouble(val float64) {
+func (p *messagePacker) PackDouble(val float64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteDouble(val))
 	}
 }
 
-func (p messagePacker) PackStr(str string) {
+func (p *messagePacker) PackStr(str string) {
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -225,7 +225,7 @@ func (p messagePacker) PackStr(str string) {
 	}
 }
 
-func (p messagePacker) PackBin(b []byte) {
+func (p *messagePacker) PackBin(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -243,7 +243,7 @@ func (p *messagePacker) PackExt(xtag Ext, data []byte) {
 	}
 }
 
-func (p messagePacker) PackList(size int) {
+func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -252,7 +252,7 @@ func (p messagePacker) PackList(size int) {
 	}
 }
 
-func (p messagePacker) PackMap(size int) {
+func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -261,7 +261,7 @@ func (p messagePacker) PackMap(size int) {
 	}
 }
 
-func (p messagePacker) PackRaw(b []byte) {
+func (p *messagePacker) PackRaw(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(b)
 	}
-- 
2.43.0


From 4149e224741dbdc2d77a5578600ef9ca502adf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 03/25] fix: read streams without ReadByte, with short reads
 and with data returned together with EOF

---
 msgpack.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 12314d8..2922829 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -693,29 +693,35 @@ type messageIOUnpacker struct {
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
-	return &messageIOUnpacker{r: r, br: r.(io.ByteReader)}
+	br, _ := r.(io.ByteReader)
+	return &messageIOUnpacker{r: r, br: br}
 }
 
 func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 	if p.br != nil {
 		code, err := p.br.ReadByte()
-		if err != nil {
+		if err == io.EOF {
 			return EOF, nil
 		}
+		if err != nil {
+			return UnexpectedEOF, nil
+		}
 		p.buf[0] = code
 	}  else {
-		n, _ := p.r.Read(p.buf[:1])
-		if n == 0 {
+		_, err := io.ReadFull(p.r, p.buf[:1])
+		if err == io.EOF {
 			return EOF, nil
 		}
+		if err != nil {
+			return UnexpectedEOF, nil
+		}
 	}
 
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := p.r.Read(p.buf[1:n])
-	if m != len {
+	if _, err := io.ReadFull(p.r, p.buf[1:n]); err != nil {
 		return UnexpectedEOF, nil
 	}
 
@@ -724,13 +730,14 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b = make([]byte, n)
-	m, err := p.r.Read(b)
-	if m != n {
-		if err == nil {
+	_, err = io.ReadFull(p.r, b)
+	if err != nil {
+		if err == io.EOF {
 			err = io.ErrUnexpectedEOF
 		}
+		return nil, err
 	}
-	return b, err
+	return b, nil
 }
 
 func nextFormat(code byte) (Format, int) {
-- 
2.43.0


From c47c13cd532527cd9cc0e9c7a7184776b9767223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 04/25] fix: decode maps that start with number keys and
 continue with other keys

---
 unpack.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unpack.go b/unpack.go
index 10ad764..1625aa1 100644
--- a/unpack.go
+++ b/unpack.go
@@ -148,13 +148,12 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				mayBeList = false
 				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
-					item := sparseListItems[i]
-					sortedMapEntries[i] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					item := sparseListItems[j]
+					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
 				}
+				// number order is not the order of the decimal texts
+				sorted = false
 				k := key.String()
-				if i > 0 && prevMapKey > k {
-					sorted = false
-				}
 				sortedMapEntries[i] = ImmutableEntry(k, value)
 				prevMapKey = k
 			}
-- 
2.43.0


From d6ad04641eb5ec6330386ea88493813cdbae1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 05/25] fix: unknown extensions own their bytes after decoding

---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 1625aa1..2fbc00f 100644
--- a/unpack.go
+++ b/unpack.go
@@ -190,5 +190,6 @@ func doParseExt(tagAndData []byte) (Value, error) {
 		return Decimal(v), err
 
 	}
-	return Unknown(tagAndData), nil
+	// the data may still be in the scratch buffer of the unpacker
+	return Unknown(append([]byte(nil), tagAndData...)), nil
 }
-- 
2.43.0


From b269bfb55f57ee032dd990b25d0fda91c0c33b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 06/25] fix: return no value when a number extension fails to
 decode

---
 unpack.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unpack.go b/unpack.go
index 2fbc00f..6275883 100644
--- a/unpack.go
+++ b/unpack.go
@@ -184,10 +184,16 @@ func doParseExt(tagAndData []byte) (Value, error) {
 
 	case BigIntExt:
 		v, err := UnpackBigInt(ext)
-		return BigInt(v), err
+		if err != nil {
+			return nil, err
+		}
+		return BigInt(v), nil
 	case DecimalExt:
 		v, err := UnpackDecimal(ext)
-		return Decimal(v), err
+		if err != nil {
+			return nil, err
+		}
+		return Decimal(v), nil
 
 	}
 	// the data may still be in the scratch buffer of the unpacker
-- 
2.43.0


From e072ae6d16d69f6779d4c3f379384612fa8d51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 07/25] fix: report data that ends inside a collection as
 unexpected EOF

---
 unpack.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/unpack.go b/unpack.go
index 6275883..a954f24 100644
--- a/unpack.go
+++ b/unpack.go
@@ -85,7 +85,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	for i := 0; i < cnt; i++ {
 		el, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEOF(err)
 		}
 		list[i] = el
 	}
@@ -110,11 +110,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	for i := 0; i < cnt; i++ {
 		key, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEOF(err)
 		}
 		value, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEOF(err)
 		}
 
 		if key == nil {
@@ -177,6 +177,14 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 }
 
+// the data ended inside of a collection
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func doParseExt(tagAndData []byte) (Value, error) {
 	xtag := Ext(tagAndData[0])
 	ext := tagAndData[1:]
-- 
2.43.0


From a72b6a6bad7f835d81575b3329eb05a55e33f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 08/25] fix: do not allocate what a header announces before the
 data arrives

---
 msgpack.go | 12 ++++++++++--
 unpack.go  | 31 ++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 2922829..3fec6fb 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -729,8 +729,16 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 }
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
-	b = make([]byte, n)
-	_, err = io.ReadFull(p.r, b)
+	if n <= maxPrealloc {
+		b = make([]byte, n)
+		_, err = io.ReadFull(p.r, b)
+	} else {
+		// grow as the data arrives
+		b, err = io.ReadAll(io.LimitReader(p.r, int64(n)))
+		if err == nil && len(b) < n {
+			err = io.ErrUnexpectedEOF
+		}
+	}
 	if err != nil {
 		if err == io.EOF {
 			err = io.ErrUnexpectedEOF
diff --git a/unpack.go b/unpack.go
index a954f24..3592666 100644
--- a/unpack.go
+++ b/unpack.go
@@ -81,13 +81,13 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	if cnt == 0 {
 		return EmptyImmutableList(), nil
 	}
-	list := make([]Value, cnt)
+	list := make([]Value, 0, preallocSize(cnt))
 	for i := 0; i < cnt; i++ {
 		el, err := doParse(unpacker, parser)
 		if err != nil {
 			return nil, unexpectedEOF(err)
 		}
-		list[i] = el
+		list = append(list, el)
 	}
 	return ImmutableList(list), nil
 }
@@ -127,10 +127,10 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if key.Kind() == NUMBER {
 				// try to build sparse list
 				mayBeList = true
-				sparseListItems = make([]ListItem, cnt)
+				sparseListItems = make([]ListItem, 0, preallocSize(cnt))
 			} else {
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, preallocSize(cnt))
 			}
 		}
 
@@ -141,20 +141,19 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-				sparseListItems[i] = ImmutableItem(int(k), value)
+				sparseListItems = append(sparseListItems, ImmutableItem(int(k), value))
 				prevListKey = k
 			} else {
 				// not a list
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
-				for j := 0; j < i; j++ {
-					item := sparseListItems[j]
-					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+				sortedMapEntries = make([]MapEntry, 0, preallocSize(cnt))
+				for _, item := range sparseListItems {
+					sortedMapEntries = append(sortedMapEntries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 				}
 				// number order is not the order of the decimal texts
 				sorted = false
 				k := key.String()
-				sortedMapEntries[i] = ImmutableEntry(k, value)
+				sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 				prevMapKey = k
 			}
 
@@ -163,7 +162,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if i > 0 && prevMapKey > k {
 				sorted = false
 			}
-			sortedMapEntries[i] = ImmutableEntry(k, value)
+			sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 			prevMapKey = k
 		}
 
@@ -177,6 +176,16 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 }
 
+// sizes announced by headers are not trusted with memory
+const maxPrealloc = 256
+
+func preallocSize(cnt int) int {
+	if cnt > maxPrealloc {
+		return maxPrealloc
+	}
+	return cnt
+}
+
 // the data ended inside of a collection
 func unexpectedEOF(err error) error {
 	if err == io.EOF {
-- 
2.43.0


From 9c054a2baabd97f2ad9c5c5d961791b502dfafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 09/25] fix: reject decimal exponents that do not fit 32 bits
 instead of panicking

---
 number.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/number.go b/number.go
index 858e894..c27f6d6 100644
--- a/number.go
+++ b/number.go
@@ -288,11 +288,17 @@ func parseExp(s string) (int32, error) {
 		return 0, err
 	}
 	var buf [4]byte
+	if len(bytes) > len(buf) {
+		return 0, strconv.ErrRange
+	}
 	copy(buf[len(buf)-len(bytes):], bytes)
 	val := int32(binary.BigEndian.Uint32(buf[:]))
 	if neg {
 		val = -val
 	}
+	if val != 0 && neg != (val < 0) {
+		return 0, strconv.ErrRange
+	}
 	return val, nil
 }
 
-- 
2.43.0


From b16bad5fbb979d49f4e6ce4dc2e3017033df2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 10/25] fix: typed getters treat absent (nil) elements as Null

---
 immutablelist.go | 10 +++++-----
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 10 +++++-----
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index a1f2c36..27df64a 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -137,7 +137,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -148,7 +148,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -159,7 +159,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -170,7 +170,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -183,7 +183,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/immutablemap.go b/immutablemap.go
index eb65218..1d25bda 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -194,7 +194,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -205,7 +205,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -216,7 +216,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -227,7 +227,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -240,7 +240,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/solidlist.go b/solidlist.go
index c3ab6e1..70c701c 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -145,7 +145,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -156,7 +156,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -167,7 +167,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -178,7 +178,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -191,7 +191,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sortedmap.go b/sortedmap.go
index 36733c2..8639b48 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -195,7 +195,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -206,7 +206,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -217,7 +217,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -228,7 +228,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -241,7 +241,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sparselist.go b/sparselist.go
index 47719a2..114e073 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -196,7 +196,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -207,7 +207,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -218,7 +218,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -229,7 +229,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -242,7 +242,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
-- 
2.43.0


From e9e11a8ae9ec0c93100a8a3d48fe191c3967cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 11/25] fix: Equal(nil, Null) agrees with Equal(Null, nil)

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a0a323..7a2613b 100644
--- a/utils.go
+++ b/utils.go
@@ -100,7 +100,7 @@ func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (V
 
 func Equal(left Value, right Value) bool {
 	if left == nil {
-		return right == nil
+		return right == nil || right.Kind() == NULL
 	}
 	return left.Equal(right)
 }
-- 
2.43.0


From 81fab8f6eac05692bcec80fa2d9c7a63dcd12a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 12/25] fix: compare UTF-8 strings with raw strings by content

---
 string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 441535b..4812d02 100644
--- a/string.go
+++ b/string.go
@@ -85,7 +85,8 @@ func (s uft8String) Equal(val Value) bool {
 	if val == nil || val.Kind() != STRING {
 		return false
 	}
-	return string(s) == val.String()
+	o := val.(String)
+	return string(s) == o.Utf8()
 }
 
 func (s uft8String) Len() int {
-- 
2.43.0


From 096a6d91997415bb5126e23604fc402bcd355396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 13/25] fix: compare numbers of different types symmetrically

---
 number.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/number.go b/number.go
index c27f6d6..c464068 100644
--- a/number.go
+++ b/number.go
@@ -574,34 +574,45 @@ func (n longNumber) Equal(val Value) bool {
 	if val == nil || val.Kind() != NUMBER {
 		return false
 	}
-	other := val.(Number)
-	return n.Long() == other.Long()
+	return equalNumbers(n, val.(Number))
 }
 
 func (n doubleNumber) Equal(val Value) bool {
 	if val == nil || val.Kind() != NUMBER {
 		return false
 	}
-	other := val.(Number)
-	if n.IsNaN() || other.IsNaN() {
-		return false
-	}
-	return  math.Abs(n.Double() - other.Double()) < PrecisionLevel
+	return equalNumbers(n, val.(Number))
 }
 
 func (n bigIntNumber) Equal(val Value) bool {
 	if val == nil || val.Kind() != NUMBER {
 		return false
 	}
-	other := val.(Number)
-	return n.Int.Cmp(other.BigInt()) == 0
+	return equalNumbers(n, val.(Number))
 }
 
 func (n decimalNumber) Equal(val Value) bool {
 	if val == nil || val.Kind() != NUMBER {
 		return false
 	}
-	other := val.(Number)
-	return n.Decimal().Cmp(other.Decimal()) == 0
+	return equalNumbers(n, val.(Number))
+}
+
+// compares in the wider of both types, so that the order of arguments does not matter
+func equalNumbers(left, right Number) bool {
+	if left.IsNaN() || right.IsNaN() {
+		return false
+	}
+	switch {
+	case left.Type() == DOUBLE || right.Type() == DOUBLE:
+		l, r := left.Double(), right.Double()
+		return l == r || math.Abs(l - r) < PrecisionLevel
+	case left.Type() == DECIMAL || right.Type() == DECIMAL:
+		return left.Decimal().Cmp(right.Decimal()) == 0
+	case left.Type() == BIGINT || right.Type() == BIGINT:
+		return left.BigInt().Cmp(right.BigInt()) == 0
+	default:
+		return left.Long() == right.Long()
+	}
 }
 
-- 
2.43.0


From 7436f137d83f4bdd802cd42e938d62ff20984cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 14/25] fix: compare sparse lists by all items, and with dense
 lists as these compare with them

---
 sparselist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index 114e073..d18c6cf 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -170,8 +170,14 @@ func (t sparseListValue) Equal(val Value) bool {
 	if t.Len() != o.Len() {
 		return false
 	}
+	if _, ok := val.(sparseListValue); !ok {
+		return val.Equal(t)
+	}
 	// entries are sorted
 	other := o.Items()
+	if len(t) != len(other) {
+		return false
+	}
 	for i, item := range t {
 		if !item.Equal(other[i]) {
 			return false
-- 
2.43.0


From bb0279504008116e94ea854257c5cc788c9bf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 15/25] fix: escape strings and map keys as JSON strings

---
 immutablemap.go |  4 +---
 sortedmap.go    |  4 +---
 string.go       | 15 ++++++++++++---
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 1d25bda..0436e58 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -132,9 +132,7 @@ func (t immutableMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
+		out.WriteString(quoteJSON(entry.Key()))
 
 		out.WriteString(": ")
 		value := entry.Value()
diff --git a/sortedmap.go b/sortedmap.go
index 8639b48..1b1c722 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -133,9 +133,7 @@ func (t sortedMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
+		out.WriteString(quoteJSON(entry.Key()))
 
 		out.WriteString(": ")
 		value := entry.Value()
diff --git a/string.go b/string.go
index 4812d02..1690841 100644
--- a/string.go
+++ b/string.go
@@ -9,9 +9,9 @@ package value
 import (
 	"bytes"
 	"encoding/base64"
+	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 )
 
@@ -67,11 +67,11 @@ func (s uft8String) Pack(p Packer) {
 }
 
 func (s uft8String) PrintJSON(out *strings.Builder) {
-	out.WriteString(strconv.Quote(string(s)))
+	out.WriteString(quoteJSON(string(s)))
 }
 
 func (s uft8String) MarshalJSON() ([]byte, error) {
-	return []byte(strconv.Quote(string(s))), nil
+	return []byte(quoteJSON(string(s))), nil
 }
 
 func (s uft8String) MarshalBinary() ([]byte, error) {
@@ -187,3 +187,12 @@ func ParseString(str string) String {
 	}
 	return Utf8(str)
 }
+
+// JSON has less escapes than Go
+func quoteJSON(str string) string {
+	var out strings.Builder
+	enc := json.NewEncoder(&out)
+	enc.SetEscapeHTML(false)
+	enc.Encode(str)
+	return strings.TrimSuffix(out.String(), "\n")
+}
-- 
2.43.0


From c80104bd639d17267975cf63221188db28849886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 16/25] fix: infinities are null in JSON

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index c464068..213a2b2 100644
--- a/number.go
+++ b/number.go
@@ -355,7 +355,7 @@ func (n longNumber) PrintJSON(out *strings.Builder) {
 
 func (n doubleNumber) PrintJSON(out *strings.Builder) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		out.WriteString("null")
 	} else {
 		out.WriteString(strconv.FormatFloat(d, 'f', -1, 64))
@@ -380,7 +380,7 @@ func (n longNumber) MarshalJSON() ([]byte, error) {
 
 func (n doubleNumber) MarshalJSON() ([]byte, error) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return []byte("null"), nil
 	} else {
 		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
-- 
2.43.0


From bcf9a0e431244101f2222211790dd0234f6abf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 17/25] fix: map copies own their entries

---
 immutablemap.go | 8 ++++++--
 sortedmap.go    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 0436e58..64756e1 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -47,8 +47,12 @@ func ImmutableMap(entries []MapEntry, sorted bool) Map {
 }
 
 func ImmutableMapCopyOf(other Map) Map {
-	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
-	return t
+	src := other.Entries()
+	entries := make([]MapEntry, len(src))
+	for i, entry := range src {
+		entries[i] = ImmutableEntry(entry.Key(), entry.Value())
+	}
+	return immutableMapValue(entries)
 }
 
 func (t immutableMapValue) HashMap() map[string]Value {
diff --git a/sortedmap.go b/sortedmap.go
index 1b1c722..1bf71ae 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -48,8 +48,12 @@ func SortedMap(entries []MapEntry, sorted bool) Map {
 }
 
 func SortedMapCopyOf(other Map) Map {
-	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
-	return t
+	src := other.Entries()
+	entries := make([]MapEntry, len(src))
+	for i, entry := range src {
+		entries[i] = MutableEntry(entry.Key(), entry.Value())
+	}
+	return sortedMapValue(entries)
 }
 
 func (t sortedMapValue) HashMap() map[string]Value {
-- 
2.43.0


From a168e2648560b37b70299abec7e9c9fa69aaa010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 18/25] fix: InsertAll of immutable collections leaves the
 argument slice alone

---
 immutablelist.go | 1 +
 immutablemap.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/immutablelist.go b/immutablelist.go
index 27df64a..ba37b15 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -313,6 +313,7 @@ func (t immutableListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/immutablemap.go b/immutablemap.go
index 64756e1..3cad60a 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -373,6 +373,7 @@ func (t immutableMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
-- 
2.43.0


From 7b02e3dca2936ad8b04a0472d18432108809a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 19/25] fix: MarshalBinary of null and booleans does not hand
 out shared bytes

---
 bool.go | 2 +-
 null.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bool.go b/bool.go
index 0f2ae96..5d96d7b 100644
--- a/bool.go
+++ b/bool.go
@@ -62,7 +62,7 @@ func (b boolValue) MarshalJSON() ([]byte, error) {
 
 func (b boolValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteBool(bool(b)), nil
+	return append([]byte(nil), m.WriteBool(bool(b))...), nil
 }
 
 func (b boolValue) Equal(val Value) bool {
diff --git a/null.go b/null.go
index 5d1ee8f..f1b85a3 100644
--- a/null.go
+++ b/null.go
@@ -57,7 +57,7 @@ func (n nullValue) MarshalJSON() ([]byte, error) {
 
 func (n nullValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteNil(), nil
+	return append([]byte(nil), m.WriteNil()...), nil
 }
 
 func (n nullValue) Equal(val Value) bool {
-- 
2.43.0


From b291a1fc607e639d1b67a80fd0e84f7fc9cdb988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 20/25] fix: convert decimals with positive exponent to big
 integers

---
 number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 213a2b2..e2a6a84 100644
--- a/number.go
+++ b/number.go
@@ -499,7 +499,7 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().Coefficient()
+	return decimal.Decimal(n).Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
-- 
2.43.0


From 2f8aa52f8e2e3cfc069d719b94fd343369b10db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 21/25] fix: convert infinities like NaN to big integer and
 decimal instead of panicking

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index e2a6a84..158b66d 100644
--- a/number.go
+++ b/number.go
@@ -485,7 +485,7 @@ func (n longNumber) BigInt() *big.Int {
 
 func (n doubleNumber) BigInt() *big.Int {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return big.NewInt(0)
 	}
 	f := new(big.Float)
@@ -508,7 +508,7 @@ func (n longNumber) Decimal() decimal.Decimal {
 
 func (n doubleNumber) Decimal() decimal.Decimal {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return decimal.NewFromInt(0)
 	}
 	return decimal.NewFromFloat(d)
-- 
2.43.0


From 771807191107f09a60078d010e92d3e9c16476b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 22/25] fix: length and values of sparse lists with negative
 indexes only

---
 sparselist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index d18c6cf..0cb796d 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -91,6 +91,9 @@ func (t sparseListValue) Values() []Value {
 		return nil
 	}
 	maxKey := t[n-1].Key()
+	if maxKey < 0 {
+		return nil
+	}
 	values := make([]Value, maxKey+1)
 
 	for _, item := range t {
@@ -107,6 +110,9 @@ func (t sparseListValue) Len() int {
 		return 0
 	} else {
 		maxKey := t[n-1].Key()
+		if maxKey < 0 {
+			return 0
+		}
 		return maxKey+1
 	}
 }
-- 
2.43.0


From 91bedb10ac4dc197232ea0285573b45f2bb08e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 23/25] fix: Unseal rejects input too short to hold a nonce

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index 7a2613b..343d1ec 100644
--- a/utils.go
+++ b/utils.go
@@ -90,6 +90,9 @@ var ErrUnseal = errors.New("unseal error")
 
 func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (Value, error) {
 	var decryptNonce [24]byte
+	if len(encrypted) < len(decryptNonce) {
+		return nil, ErrUnseal
+	}
 	copy(decryptNonce[:], encrypted[:24])
 	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
 	if !ok {
-- 
2.43.0


From de11c19a9aba2803ee5eae9ddd0d8a27f147c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 24/25] fix: Write and WriteStream accept nil values like Pack

---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 343d1ec..625c82b 100644
--- a/utils.go
+++ b/utils.go
@@ -41,7 +41,11 @@ func Read(r io.Reader) (Value, error) {
 
 func Write(w io.Writer, val Value) error {
 	p := MessagePacker(w)
-	val.Pack(p)
+	if val != nil {
+		val.Pack(p)
+	} else {
+		p.PackNil()
+	}
 	return p.Error()
 }
 
@@ -123,7 +127,11 @@ func WriteStream(w io.Writer, valueC <-chan Value) error {
 			break
 		}
 
-		val.Pack(p)
+		if val != nil {
+			val.Pack(p)
+		} else {
+			p.PackNil()
+		}
 
 	}
 
-- 
2.43.0


From d6be029fe8cd5846887f9f3990491bae26ff0b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 25/25] fix: repeated struct fields keep their values

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 8629bc5..8b3fbe2 100644
--- a/struct.go
+++ b/struct.go
@@ -310,7 +310,6 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						sliceValue = reflect.Append(sliceValue, elemValue)
 						val, err := doParse(unpacker, parser)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
@@ -319,6 +318,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if err != nil {
 							return errors.Errorf("fail to set value %v", err)
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
 					fieldValue.Set(sliceValue)
 				}
-- 
2.43.0

