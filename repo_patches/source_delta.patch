From 6fcc844f886b79d7533602454dfc66bdaea5dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 01/41] fix: write array32 header code for lists longer than
 65535 elements

---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 1af483e..59d2b28 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -434,7 +434,7 @@ func (p messageWriter) WriteArrayHeader(len int) []byte {
 		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
 		return p.buf[:3]
 	default:
-		p.buf[0] = mpArray16
+		p.buf[0] = mpArray32
 		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
 		return p.buf[:5]
 	}
-- 
2.43.0


From 0d64328bfe43baa3081572e5517906d2899bd107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 02/41] fix: keep the packer's write error instead of dropping
 it with a copied receiver

---
 msgpack.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 59d2b28..b8a6404 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -191,31 +191,31 @@ func MessagePacker(w io.Writer) *messagePacker {
 	return &messagePacker{w: w}
 }
 
-func (p messagePacker) PackNil()  {
+func (p *messagePacker) PackNil()  {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteNil())
 	}
 }
 
-func (p messagePacker) PackBool(val bool) {
+func (p *messagePacker) PackBool(val bool) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBool(val))
 	}
 }
 
-func (p messagePacker) PackLong(val int64) {
+func (p *messagePacker) PackLong(val int64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteLong(val))
 	}
 }
 
-func (p messagePacker) PackDouble(val float64) {
+func (p *messagePacker) PackDouble(val float64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteDouble(val))
 	}
 }
 
-func (p messagePacker) PackStr(str string) {
+func (p *messagePacker) PackStr(str string) {
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -225,7 +225,7 @@ func (p messagePacker) PackStr(str string) {
 	}
 }
 
-func (p messagePacker) PackBin(b []byte) {
+func (p *messagePacker) PackBin(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -243,7 +243,7 @@ func (p *messagePacker) PackExt(xtag Ext, data []byte) {
 	}
 }
 
-func (p messagePacker) PackList(size int) {
+func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -252,7 +252,7 @@ func (p messagePacker) PackList(size int) {
 	}
 }
 
-func (p messagePacker) PackMap(size int) {
+func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -261,13 +261,13 @@ func (p messagePacker) PackMap(size int) {
 	}
 }
 
-func (p messagePacker) PackRaw(b []byte) {
+func (p *messagePacker) PackRaw(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(b)
 	}
 }
 
-func (p messagePacker) Error() error {
+func (p *messagePacker) Error() error {
 	return p.err
 }
 
-- 
2.43.0


From d00d738eada3b0d403c3258daa0851c4a2ad360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 03/41] fix: decode maps that mix integer and other keys
 without a nil dereference, in key order

---
 unpack.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unpack.go b/unpack.go
index 10ad764..ed49dd3 100644
--- a/unpack.go
+++ b/unpack.go
@@ -148,13 +148,12 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				mayBeList = false
 				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
-					item := sparseListItems[i]
-					sortedMapEntries[i] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					item := sparseListItems[j]
+					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
 				}
 				k := key.String()
-				if i > 0 && prevMapKey > k {
-					sorted = false
-				}
+				// integer order says nothing about the order of string keys
+				sorted = false
 				sortedMapEntries[i] = ImmutableEntry(k, value)
 				prevMapKey = k
 			}
-- 
2.43.0


From 185b3afd44758b78e38621c3a19189b8bec03d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 04/41] fix: do not truncate double, bigint and decimal map
 keys to a list index or struct tag

---
 struct.go | 2 +-
 unpack.go | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 8629bc5..7e8a65b 100644
--- a/struct.go
+++ b/struct.go
@@ -248,7 +248,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
-		if key.Kind() != NUMBER {
+		if !isIntKey(key) {
 			return errors.Errorf("expected int key, but got %s on position %d", key.Kind().String(), i)
 		}
 		tag := int(key.(Number).Long())
diff --git a/unpack.go b/unpack.go
index ed49dd3..d45c563 100644
--- a/unpack.go
+++ b/unpack.go
@@ -124,7 +124,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 		// first element
 		if i == 0 {
-			if key.Kind() == NUMBER {
+			if isIntKey(key) {
 				// try to build sparse list
 				mayBeList = true
 				sparseListItems = make([]ListItem, cnt)
@@ -136,7 +136,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 		if mayBeList {
 
-			if key.Kind() == NUMBER {
+			if isIntKey(key) {
 				k := key.(Number).Long()
 				if i > 0 && prevListKey > k {
 					sorted = false
@@ -177,6 +177,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 }
 
+// only integers index a list, the other numbers do not fit to int64 without loss
+func isIntKey(key Value) bool {
+	return key.Kind() == NUMBER && key.(Number).Type() == LONG
+}
+
 func doParseExt(tagAndData []byte) (Value, error) {
 	xtag := Ext(tagAndData[0])
 	ext := tagAndData[1:]
-- 
2.43.0


From 434f0b0f2a04f3abd7408fd6aac655be3acd9861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 05/41] fix: do not allocate list and map storage from the size
 an input claims

---
 unpack.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/unpack.go b/unpack.go
index d45c563..0008d03 100644
--- a/unpack.go
+++ b/unpack.go
@@ -73,6 +73,16 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 }
 
+// the claimed size is not trusted, collections grow with the elements that really arrive
+const maxPrealloc = 64
+
+func prealloc(cnt int) int {
+	if cnt > maxPrealloc {
+		return maxPrealloc
+	}
+	return cnt
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
@@ -81,13 +91,13 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	if cnt == 0 {
 		return EmptyImmutableList(), nil
 	}
-	list := make([]Value, cnt)
+	list := make([]Value, 0, prealloc(cnt))
 	for i := 0; i < cnt; i++ {
 		el, err := doParse(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-		list[i] = el
+		list = append(list, el)
 	}
 	return ImmutableList(list), nil
 }
@@ -127,10 +137,10 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if isIntKey(key) {
 				// try to build sparse list
 				mayBeList = true
-				sparseListItems = make([]ListItem, cnt)
+				sparseListItems = make([]ListItem, 0, prealloc(cnt))
 			} else {
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, prealloc(cnt))
 			}
 		}
 
@@ -141,20 +151,19 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-				sparseListItems[i] = ImmutableItem(int(k), value)
+				sparseListItems = append(sparseListItems, ImmutableItem(int(k), value))
 				prevListKey = k
 			} else {
 				// not a list
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
-				for j := 0; j < i; j++ {
-					item := sparseListItems[j]
-					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+				sortedMapEntries = make([]MapEntry, 0, prealloc(cnt))
+				for _, item := range sparseListItems {
+					sortedMapEntries = append(sortedMapEntries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 				}
 				k := key.String()
 				// integer order says nothing about the order of string keys
 				sorted = false
-				sortedMapEntries[i] = ImmutableEntry(k, value)
+				sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 				prevMapKey = k
 			}
 
@@ -163,14 +172,15 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if i > 0 && prevMapKey > k {
 				sorted = false
 			}
-			sortedMapEntries[i] = ImmutableEntry(k, value)
+			sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 			prevMapKey = k
 		}
 
 	}
 
 	if mayBeList {
-		return SparseList(sparseListItems, sorted), nil
+		n := len(sparseListItems)
+		return SparseList(sparseListItems[:n:n], sorted), nil
 	} else {
 		return ImmutableMap(sortedMapEntries, sorted), nil
 	}
-- 
2.43.0


From 94d8e541f2d107cea1a1664badf2dee1718acf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 06/41] fix: reject lists and maps as map keys when decoding,
 their text multiplies with each nesting

---
 unpack.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unpack.go b/unpack.go
index 0008d03..d798d0e 100644
--- a/unpack.go
+++ b/unpack.go
@@ -132,6 +132,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			continue
 		}
 
+		// the text of nested collections used as keys grows exponentially with the nesting
+		if key.Kind() == LIST || key.Kind() == MAP {
+			return nil, errors.Errorf("map: invalid key kind %v", key.Kind())
+		}
+
 		// first element
 		if i == 0 {
 			if isIntKey(key) {
-- 
2.43.0


From 1edffbd8e6fc0d030e555c36b36dfd002960b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 07/41] fix: limit the nesting of decoded collections, deep
 input overflowed the stack

---
 unpack.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/unpack.go b/unpack.go
index d798d0e..551327d 100644
--- a/unpack.go
+++ b/unpack.go
@@ -13,7 +13,18 @@ import (
 )
 
 
+// collections nested deeper are rejected instead of overflowing the stack
+const maxNesting = 10000
+
 func doParse(unpacker Unpacker, parser Parser) (Value, error) {
+	return doParseNested(unpacker, parser, 0)
+}
+
+func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error) {
+
+	if nesting > maxNesting {
+		return nil, errors.Errorf("parse: nesting is deeper than %d", maxNesting)
+	}
 
 	format, header := unpacker.Next()
 
@@ -54,9 +65,9 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		return doParseList(header, unpacker, parser)
+		return doParseList(header, unpacker, parser, nesting+1)
 	case MapHeader:
-		return doParseMap(header, unpacker, parser)
+		return doParseMap(header, unpacker, parser, nesting+1)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -83,7 +94,7 @@ func prealloc(cnt int) int {
 	return cnt
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, nesting int) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -93,7 +104,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, 0, prealloc(cnt))
 	for i := 0; i < cnt; i++ {
-		el, err := doParse(unpacker, parser)
+		el, err := doParseNested(unpacker, parser, nesting)
 		if err != nil {
 			return nil, err
 		}
@@ -102,7 +113,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	return ImmutableList(list), nil
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -118,11 +129,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParseNested(unpacker, parser, nesting)
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParse(unpacker, parser)
+		value, err := doParseNested(unpacker, parser, nesting)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 14ca78ec83c01a800570a54cc76de96af97f0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 08/41] fix: read from any io.Reader, short reads and read
 errors lost data or panicked

---
 msgpack.go | 48 +++++++++++++++++++++++++++++++++++++-----------
 unpack.go  | 18 ++++++++++++++++++
 2 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index b8a6404..dfbf4ac 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -7,6 +7,7 @@
 package value
 
 import (
+	"bytes"
 	"io"
 	"math"
 	"encoding/binary"
@@ -78,6 +79,7 @@ const (
 
 	defWriteBufSize 	= 16
 	defReadBufSize 		= 24
+	maxReadAlloc 		= 65536
 
 	mpCodeMin 			= mpNil
 	mpCodeMax 			= mpMap32
@@ -690,10 +692,12 @@ type messageIOUnpacker struct {
 	buf 	[defReadBufSize]byte
 	r       io.Reader
 	br      io.ByteReader  // can be null
+	err     error          // first failure of the reader, other than end of data
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
-	return &messageIOUnpacker{r: r, br: r.(io.ByteReader)}
+	br, _ := r.(io.ByteReader)
+	return &messageIOUnpacker{r: r, br: br}
 }
 
 func (p *messageIOUnpacker) Next() (Format, []byte) {
@@ -701,12 +705,14 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	if p.br != nil {
 		code, err := p.br.ReadByte()
 		if err != nil {
+			p.fail(err)
 			return EOF, nil
 		}
 		p.buf[0] = code
 	}  else {
-		n, _ := p.r.Read(p.buf[:1])
-		if n == 0 {
+		_, err := io.ReadFull(p.r, p.buf[:1])
+		if err != nil {
+			p.fail(err)
 			return EOF, nil
 		}
 	}
@@ -714,8 +720,9 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := p.r.Read(p.buf[1:n])
-	if m != len {
+	_, err := io.ReadFull(p.r, p.buf[1:n])
+	if err != nil {
+		p.fail(err)
 		return UnexpectedEOF, nil
 	}
 
@@ -723,16 +730,35 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 }
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
-	b = make([]byte, n)
-	m, err := p.r.Read(b)
-	if m != n {
-		if err == nil {
-			err = io.ErrUnexpectedEOF
-		}
+	if n <= maxReadAlloc {
+		b = make([]byte, n)
+		_, err = io.ReadFull(p.r, b)
+	} else {
+		// the claimed size is not trusted, the buffer grows with the bytes that really arrive
+		var buf bytes.Buffer
+		_, err = io.CopyN(&buf, p.r, int64(n))
+		b = buf.Bytes()
+	}
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	if err != nil {
+		p.fail(err)
 	}
 	return b, err
 }
 
+func (p *messageIOUnpacker) fail(err error) {
+	if p.err == nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		p.err = err
+	}
+}
+
+// Error returns the failure of the reader, Next reports it only as end of data
+func (p *messageIOUnpacker) Error() error {
+	return p.err
+}
+
 func nextFormat(code byte) (Format, int) {
 
 	switch {
diff --git a/unpack.go b/unpack.go
index 551327d..ab2983e 100644
--- a/unpack.go
+++ b/unpack.go
@@ -30,8 +30,18 @@ func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error)
 
 	switch format {
 	case EOF:
+		if err := readError(unpacker); err != nil {
+			return nil, err
+		}
+		if nesting > 0 {
+			// end of data inside of the collection
+			return nil, io.ErrUnexpectedEOF
+		}
 		return nil, io.EOF
 	case UnexpectedEOF:
+		if err := readError(unpacker); err != nil {
+			return nil, err
+		}
 		return nil, io.ErrUnexpectedEOF
 	case NilToken:
 		return Null, nil
@@ -84,6 +94,14 @@ func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error)
 
 }
 
+// unpackers that read from the outside may know why the data has ended
+func readError(unpacker Unpacker) error {
+	if u, ok := unpacker.(interface{ Error() error }); ok {
+		return u.Error()
+	}
+	return nil
+}
+
 // the claimed size is not trusted, collections grow with the elements that really arrive
 const maxPrealloc = 64
 
-- 
2.43.0


From 94afb26b62951910726a3a243b37504d96e21629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 09/41] fix: do not keep the unpacker's header buffer in fixext
 values

---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index ab2983e..6c3cac0 100644
--- a/unpack.go
+++ b/unpack.go
@@ -53,7 +53,8 @@ func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error)
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
-		return doParseExt(tagAndData)
+		// the header belongs to the unpacker, which may reuse it
+		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
 		size := parser.ParseBin(header)
 		if parser.Error() != nil {
-- 
2.43.0


From d9cd29e037fe1d18e54de51387135e9ef6da5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 10/41] fix: reject uint64 above int64 range instead of
 decoding it as a negative number

---
 msgpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index dfbf4ac..34aded1 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -493,7 +493,12 @@ func (r *messageParser) ParseLong(b []byte) int64 {
 	case mpUint32:
 		return int64(binary.BigEndian.Uint32(b[1:]))
 	case mpUint64:
-		return int64(binary.BigEndian.Uint64(b[1:]))
+		val := binary.BigEndian.Uint64(b[1:])
+		if val > math.MaxInt64 {
+			r.err = errors.Errorf("long: %d overflows int64", val)
+			return 0
+		}
+		return int64(val)
 	case mpInt8:
 		return int64(int8(b[1]))
 	case mpInt16:
-- 
2.43.0


From 1cd2cd85befc6e8fcfc055d5a2db22b06c02b40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 11/41] fix: compare sparse lists item by item in both
 directions, without index panic

---
 immutablelist.go | 4 ++++
 solidlist.go     | 4 ++++
 sparselist.go    | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/immutablelist.go b/immutablelist.go
index a1f2c36..5740726 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -116,6 +116,10 @@ func (t immutableListValue) Equal(val Value) bool {
 	if val == nil || val.Kind() != LIST {
 		return false
 	}
+	if o, ok := val.(sparseListValue); ok {
+		// compares the items, because it may have gaps
+		return o.Equal(t)
+	}
 	o := val.(List)
 	if t.Len() != o.Len() {
 		return false
diff --git a/solidlist.go b/solidlist.go
index c3ab6e1..bb82d81 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -124,6 +124,10 @@ func (t solidListValue) Equal(val Value) bool {
 	if val == nil || val.Kind() != LIST {
 		return false
 	}
+	if o, ok := val.(sparseListValue); ok {
+		// compares the items, because it may have gaps
+		return o.Equal(t)
+	}
 	o := val.(List)
 	if t.Len() != o.Len() {
 		return false
diff --git a/sparselist.go b/sparselist.go
index 47719a2..4141c4a 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -172,6 +172,9 @@ func (t sparseListValue) Equal(val Value) bool {
 	}
 	// entries are sorted
 	other := o.Items()
+	if len(t) != len(other) {
+		return false
+	}
 	for i, item := range t {
 		if !item.Equal(other[i]) {
 			return false
-- 
2.43.0


From 17beab3c7772f64dff2ed52223859e529a737da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 12/41] fix: compare numbers of different types symmetrically,
 without dropping fractions and overflow

---
 number.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/number.go b/number.go
index 858e894..61927c3 100644
--- a/number.go
+++ b/number.go
@@ -569,6 +569,10 @@ func (n longNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() != LONG {
+		// conversion to long loses information
+		return other.Equal(n)
+	}
 	return n.Long() == other.Long()
 }
 
@@ -580,6 +584,10 @@ func (n doubleNumber) Equal(val Value) bool {
 	if n.IsNaN() || other.IsNaN() {
 		return false
 	}
+	if n.Double() == other.Double() {
+		// including infinities
+		return true
+	}
 	return  math.Abs(n.Double() - other.Double()) < PrecisionLevel
 }
 
@@ -588,6 +596,10 @@ func (n bigIntNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() == DOUBLE || other.Type() == DECIMAL {
+		// conversion to big integer loses information
+		return other.Equal(n)
+	}
 	return n.Int.Cmp(other.BigInt()) == 0
 }
 
@@ -596,6 +608,9 @@ func (n decimalNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() == DOUBLE {
+		return other.Equal(n)
+	}
 	return n.Decimal().Cmp(other.Decimal()) == 0
 }
 
-- 
2.43.0


From afd5b7fd9bffb976a5911e4d8bee1e5f0ded42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 13/41] fix: compare text with raw strings by content in both
 directions

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 441535b..7211f3c 100644
--- a/string.go
+++ b/string.go
@@ -85,7 +85,7 @@ func (s uft8String) Equal(val Value) bool {
 	if val == nil || val.Kind() != STRING {
 		return false
 	}
-	return string(s) == val.String()
+	return string(s) == val.(String).Utf8()
 }
 
 func (s uft8String) Len() int {
-- 
2.43.0


From 1146f8f0369036cddf87025395efd5944a16727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 14/41] fix: nil equals Null whichever side it is on

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a0a323..7a2613b 100644
--- a/utils.go
+++ b/utils.go
@@ -100,7 +100,7 @@ func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (V
 
 func Equal(left Value, right Value) bool {
 	if left == nil {
-		return right == nil
+		return right == nil || right.Kind() == NULL
 	}
 	return left.Equal(right)
 }
-- 
2.43.0


From b339ef29b5a9a80a576330b83bd036a59fd41678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 15/41] fix: typed getters treat nil cells as Null instead of
 panicking

---
 immutablelist.go | 12 ++++++------
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 12 ++++++------
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 5 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index 5740726..b1e50f4 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -141,7 +141,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -152,7 +152,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -163,7 +163,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -174,7 +174,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -187,7 +187,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
@@ -305,7 +305,7 @@ func (t immutableListValue) removeAt(i, n int) List {
 
 func (t immutableListValue) Select(i int) []Value {
 	val := t.GetAt(i)
-	if val != Null {
+	if val != nil && val != Null {
 		return []Value {val}
 	}
 	return []Value {}
diff --git a/immutablemap.go b/immutablemap.go
index eb65218..1d25bda 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -194,7 +194,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -205,7 +205,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -216,7 +216,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -227,7 +227,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -240,7 +240,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/solidlist.go b/solidlist.go
index bb82d81..2b5f21c 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -149,7 +149,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -160,7 +160,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -171,7 +171,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -182,7 +182,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -195,7 +195,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
@@ -312,7 +312,7 @@ func (t solidListValue) removeAt(i, n int) List {
 
 func (t solidListValue) Select(i int) []Value {
 	val := t.GetAt(i)
-	if val != Null {
+	if val != nil && val != Null {
 		return []Value {val}
 	}
 	return []Value {}
diff --git a/sortedmap.go b/sortedmap.go
index 36733c2..8639b48 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -195,7 +195,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -206,7 +206,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -217,7 +217,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -228,7 +228,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -241,7 +241,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sparselist.go b/sparselist.go
index 4141c4a..424619d 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -199,7 +199,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -210,7 +210,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -221,7 +221,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -232,7 +232,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -245,7 +245,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
-- 
2.43.0


From 3242d71b7f8b47a98e70ddba1b181713dff0ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 16/41] fix: quote strings by the rules of JSON, not of Go

---
 string.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index 7211f3c..dd46add 100644
--- a/string.go
+++ b/string.go
@@ -9,9 +9,9 @@ package value
 import (
 	"bytes"
 	"encoding/base64"
+	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 )
 
@@ -30,6 +30,15 @@ var rawStringClass = reflect.TypeOf((*rawString)(nil)).Elem()
 
 var EmptyString = uft8String("")
 
+// Go syntax is not JSON, it has escapes that no JSON parser accepts
+func quoteJSON(str string) string {
+	var out strings.Builder
+	enc := json.NewEncoder(&out)
+	enc.SetEscapeHTML(false)
+	enc.Encode(str)
+	return strings.TrimSuffix(out.String(), "\n")
+}
+
 func Utf8(val string) String {
 	return uft8String(val)
 }
@@ -67,11 +76,11 @@ func (s uft8String) Pack(p Packer) {
 }
 
 func (s uft8String) PrintJSON(out *strings.Builder) {
-	out.WriteString(strconv.Quote(string(s)))
+	out.WriteString(quoteJSON(string(s)))
 }
 
 func (s uft8String) MarshalJSON() ([]byte, error) {
-	return []byte(strconv.Quote(string(s))), nil
+	return []byte(quoteJSON(string(s))), nil
 }
 
 func (s uft8String) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From ee81e5281ba9c6d7260a61f550ac47b9ee64e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 17/41] fix: escape map keys in JSON

---
 immutablemap.go | 5 +----
 sortedmap.go    | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 1d25bda..881c089 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -132,10 +132,7 @@ func (t immutableMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
-
+		out.WriteString(quoteJSON(entry.Key()))
 		out.WriteString(": ")
 		value := entry.Value()
 		if value != nil {
diff --git a/sortedmap.go b/sortedmap.go
index 8639b48..9edb1c5 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -133,10 +133,7 @@ func (t sortedMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
-
+		out.WriteString(quoteJSON(entry.Key()))
 		out.WriteString(": ")
 		value := entry.Value()
 		if value != nil {
-- 
2.43.0


From 76ebb422e6fed8d86c29d03db8b51a71a199cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 18/41] fix: infinities have no JSON form, print null like for
 NaN

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 61927c3..c1dd421 100644
--- a/number.go
+++ b/number.go
@@ -349,7 +349,7 @@ func (n longNumber) PrintJSON(out *strings.Builder) {
 
 func (n doubleNumber) PrintJSON(out *strings.Builder) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		out.WriteString("null")
 	} else {
 		out.WriteString(strconv.FormatFloat(d, 'f', -1, 64))
@@ -374,7 +374,7 @@ func (n longNumber) MarshalJSON() ([]byte, error) {
 
 func (n doubleNumber) MarshalJSON() ([]byte, error) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return []byte("null"), nil
 	} else {
 		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
-- 
2.43.0


From 66d37bdaad16aa39257593c5c5f116ab7b449529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 19/41] fix: reject decimal exponents that do not fit to int32,
 longer ones panicked

---
 number.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index c1dd421..9d84b88 100644
--- a/number.go
+++ b/number.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"github.com/pkg/errors"
 	"github.com/shopspring/decimal"
 	"math"
 	"math/big"
@@ -288,12 +289,18 @@ func parseExp(s string) (int32, error) {
 		return 0, err
 	}
 	var buf [4]byte
+	if len(bytes) > len(buf) {
+		return 0, errors.Errorf("exponent '%s' out of range", s)
+	}
 	copy(buf[len(buf)-len(bytes):], bytes)
-	val := int32(binary.BigEndian.Uint32(buf[:]))
+	val := int64(binary.BigEndian.Uint32(buf[:]))
 	if neg {
 		val = -val
 	}
-	return val, nil
+	if val < math.MinInt32 || val > math.MaxInt32 {
+		return 0, errors.Errorf("exponent '%s' out of range", s)
+	}
+	return int32(val), nil
 }
 
 func (n longNumber) Object() interface{} {
-- 
2.43.0


From b6bddf11019e2d28f645c4541eefe79fd84545dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 20/41] fix: keep the exponent when converting decimal to big
 integer, convert infinities without panic

---
 number.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/number.go b/number.go
index 9d84b88..8bf94b0 100644
--- a/number.go
+++ b/number.go
@@ -486,7 +486,7 @@ func (n longNumber) BigInt() *big.Int {
 
 func (n doubleNumber) BigInt() *big.Int {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return big.NewInt(0)
 	}
 	f := new(big.Float)
@@ -500,7 +500,7 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().Coefficient()
+	return decimal.Decimal(n).Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
@@ -509,7 +509,7 @@ func (n longNumber) Decimal() decimal.Decimal {
 
 func (n doubleNumber) Decimal() decimal.Decimal {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return decimal.NewFromInt(0)
 	}
 	return decimal.NewFromFloat(d)
-- 
2.43.0


From cafd39b3ba1e96e04ad4f74ac58156739d8e4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 21/41] fix: append elements of repeated fields after they are
 decoded, they were lost

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7e8a65b..aeacb33 100644
--- a/struct.go
+++ b/struct.go
@@ -310,7 +310,6 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						sliceValue = reflect.Append(sliceValue, elemValue)
 						val, err := doParse(unpacker, parser)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
@@ -319,6 +318,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if err != nil {
 							return errors.Errorf("fail to set value %v", err)
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
 					fieldValue.Set(sliceValue)
 				}
-- 
2.43.0


From 362bceb38683dc4deb186288547f39d49912fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 22/41] fix: do not allocate an array of the size a struct's
 list field claims

---
 struct.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index aeacb33..003ffdd 100644
--- a/struct.go
+++ b/struct.go
@@ -266,11 +266,13 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
-					arrayType := reflect.ArrayOf(listCnt, field.FieldType.Elem())
-					arrayValue := reflect.New(arrayType).Elem()
+					if parser.Error() != nil {
+						return parser.Error()
+					}
+					sliceValue := reflect.MakeSlice(field.FieldType, 0, prealloc(listCnt))
 
 					for j := 0; j < listCnt; j++ {
-						elemValue := arrayValue.Index(j)
+						elemValue := reflect.New(field.FieldType.Elem()).Elem()
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
@@ -288,8 +290,9 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 								return errors.Errorf("fail to set value %v", err)
 							}
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(arrayValue.Slice(0, listCnt))
+					fieldValue.Set(sliceValue)
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
-- 
2.43.0


From 55e71ed25fb559a4535eb4893c0ea42249177c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 23/41] fix: report unsupported struct fields, nil pointers and
 nil elements as errors, they panicked

---
 struct.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/struct.go b/struct.go
index 003ffdd..abb31cc 100644
--- a/struct.go
+++ b/struct.go
@@ -34,8 +34,8 @@ func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 	unpacker := MessageUnpacker(buf, copy)
 	parser := MessageParser()
 	classPtr := reflect.TypeOf(obj)
-	if classPtr.Kind() != reflect.Ptr {
-		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
+	if classPtr == nil || classPtr.Kind() != reflect.Ptr || reflect.ValueOf(obj).IsNil() {
+		return errors.Errorf("nil or non-pointer instance is not allowed in '%v'", classPtr)
 	}
 	if schema, err := reflectSchema(classPtr); err != nil {
 		return errors.Errorf("error on reflect schema for '%v', %v", classPtr, err)
@@ -48,8 +48,8 @@ func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 
 func reflectPackStruct(p *messagePacker, obj interface{}) error {
 	classPtr := reflect.TypeOf(obj)
-	if classPtr.Kind() != reflect.Ptr {
-		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
+	if classPtr.Kind() != reflect.Ptr || reflect.ValueOf(obj).IsNil() {
+		return errors.Errorf("nil or non-pointer instance is not allowed in '%v'", classPtr)
 	}
 	schema, err := reflectSchema(classPtr)
 	if err != nil {
@@ -73,7 +73,7 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 			field: field,
 			fieldValue: value.Field(field.FieldNum),
 		}
-		if !f.fieldValue.IsNil() {
+		if !isNil(f.fieldValue) {
 			list = append(list, f)
 			if f.field.Array && f.field.Repeated {
 				cnt += f.fieldValue.Len()
@@ -112,7 +112,20 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 	return nil
 }
 
+func isNil(value reflect.Value) bool {
+	switch value.Kind() {
+	case reflect.Interface, reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
+		return value.IsNil()
+	default:
+		// values of concrete types, like numbers and structs
+		return false
+	}
+}
+
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
+	if (value.Kind() == reflect.Interface || value.Kind() == reflect.Ptr) && value.IsNil() {
+		return errors.Errorf("can not pack nil element of field '%s'", entry.field.FieldName)
+	}
 	if entry.field.Struct {
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
 			return errors.Errorf("can not pack field %v, inner struct error %v", value, err)
@@ -175,6 +188,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
+	if class.Kind() != reflect.Struct {
+		return nil, errors.Errorf("expected pointer to struct, but got '%v'", classPtr)
+	}
 	for j := 0; j < class.NumField(); j++ {
 		field := class.Field(j)
 		repeated := false
@@ -185,13 +201,16 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		if !ok {
 			return nil, errors.Errorf("no tag in field '%s' in class '%v'", field.Name, classPtr)
 		}
+		if field.PkgPath != "" {
+			return nil, errors.Errorf("not exported field '%s' in class '%v'", field.Name, classPtr)
+		}
 		tag, err := strconv.Atoi(tagStr)
 		if err != nil {
 			return nil, errors.Errorf("invalid tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
 		}
 		array := false
 		fieldType := field.Type
-		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
+		if field.Type.Kind() == reflect.Slice {
 			fieldType = fieldType.Elem()
 			array = true
 		}
-- 
2.43.0


From b29055cc5453408bfd49c09feaecf38d93945ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 24/41] fix: report recursive struct types as an error instead
 of overflowing the stack

---
 struct.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index abb31cc..c0ff745 100644
--- a/struct.go
+++ b/struct.go
@@ -174,9 +174,14 @@ func (t sortableFields) Less(i, j int) bool {
 }
 
 func reflectSchema(classPtr reflect.Type) (*Schema, error) {
+	return reflectNestedSchema(classPtr, nil)
+}
+
+// outer are the classes that are being reflected right now
+func reflectNestedSchema(classPtr reflect.Type, outer []reflect.Type) (*Schema, error) {
 	if val, ok := schemaCache.Load(classPtr); ok {
 		return val.(*Schema), nil
-	} else if schema, err := doReflectSchema(classPtr); err != nil {
+	} else if schema, err := doReflectSchema(classPtr, outer); err != nil {
 		return nil, err
 	} else {
 		schemaCache.Store(classPtr, schema)
@@ -184,7 +189,13 @@ func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	}
 }
 
-func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
+func doReflectSchema(classPtr reflect.Type, outer []reflect.Type) (*Schema, error) {
+	for _, class := range outer {
+		if class == classPtr {
+			return nil, errors.Errorf("recursive class '%v' is not supported", classPtr)
+		}
+	}
+	outer = append(outer, classPtr)
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
@@ -228,7 +239,7 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 			sortedFields = append(sortedFields, f)
 		} else if fieldType.Kind() != reflect.Ptr {
 			return nil, errors.Errorf("tagged field '%s' in class '%v' with type '%v' does not implement value.Value interface and non-ptr", field.Name, field.Type, classPtr)
-		} else if fieldSchema, err := reflectSchema(fieldType); err != nil {
+		} else if fieldSchema, err := reflectNestedSchema(fieldType, outer); err != nil {
 			return nil, errors.Errorf("struct field '%s' in class '%v' has wrong schema, %v", field.Name, classPtr, err)
 		} else {
 			f := &Field{
-- 
2.43.0


From f98fd815a8a15faed9960ae4e55fcc29200a174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 25/41] fix: report two struct fields with the same tag, one of
 them was lost when unpacked

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index c0ff745..ec981e9 100644
--- a/struct.go
+++ b/struct.go
@@ -219,6 +219,9 @@ func doReflectSchema(classPtr reflect.Type, outer []reflect.Type) (*Schema, erro
 		if err != nil {
 			return nil, errors.Errorf("invalid tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
 		}
+		if other, ok := fields[tag]; ok {
+			return nil, errors.Errorf("same tag %d in fields '%s' and '%s' in class '%v'", tag, other.FieldName, field.Name, classPtr)
+		}
 		array := false
 		fieldType := field.Type
 		if field.Type.Kind() == reflect.Slice {
-- 
2.43.0


From 015009bf708582b816163c083b33f2b28a410439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 26/41] fix: unseal reports input shorter than the nonce
 instead of panicking

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index 7a2613b..343d1ec 100644
--- a/utils.go
+++ b/utils.go
@@ -90,6 +90,9 @@ var ErrUnseal = errors.New("unseal error")
 
 func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (Value, error) {
 	var decryptNonce [24]byte
+	if len(encrypted) < len(decryptNonce) {
+		return nil, ErrUnseal
+	}
 	copy(decryptNonce[:], encrypted[:24])
 	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
 	if !ok {
-- 
2.43.0


From b59d4c30d9be6a9a24968817ba01023e08b53ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 27/41] fix: write nil values as nil like Pack does, they
 panicked

---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 343d1ec..625c82b 100644
--- a/utils.go
+++ b/utils.go
@@ -41,7 +41,11 @@ func Read(r io.Reader) (Value, error) {
 
 func Write(w io.Writer, val Value) error {
 	p := MessagePacker(w)
-	val.Pack(p)
+	if val != nil {
+		val.Pack(p)
+	} else {
+		p.PackNil()
+	}
 	return p.Error()
 }
 
@@ -123,7 +127,11 @@ func WriteStream(w io.Writer, valueC <-chan Value) error {
 			break
 		}
 
-		val.Pack(p)
+		if val != nil {
+			val.Pack(p)
+		} else {
+			p.PackNil()
+		}
 
 	}
 
-- 
2.43.0


From 5b91e250d3b75e8407cde3a895f069b5af056c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 28/41] fix: copies of maps do not share mutable entries with
 the original

---
 immutablemap.go | 4 ++++
 sortedmap.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/immutablemap.go b/immutablemap.go
index 881c089..8955b2f 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -48,6 +48,10 @@ func ImmutableMap(entries []MapEntry, sorted bool) Map {
 
 func ImmutableMapCopyOf(other Map) Map {
 	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
+	for i, entry := range t {
+		// entries of other could be mutable
+		t[i] = ImmutableEntry(entry.Key(), entry.Value())
+	}
 	return t
 }
 
diff --git a/sortedmap.go b/sortedmap.go
index 9edb1c5..04602c6 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -49,6 +49,10 @@ func SortedMap(entries []MapEntry, sorted bool) Map {
 
 func SortedMapCopyOf(other Map) Map {
 	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
+	for i, entry := range t {
+		// entries are mutable, they must not be shared
+		t[i] = MutableEntry(entry.Key(), entry.Value())
+	}
 	return t
 }
 
-- 
2.43.0


From 4ac768204024c885b2cd6748d635d0d07e59363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 29/41] fix: MarshalBinary of null and booleans returned shared
 bytes of the package

---
 bool.go | 2 +-
 null.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bool.go b/bool.go
index 0f2ae96..35ad23d 100644
--- a/bool.go
+++ b/bool.go
@@ -62,7 +62,7 @@ func (b boolValue) MarshalJSON() ([]byte, error) {
 
 func (b boolValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteBool(bool(b)), nil
+	return append([]byte(nil), m.WriteBool(bool(b))...), nil // shared constant
 }
 
 func (b boolValue) Equal(val Value) bool {
diff --git a/null.go b/null.go
index 5d1ee8f..da569ac 100644
--- a/null.go
+++ b/null.go
@@ -57,7 +57,7 @@ func (n nullValue) MarshalJSON() ([]byte, error) {
 
 func (n nullValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteNil(), nil
+	return append([]byte(nil), m.WriteNil()...), nil // shared constant
 }
 
 func (n nullValue) Equal(val Value) bool {
-- 
2.43.0


From 51b86e5d2b7c0d17dcc6b99e88db5667e6c572db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 30/41] fix: sparse list of negative keys has length zero and
 no values, Values panicked

---
 sparselist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index 424619d..bafe819 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -91,6 +91,9 @@ func (t sparseListValue) Values() []Value {
 		return nil
 	}
 	maxKey := t[n-1].Key()
+	if maxKey < 0 {
+		return nil
+	}
 	values := make([]Value, maxKey+1)
 
 	for _, item := range t {
@@ -107,6 +110,10 @@ func (t sparseListValue) Len() int {
 		return 0
 	} else {
 		maxKey := t[n-1].Key()
+		if maxKey < 0 {
+			// only negative keys
+			return 0
+		}
 		return maxKey+1
 	}
 }
-- 
2.43.0


From 0f14f21fb2b199a811b3007aa7d118e1e0c9a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 31/41] fix: InsertAll must not change or keep the slice of the
 caller

---
 immutablelist.go | 1 +
 immutablemap.go  | 1 +
 solidlist.go     | 1 +
 sortedmap.go     | 1 +
 sparselist.go    | 1 +
 5 files changed, 5 insertions(+)

diff --git a/immutablelist.go b/immutablelist.go
index b1e50f4..ca72ffe 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -317,6 +317,7 @@ func (t immutableListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list) // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/immutablemap.go b/immutablemap.go
index 8955b2f..6521cae 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -372,6 +372,7 @@ func (t immutableMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list) // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/solidlist.go b/solidlist.go
index 2b5f21c..36ee8b0 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -324,6 +324,7 @@ func (t solidListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list) // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sortedmap.go b/sortedmap.go
index 04602c6..aa54659 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -371,6 +371,7 @@ func (t sortedMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list) // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sparselist.go b/sparselist.go
index bafe819..d616ac7 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -412,6 +412,7 @@ func (t sparseListValue) InsertAll(key int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list) // belongs to the caller
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
-- 
2.43.0


From 2e26821081e0d6eb1e27eff8d7618a0175689c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 32/41] fix: name the NULL kind

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 8c36e57..dc64ffd 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,8 @@ func (k Kind) String() string {
 	switch k {
 	case INVALID:
 		return "INVALID"
+	case NULL:
+		return "NULL"
 	case BOOL:
 		return "BOOL"
 	case NUMBER:
-- 
2.43.0


From 19447ebc7e723fb922de58e2264dd1ea8b4b209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 33/41] fix: compare decimals with far exponents without
 expanding them, it took gigabytes

---
 number.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 8bf94b0..f7cf34a 100644
--- a/number.go
+++ b/number.go
@@ -476,10 +476,39 @@ func (n bigIntNumber) Double() float64 {
 }
 
 func (n decimalNumber) Double() float64 {
-	v, _ := decimal.Decimal(n).Float64()
+	dec := decimal.Decimal(n)
+	// the power of ten does not have to be calculated outside of the range of doubles
+	switch m := decimalMagnitude(dec); {
+	case dec.Sign() == 0:
+		return 0
+	case m > 400:
+		return math.Inf(dec.Sign())
+	case m < -400:
+		return math.Copysign(0, float64(dec.Sign()))
+	}
+	v, _ := dec.Float64()
 	return v
 }
 
+// decimalMagnitude returns the decimal logarithm of the absolute value, rounded up by less than one
+func decimalMagnitude(dec decimal.Decimal) float64 {
+	return float64(dec.Coefficient().BitLen())*math.Log10(2) + float64(dec.Exponent())
+}
+
+func equalDecimals(left, right decimal.Decimal) bool {
+	if left.Sign() != right.Sign() {
+		return false
+	}
+	if left.Sign() == 0 {
+		return true
+	}
+	// comparing brings both to one exponent, what needs the memory for all digits between them
+	if math.Abs(decimalMagnitude(left)-decimalMagnitude(right)) > 1 {
+		return false
+	}
+	return left.Cmp(right) == 0
+}
+
 func (n longNumber) BigInt() *big.Int {
 	return big.NewInt(int64(n))
 }
@@ -618,6 +647,6 @@ func (n decimalNumber) Equal(val Value) bool {
 	if other.Type() == DOUBLE {
 		return other.Equal(n)
 	}
-	return n.Decimal().Cmp(other.Decimal()) == 0
+	return equalDecimals(n.Decimal(), other.Decimal())
 }
 
-- 
2.43.0


From f851c7c0a18e9e865b9a33b788364b0f07b36271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 34/41] fix: maps made from lists by getters have entries of
 their own variant

---
 immutablelist.go | 2 +-
 immutablemap.go  | 2 +-
 solidlist.go     | 2 +-
 sortedmap.go     | 2 +-
 sparselist.go    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index ca72ffe..eed5e51 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -190,7 +190,7 @@ func (t immutableListValue) GetMapAt(index int) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return ImmutableMap(value.(List).Entries(), false)
+			return ImmutableMapCopyOf(ImmutableMap(value.(List).Entries(), false))
 		case MAP:
 			return value.(Map)
 		}
diff --git a/immutablemap.go b/immutablemap.go
index 6521cae..298e9f1 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -244,7 +244,7 @@ func (t immutableMapValue) GetMap(key string) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return ImmutableMap(value.(List).Entries(), false)
+			return ImmutableMapCopyOf(ImmutableMap(value.(List).Entries(), false))
 		case MAP:
 			return value.(Map)
 		}
diff --git a/solidlist.go b/solidlist.go
index 36ee8b0..796ffd0 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -198,7 +198,7 @@ func (t solidListValue) GetMapAt(index int) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return SortedMap(value.(List).Entries(), false)
+			return SortedMapCopyOf(SortedMap(value.(List).Entries(), false))
 		case MAP:
 			return value.(Map)
 		}
diff --git a/sortedmap.go b/sortedmap.go
index aa54659..956b483 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -245,7 +245,7 @@ func (t sortedMapValue) GetMap(key string) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return SortedMap(value.(List).Entries(), false)
+			return SortedMapCopyOf(SortedMap(value.(List).Entries(), false))
 		case MAP:
 			return value.(Map)
 		}
diff --git a/sparselist.go b/sparselist.go
index d616ac7..3ae2754 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -255,7 +255,7 @@ func (t sparseListValue) GetMapAt(index int) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return SortedMap(value.(List).Entries(), false)
+			return SortedMapCopyOf(SortedMap(value.(List).Entries(), false))
 		case MAP:
 			return value.(Map)
 		}
-- 
2.43.0


From 266958561e28a626a947b8bff8329828dcba56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 35/41] fix: an io.ErrUnexpectedEOF of the reader between
 values was taken for the end of data

---
 msgpack.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 34aded1..f8da9c7 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -710,14 +710,14 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	if p.br != nil {
 		code, err := p.br.ReadByte()
 		if err != nil {
-			p.fail(err)
+			p.failAtStart(err)
 			return EOF, nil
 		}
 		p.buf[0] = code
 	}  else {
 		_, err := io.ReadFull(p.r, p.buf[:1])
 		if err != nil {
-			p.fail(err)
+			p.failAtStart(err)
 			return EOF, nil
 		}
 	}
@@ -759,6 +759,13 @@ func (p *messageIOUnpacker) fail(err error) {
 	}
 }
 
+// before the first byte of a token only EOF is the end of data, any other error comes from the reader itself
+func (p *messageIOUnpacker) failAtStart(err error) {
+	if p.err == nil && err != io.EOF {
+		p.err = err
+	}
+}
+
 // Error returns the failure of the reader, Next reports it only as end of data
 func (p *messageIOUnpacker) Error() error {
 	return p.err
-- 
2.43.0


From 7706ee291189b716b1f3b064bb9f8b5e4a39c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 36/41] fix: a failure of the parser on a short ext value was
 not reported

---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 6c3cac0..9e0fc33 100644
--- a/unpack.go
+++ b/unpack.go
@@ -53,6 +53,9 @@ func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error)
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
+		if parser.Error() != nil {
+			return nil, parser.Error()
+		}
 		// the header belongs to the unpacker, which may reuse it
 		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
-- 
2.43.0


From 001dbb2a44acb333dd9fbbd8fffc75cd2a4f214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:02 +0000
Subject: [PATCH 37/41] fix: sizes beyond int panicked or were taken for
 another size on 32-bit platforms

---
 msgpack.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index f8da9c7..728ec49 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -547,7 +547,7 @@ func (r *messageParser) ParseBin(b []byte) int {
 	case mpBin16:
 		return int(binary.BigEndian.Uint16(b[1:]))
 	case mpBin32:
-		return int(binary.BigEndian.Uint32(b[1:]))
+		return r.parseSize(b[1:])
 	default:
 		r.err = errors.Errorf("bin: invalid code %v", code)
 		return 0
@@ -568,7 +568,7 @@ func (r *messageParser) ParseStr(b []byte) int {
 	case mpStr16:
 		return int(binary.BigEndian.Uint16(b[1:]))
 	case mpStr32:
-		return int(binary.BigEndian.Uint32(b[1:]))
+		return r.parseSize(b[1:])
 	default:
 		r.err = errors.Errorf("str: invalid code %v", code)
 		return 0
@@ -587,7 +587,7 @@ func (r *messageParser) ParseList(b []byte) int {
 	case mpArray16:
 		return int(binary.BigEndian.Uint16(b[1:]))
 	case mpArray32:
-		return int(binary.BigEndian.Uint32(b[1:]))
+		return r.parseSize(b[1:])
 	default:
 		r.err = errors.Errorf("list: invalid code %v", code)
 		return 0
@@ -607,7 +607,7 @@ func (r *messageParser) ParseMap(b []byte) int {
 	case mpMap16:
 		return int(binary.BigEndian.Uint16(b[1:]))
 	case mpMap32:
-		return int(binary.BigEndian.Uint32(b[1:]))
+		return r.parseSize(b[1:])
 	default:
 		r.err = errors.Errorf("map: invalid code %v", code)
 		return 0
@@ -634,13 +634,23 @@ func (r *messageParser) ParseExt(b []byte) (len int, tagAndData []byte) {
 	case mpExt16:
 		return int(binary.BigEndian.Uint16(b[1:])), b[3:]
 	case mpExt32:
-		return int(binary.BigEndian.Uint32(b[1:])), b[5:]
+		return r.parseSize(b[1:]), b[5:]
 	default:
 		r.err = errors.Errorf("ext: invalid code %v", code)
 		return 0, b
 	}
 }
 
+// sizes that do not fit in int, what happens where it has 32 bits, are rejected
+func (r *messageParser) parseSize(b []byte) int {
+	size := binary.BigEndian.Uint32(b)
+	if uint64(size) >= math.MaxInt {
+		r.err = errors.Errorf("size: %d overflows int", size)
+		return 0
+	}
+	return int(size)
+}
+
 func (r messageParser) Error() error {
 	return r.err
 }
-- 
2.43.0


From 2c08ec00383c8bb8d1fe2c285620d18b54800a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 38/41] fix: list indexes and struct tags beyond int were taken
 for other numbers on 32-bit platforms

---
 struct.go | 3 +++
 unpack.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index ec981e9..4bf7c43 100644
--- a/struct.go
+++ b/struct.go
@@ -284,6 +284,9 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 		if !isIntKey(key) {
 			return errors.Errorf("expected int key, but got %s on position %d", key.Kind().String(), i)
 		}
+		if long := key.(Number).Long(); int64(int(long)) != long {
+			return errors.Errorf("unknown tag %d on position %d", long, i)
+		}
 		tag := int(key.(Number).Long())
 		if field, ok := schema.Fields[tag]; ok {
 			fieldValue := value.Field(field.FieldNum)
diff --git a/unpack.go b/unpack.go
index 9e0fc33..7bf2bf9 100644
--- a/unpack.go
+++ b/unpack.go
@@ -186,6 +186,9 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, nesting int) (V
 
 			if isIntKey(key) {
 				k := key.(Number).Long()
+				if int64(int(k)) != k {
+					return nil, errors.Errorf("list: index %d overflows int", k)
+				}
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-- 
2.43.0


From ac7b39688ee0a0c4c3f53b22eb58f48f3c589625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:52 +0000
Subject: [PATCH 39/41] fix: length and next key of a sparse list overflow at
 the highest index

---
 sparselist.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sparselist.go b/sparselist.go
index 3ae2754..b177162 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -9,6 +9,7 @@ package value
 
 import (
 	"bytes"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -114,10 +115,18 @@ func (t sparseListValue) Len() int {
 			// only negative keys
 			return 0
 		}
-		return maxKey+1
+		return nextKey(maxKey)
 	}
 }
 
+// nothing comes after the highest integer, adding to it overflows
+func nextKey(key int) int {
+	if key == math.MaxInt {
+		return key
+	}
+	return key+1
+}
+
 func (t sparseListValue) Pack(p Packer) {
 
 	p.PackMap(len(t))
@@ -272,7 +281,7 @@ func (t sparseListValue) Append(value Value) List {
 		return t.append(n, MutableItem(FirstIndexKey, value))
 	} else {
 		maxKey := t[n-1].Key()
-		return t.append(n, MutableItem(maxKey+1, value))
+		return t.append(n, MutableItem(nextKey(maxKey), value))
 	}
 }
 
-- 
2.43.0


From 0ad458bfc4b8064b2c48a8af3232599f254d052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:30 +0000
Subject: [PATCH 40/41] fix: getters take nulls of other implementations for
 nulls

---
 immutablelist.go | 12 ++++++------
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 12 ++++++------
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 5 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index eed5e51..cf539c9 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -141,7 +141,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -152,7 +152,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -163,7 +163,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -174,7 +174,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -187,7 +187,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMapCopyOf(ImmutableMap(value.(List).Entries(), false))
@@ -305,7 +305,7 @@ func (t immutableListValue) removeAt(i, n int) List {
 
 func (t immutableListValue) Select(i int) []Value {
 	val := t.GetAt(i)
-	if val != nil && val != Null {
+	if val != nil && val.Kind() != NULL {
 		return []Value {val}
 	}
 	return []Value {}
diff --git a/immutablemap.go b/immutablemap.go
index 298e9f1..459e0f7 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -195,7 +195,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -206,7 +206,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -217,7 +217,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -228,7 +228,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -241,7 +241,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMapCopyOf(ImmutableMap(value.(List).Entries(), false))
diff --git a/solidlist.go b/solidlist.go
index 796ffd0..df57e93 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -149,7 +149,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -160,7 +160,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -171,7 +171,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -182,7 +182,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -195,7 +195,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return SortedMapCopyOf(SortedMap(value.(List).Entries(), false))
@@ -312,7 +312,7 @@ func (t solidListValue) removeAt(i, n int) List {
 
 func (t solidListValue) Select(i int) []Value {
 	val := t.GetAt(i)
-	if val != nil && val != Null {
+	if val != nil && val.Kind() != NULL {
 		return []Value {val}
 	}
 	return []Value {}
diff --git a/sortedmap.go b/sortedmap.go
index 956b483..1ba5189 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -196,7 +196,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -207,7 +207,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -218,7 +218,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -229,7 +229,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -242,7 +242,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return SortedMapCopyOf(SortedMap(value.(List).Entries(), false))
diff --git a/sparselist.go b/sparselist.go
index b177162..1f6250c 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -215,7 +215,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -226,7 +226,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -237,7 +237,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -248,7 +248,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -261,7 +261,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != nil && value != Null {
+	if value != nil && value.Kind() != NULL {
 		switch value.Kind() {
 		case LIST:
 			return SortedMapCopyOf(SortedMap(value.(List).Entries(), false))
-- 
2.43.0


From 2b2b4905f02ae185b5321b783877d6c2b3b149b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:37 +0000
Subject: [PATCH 41/41] fix: ext data from a header that is longer than its
 token

---
 unpack.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unpack.go b/unpack.go
index 7bf2bf9..3d3b16b 100644
--- a/unpack.go
+++ b/unpack.go
@@ -52,12 +52,15 @@ func doParseNested(unpacker Unpacker, parser Parser, nesting int) (Value, error)
 	case DoubleToken:
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
-		_, tagAndData := parser.ParseExt(header)
+		n, tagAndData := parser.ParseExt(header)
 		if parser.Error() != nil {
 			return nil, parser.Error()
 		}
-		// the header belongs to the unpacker, which may reuse it
-		return doParseExt(append([]byte(nil), tagAndData...))
+		if n < 0 || n >= len(tagAndData) {
+			return nil, errors.Errorf("ext: header of %d bytes does not hold the data", len(header))
+		}
+		// the header belongs to the unpacker, which may reuse it and put more into it
+		return doParseExt(append([]byte(nil), tagAndData[:n+1]...))
 	case BinHeader:
 		size := parser.ParseBin(header)
 		if parser.Error() != nil {
-- 
2.43.0

