From d6c27234d5af53e0c8cde03593c9912f7748fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:57 +0000
Subject: [PATCH 01/59] fix: read and modify int/long buffer entries on every
 page

The bounds checks compared the global index with the length of one page and
the page number with the number of entries, so entries past the first page
were unreachable and an index one past a full page panicked.
---
 vtdxml/buffer/int_buffer.go  | 8 ++++----
 vtdxml/buffer/long_buffer.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 4860fef..962a449 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -146,14 +146,14 @@ func (b *FastIntBuffer) Clear() {
 }
 
 func (b *FastIntBuffer) get(index int) ([]int32, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastIntBuffer) set(index int, value []int32) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 93390ed..14532a5 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -65,7 +65,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +79,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -166,14 +166,14 @@ func (b *FastLongBuffer) Clear() {
 }
 
 func (b *FastLongBuffer) get(index int) ([]int64, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastLongBuffer) set(index int, value []int64) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From a7729128e3881d05e8a9bed72305e1988ac90c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 02/59] fix: int/long buffers drop entries removed by SetSize
 or Clear

Appending after the size was reduced added to the end of the old page, so the
new entry was not at its index, and the exported slice still held removed
entries. SetSize also accepted sizes beyond the stored entries.
---
 vtdxml/buffer/int_buffer.go  | 31 ++++++++++++++++---------------
 vtdxml/buffer/long_buffer.go | 31 ++++++++++++++++---------------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 962a449..dd4557a 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -92,8 +92,11 @@ func (b *FastIntBuffer) GetSize() int {
 	return b.size
 }
 
+// SetSize function reduces the buffer to its first size entries
 func (b *FastIntBuffer) SetSize(size int) {
-	b.size = size
+	if size >= 0 && size <= b.size {
+		b.size = size
+	}
 }
 
 // ToIntArray function converts 2D buffer into int32 slice
@@ -113,7 +116,7 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 			return nil, err
 		}
 		// load-in buffer page into int32 slice
-		for j := range buffer {
+		for j := 0; j < len(buffer) && j < size; j++ {
 			v := buffer[j]
 			intArray = append(intArray, v)
 		}
@@ -124,21 +127,19 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 }
 
 func (b *FastIntBuffer) Append(value int32) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
-		bufferSlice, err := b.get(pageNum)
-		if err != nil {
-			return err
-		}
-		bufferSlice = append(bufferSlice, value)
-		b.size++
-		return b.set(pageNum, bufferSlice)
-	} else {
-		b.size++
+	pageNum := b.size >> b.exp
+	if pageNum == len(b.buffer) {
 		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []int32{value})
-		return nil
+		b.buffer = append(b.buffer, nil)
 	}
+	bufferSlice, err := b.get(pageNum)
+	if err != nil {
+		return err
+	}
+	// drop the entries left behind by a size reduction
+	bufferSlice = append(bufferSlice[:b.size&b.r], value)
+	b.size++
+	return b.set(pageNum, bufferSlice)
 }
 
 func (b *FastIntBuffer) Clear() {
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 14532a5..7b0c6c7 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -90,8 +90,11 @@ func (b *FastLongBuffer) GetSize() int {
 	return b.size
 }
 
+// SetSize function reduces the buffer to its first size entries
 func (b *FastLongBuffer) SetSize(size int) {
-	b.size = size
+	if size >= 0 && size <= b.size {
+		b.size = size
+	}
 }
 
 // Lower32At function return lower 32 bit of the int64 at the index
@@ -133,7 +136,7 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 			return nil, err
 		}
 		// load-in buffer page into int64 slice
-		for j := range buffer {
+		for j := 0; j < len(buffer) && j < size; j++ {
 			v := buffer[j]
 			intArray = append(intArray, v)
 		}
@@ -144,21 +147,19 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 }
 
 func (b *FastLongBuffer) Append(value int64) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
-		bufferSlice, err := b.get(pageNum)
-		if err != nil {
-			return err
-		}
-		bufferSlice = append(bufferSlice, value)
-		b.size++
-		return b.set(pageNum, bufferSlice)
-	} else {
-		b.size++
+	pageNum := b.size >> b.exp
+	if pageNum == len(b.buffer) {
 		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []int64{value})
-		return nil
+		b.buffer = append(b.buffer, nil)
 	}
+	bufferSlice, err := b.get(pageNum)
+	if err != nil {
+		return err
+	}
+	// drop the entries left behind by a size reduction
+	bufferSlice = append(bufferSlice[:b.size&b.r], value)
+	b.size++
+	return b.set(pageNum, bufferSlice)
 }
 
 func (b *FastLongBuffer) Clear() {
-- 
2.43.0


From 0550c74e4374d9eb2adbb923ddb139e51eabb728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 03/59] fix: return all 32 upper bits of a long buffer entry

The mask kept 28 bits, so values of 1<<28 and above and negative ones (such
as the -1 marker) came back wrong.
---
 vtdxml/buffer/long_buffer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 7b0c6c7..4484d43 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -113,7 +113,6 @@ func (b *FastLongBuffer) Upper32At(index int) (int32, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	valueLong = valueLong & (0xFFFFFFF << 32)
 	valueLong = valueLong >> 32
 	valueInt := int32(valueLong)
 	return valueInt, nil
-- 
2.43.0


From f98f2935ef4f122a9bd269288bee9e179987bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 04/59] fix: refuse unusable buffer page size exponents

A negative exponent panicked in the long and object buffers (the int buffer
ignores it), and 63 gave a negative page size that was accepted.
---
 vtdxml/buffer/int_buffer.go    |  2 +-
 vtdxml/buffer/long_buffer.go   | 10 ++++++----
 vtdxml/buffer/object_buffer.go | 10 ++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index dd4557a..35a388b 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -51,7 +51,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		opt(b)
 	}
 
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 4484d43..fb6dff1 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -31,9 +31,11 @@ type FastLongBuffer struct {
 
 func WithFastLongBufferPageSize(size int) FastLongBufferOption {
 	return func(b *FastLongBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -50,7 +52,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 07bc0f3..136b3a4 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -28,9 +28,11 @@ type FastObjectBuffer struct {
 
 func WithFastObjectBufferPageSize(size int) FastObjectBufferOption {
 	return func(b *FastObjectBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -47,7 +49,7 @@ func NewFastObjectBuffer(opts ...FastObjectBufferOption) (*FastObjectBuffer, err
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
-- 
2.43.0


From c1fc3223b046cb4e0eed1af7326a6b84fad27d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 05/59] fix: object buffer entries past the first page

Appending never moved on to a second page (the page count, which is the size
here, was compared with the entry capacity), so pages grew past their size and
every entry after the first page could not be read back.
---
 vtdxml/buffer/object_buffer.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 136b3a4..878528a 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -64,7 +64,7 @@ func (b *FastObjectBuffer) ObjectAt(index int) (interface{}, error) {
 	if err != nil {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,36 +79,41 @@ func (b *FastObjectBuffer) ModifyEntry(index int, value interface{}) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
 	return b.set(pageNum, bufferSlice)
 }
 
+// GetSize function returns number of pages in use
 func (b *FastObjectBuffer) GetSize() int {
 	return b.size
 }
 
+// SetSize function reduces the buffer to its first size pages
 func (b *FastObjectBuffer) SetSize(size int) {
-	b.size = size
+	if size >= 0 && size <= b.size {
+		b.size = size
+	}
 }
 
 func (b *FastObjectBuffer) Append(value interface{}) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
+	if pageNum := b.size - 1; pageNum >= 0 {
 		bufferSlice, err := b.get(pageNum)
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
-		return b.set(pageNum, bufferSlice)
-	} else {
-		b.size++
-		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []interface{}{value})
-		return nil
+		if len(bufferSlice) < b.pageSize {
+			bufferSlice = append(bufferSlice, value)
+			return b.set(pageNum, bufferSlice)
+		}
 	}
+	// drop the pages left behind by a size reduction
+	b.buffer = append(b.buffer[:b.size], []interface{}{value})
+	b.size++
+	b.capacity = b.size * b.pageSize
+	return nil
 }
 
 func (b *FastObjectBuffer) Clear() {
-- 
2.43.0


From 457692d607e68e0280ff822ca0d2d679bf414e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:39 +0000
Subject: [PATCH 06/59] fix: GetByteSlice returns length bytes starting at
 offset

It sliced from offset to length, which gave the wrong bytes for any offset
but 0 and panicked when length was smaller than offset.
---
 vtdxml/buffer/byte_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index 7f2664e..336a083 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -33,10 +33,10 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if offset < 0 || offset >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if length < 1 || offset+length >= len(b.buffer) {
+	if length < 1 || length >= len(b.buffer)-offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
-	return b.buffer[offset:length], nil
+	return b.buffer[offset : offset+length], nil
 }
 
 func (b *UniByteBuffer) GetBytes() []byte {
-- 
2.43.0


From 0b5c50a8d265be2ae6fd97baaca900a1e5a15b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 07/59] fix: ASCII reader accepts a window that ends with the
 document

NewAsciiReader refused endOffset equal to the document length, which is the
normal case, unlike the UTF-8 reader.
---
 vtdxml/reader/ascii_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fcd68e9..49e4528 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -19,7 +19,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 	if offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if endOffset < 0 || endOffset >= len(xmlDoc) {
+	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
 	return &AsciiReader{
-- 
2.43.0


From 4aa7e649c225c586676ba9f0568f09729e2eac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:50 +0000
Subject: [PATCH 08/59] fix: reader skips and positioned reads stay inside the
 window

SkipChar, GetCharAt and GetLongCharAt indexed the document without a bounds
check: they panicked at the end of the document (for instance on '<?x' or a
final CR) and looked past the end of a document window. A lone CR now reads
as a line feed in GetLongCharAt, as a CR LF pair does.
---
 vtdxml/reader/ascii_reader.go | 17 +++++++++++++----
 vtdxml/reader/utf8_reader.go  | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 49e4528..e4af42c 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -30,7 +30,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 }
 
 func (r *AsciiReader) GetChar() (uint32, error) {
-	if r.offset >= r.endOffset {
+	if r.offset < 0 || r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[r.offset]
@@ -42,15 +42,21 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 }
 
 func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
-		return (2 << 32) | '\n', nil
+	if ch == byte('\r') {
+		if int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
+			return (2 << 32) | '\n', nil
+		}
+		return (1 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset >= 0 && r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
@@ -68,6 +74,9 @@ func (r *AsciiReader) SkipCharSeq(seq string) bool {
 }
 
 func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8b68251..c669c83 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -30,7 +30,7 @@ func NewUtf8Reader(xmlDoc []byte, offset, endOffset int) (*Utf8Reader, error) {
 }
 
 func (r *Utf8Reader) GetChar() (uint32, error) {
-	if r.offset >= r.endOffset {
+	if r.offset < 0 || r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[r.offset]
@@ -42,19 +42,28 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 }
 
 func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
-		return (2 << 32) | '\n', nil
+	if ch == byte('\r') {
+		if int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
+			return (2 << 32) | '\n', nil
+		}
+		return (1 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset >= 0 && r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
-- 
2.43.0


From 7d7b4d601657f7c56c422228de205ae3202aa427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 09/59] fix: decode multi-byte characters in the UTF-8 reader

Every byte was taken for a character (the validity test could not fail), so
names with non-ASCII letters were refused or split, illegal code points and
invalid UTF-8 sequences were accepted.
---
 vtdxml/reader/utf8_reader.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index c669c83..28ff85f 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -1,7 +1,7 @@
 package reader
 
 import (
-	"unicode"
+	"unicode/utf8"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
@@ -33,9 +33,9 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 	if r.offset < 0 || r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	ch := r.xmlDoc[r.offset]
-	r.offset++
-	if !r.isUTF8(ch) {
+	ch, width := utf8.DecodeRune(r.xmlDoc[r.offset:r.endOffset])
+	r.offset += width
+	if !r.isUTF8(ch, width) {
 		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
 	}
 	return uint32(ch), nil
@@ -52,7 +52,11 @@ func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
 		}
 		return (1 << 32) | '\n', nil
 	}
-	return (1 << 32) | uint64(ch), nil
+	r32, width := utf8.DecodeRune(r.xmlDoc[offset:r.endOffset])
+	if !r.isUTF8(r32, width) {
+		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
+	}
+	return uint64(width)<<32 | uint64(r32), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
@@ -63,8 +67,12 @@ func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if r.offset >= 0 && r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
-		r.offset++
+	if r.offset < 0 || r.offset >= r.endOffset {
+		return false
+	}
+	next, width := utf8.DecodeRune(r.xmlDoc[r.offset:r.endOffset])
+	if r.isUTF8(next, width) && ch == uint32(next) {
+		r.offset += width
 		return true
 	} else {
 		return false
@@ -88,7 +96,8 @@ func (r *Utf8Reader) SetOffset(offset int) {
 	r.offset = offset
 }
 
-// isUTF8 function to validate if a character is a valid ASCII character
-func (r *Utf8Reader) isUTF8(ch uint8) bool {
-	return uint32(ch) <= unicode.MaxRune
+// isUTF8 function to validate if a character has been decoded from a valid
+// UTF-8 byte sequence
+func (r *Utf8Reader) isUTF8(ch rune, width int) bool {
+	return ch != utf8.RuneError || width > 1
 }
-- 
2.43.0


From e6bde4a64f2839f06039f3562426f567f7716572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:36 +0000
Subject: [PATCH 10/59] fix: track UTF-8 as the default single-byte-unit
 encoding

A document without an encoding declaration, or declared UTF-8, was handled as
ASCII, so stepping back over a multi-byte character used one byte; the UTF-8
constant also sorted above UTF-16, so every 'encoding < UTF-16' test would
have treated UTF-8 as a two-byte encoding.
---
 vtdxml/common/common.go           | 6 +++---
 vtdxml/parser/common.go           | 1 +
 vtdxml/parser/process_attr_val.go | 8 ++++++--
 vtdxml/parser/vtd_parser.go       | 1 +
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/vtdxml/common/common.go b/vtdxml/common/common.go
index 96f5d39..cb30420 100644
--- a/vtdxml/common/common.go
+++ b/vtdxml/common/common.go
@@ -33,6 +33,7 @@ type FormatEncoding int
 const (
 	FormatAscii FormatEncoding = iota
 	FormatIso88591
+	FormatUtf8
 	FormatIso88592
 	FormatIso88593
 	FormatIso88594
@@ -48,9 +49,6 @@ const (
 	FormatIso885914
 	FormatIso885915
 	FormatIso885916
-	FormatUtf16BE
-	FormatUtf16LE
-	FormatUtf8
 	FormatWin1250
 	FormatWin1251
 	FormatWin1252
@@ -60,4 +58,6 @@ const (
 	FormatWin1256
 	FormatWin1257
 	FormatWin1258
+	FormatUtf16BE
+	FormatUtf16LE
 )
diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7f10ab3..aedb45b 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -323,6 +323,7 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 	prevOffset := p.offset
 	switch p.encoding {
 	case common.FormatUtf8:
+		prevOffset--
 		for p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {
 			prevOffset--
 		}
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 6d00902..0ca5d58 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -94,7 +94,11 @@ func (p *VtdParser) processAttrVal() (State, error) {
 			return StateInvalid, err
 		}
 		if p.xmlChar.IsNameStartChar(p.currentChar) {
-			p.lastOffset = p.offset - p.increment
+			offset, err := p.getPrevOffset()
+			if err != nil {
+				return StateInvalid, err
+			}
+			p.lastOffset = offset
 			return StateAttrName, nil
 		}
 	}
@@ -441,7 +445,7 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 }
 
 func (p *VtdParser) getCharUnit(offset int) (int32, error) {
-	if p.encoding <= 2 {
+	if p.encoding <= common.FormatUtf8 {
 		return int32(p.xmlDoc[offset] & 0xff), nil
 	} else if p.encoding < common.FormatUtf16BE {
 		ch, err := p.reader.GetCharAt(int32(offset))
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index d2112df..aba8121 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -110,6 +110,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 		lcDepth:               DefaultLcDepth,
 		bufferReuse:           DefaultBufferReuse,
 		increment:             DefaultIncrement,
+		encoding:              common.FormatUtf8,
 		tagStack:              make([]int64, DefaultTagArraySize, DefaultTagArraySize),
 		attrNameSlice:         make([]int, DefaultAttrArraySize, DefaultAttrArraySize),
 		prefixedAttrNameSlice: make([]int64, DefaultAttrArraySize, DefaultAttrArraySize),
-- 
2.43.0


From 2cb90121b3763b4d0058a78ae496b977b974b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:47 +0000
Subject: [PATCH 11/59] fix: test character classes against ranges

Every parser and navigation object expanded the ranges into slices of some
three million code points, tens of megabytes for the smallest document, and
searched them linearly for each character.
---
 vtdxml/common/xml_char.go | 72 ++++++++++++---------------------------
 1 file changed, 21 insertions(+), 51 deletions(-)

diff --git a/vtdxml/common/xml_char.go b/vtdxml/common/xml_char.go
index 167f8be..6a115da 100644
--- a/vtdxml/common/xml_char.go
+++ b/vtdxml/common/xml_char.go
@@ -1,69 +1,39 @@
 package common
 
 type XmlChar struct {
-	validCharSlice     []uint32
-	spaceCharSlice     []uint32
-	nameCharSlice      []uint32
-	nameStartCharSlice []uint32
-	contentCharSlice   []uint32
-	specialCharSlice   []uint32
+	validCharSlice     [][]uint32
+	spaceCharSlice     [][]uint32
+	nameCharSlice      [][]uint32
+	nameStartCharSlice [][]uint32
+	specialCharSlice   [][]uint32
 }
 
 func NewXmlChar() *XmlChar {
-	x := &XmlChar{
-		validCharSlice:     make([]uint32, 0),
-		spaceCharSlice:     make([]uint32, 0),
-		nameCharSlice:      make([]uint32, 0),
-		nameStartCharSlice: make([]uint32, 0),
-		contentCharSlice:   make([]uint32, 0),
-		specialCharSlice:   make([]uint32, 0),
-	}
+	x := &XmlChar{}
 
-	// Set all valid characters
-	rangeSlice := [][]uint32{{0x1, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
-	for _, i := range rangeSlice {
-		for j := i[0]; j <= i[1]; j++ {
-			// exclude surrogate blocks, 0xFFFE and 0xFFFF
-			if (j >= 0xD800 && j <= 0xDFFF) || j == 0xFFFE || j == 0xFFFF {
-				continue
-			}
-			x.validCharSlice = append(x.validCharSlice, j)
-		}
-	}
+	// Set all valid characters, exclude surrogate blocks, 0xFFFE and 0xFFFF
+	x.validCharSlice = [][]uint32{{0x1, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
 
 	// Set space characters
-	for _, ch := range []uint32{0x20, 0x9, 0xD, 0xA} {
-		x.spaceCharSlice = append(x.spaceCharSlice, ch)
-	}
+	x.spaceCharSlice = [][]uint32{{0x20, 0x20}, {0x9, 0x9}, {0xD, 0xD}, {0xA, 0xA}}
 
 	// Set name start characters
-	rangeSlice = [][]uint32{
+	x.nameStartCharSlice = [][]uint32{
 		{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF},
 		{0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF},
 		{0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF},
 	}
-	for _, i := range rangeSlice {
-		for j := i[0]; j <= i[1]; j++ {
-			x.nameStartCharSlice = append(x.nameStartCharSlice, j)
-		}
-	}
 
 	// Set name characters
-	rangeSlice = append(rangeSlice, []uint32{'-', '-'})
-	rangeSlice = append(rangeSlice, []uint32{'.', '.'})
-	rangeSlice = append(rangeSlice, []uint32{'0', '9'})
-	rangeSlice = append(rangeSlice, []uint32{0xB7, 0xB7})
-	rangeSlice = append(rangeSlice, []uint32{0x0300, 0x036F})
-	rangeSlice = append(rangeSlice, []uint32{0x203F, 0x2040})
-	for _, i := range rangeSlice {
-		for j := i[0]; j <= i[1]; j++ {
-			x.nameCharSlice = append(x.nameCharSlice, j)
-		}
-	}
+	x.nameCharSlice = append(x.nameCharSlice, x.nameStartCharSlice...)
+	x.nameCharSlice = append(x.nameCharSlice, []uint32{'-', '-'})
+	x.nameCharSlice = append(x.nameCharSlice, []uint32{'.', '.'})
+	x.nameCharSlice = append(x.nameCharSlice, []uint32{'0', '9'})
+	x.nameCharSlice = append(x.nameCharSlice, []uint32{0xB7, 0xB7})
+	x.nameCharSlice = append(x.nameCharSlice, []uint32{0x0300, 0x036F})
+	x.nameCharSlice = append(x.nameCharSlice, []uint32{0x203F, 0x2040})
 
-	for _, i := range []uint32{'<', '&', ']'} {
-		x.specialCharSlice = append(x.specialCharSlice, i)
-	}
+	x.specialCharSlice = [][]uint32{{'<', '<'}, {'&', '&'}, {']', ']'}}
 
 	return x
 }
@@ -88,9 +58,9 @@ func (x *XmlChar) IsContentChar(ch uint32) bool {
 	return !x.exists(x.specialCharSlice, ch) && x.exists(x.validCharSlice, ch)
 }
 
-func (x *XmlChar) exists(arr []uint32, ch uint32) bool {
-	for _, i := range arr {
-		if i == ch {
+func (x *XmlChar) exists(ranges [][]uint32, ch uint32) bool {
+	for _, r := range ranges {
+		if r[0] <= ch && ch <= r[1] {
 			return true
 		}
 	}
-- 
2.43.0


From c6ca2536d8c5976dc8a9f15ad63cea5357943f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 12/59] fix: do not print parser states to standard output

---
 vtdxml/parser/parse.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 69fd652..d5c1737 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -24,10 +23,6 @@ func (p *VtdParser) Parse() error {
 	var ps State
 	var err error
 	for {
-		fmt.Printf("Starting process state: %d\n", parserState)
-		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
-			p.length1)
-
 		switch parserState {
 		case StateDocType:
 			ps, err = p.processDocType()
-- 
2.43.0


From c4a9a90d81d76a28b9c4d23010d143a3f86d040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:49 +0000
Subject: [PATCH 13/59] fix: do not overwrite erroring.EOFErrorType while
 parsing

errors.As stored the error it found in the package variable, which is shared
by all parsers: a data race, and the exported value changed.
---
 vtdxml/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d5c1737..01be12e 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -62,7 +62,8 @@ func (p *VtdParser) Parse() error {
 			)
 		}
 
-		if errors.As(err, &erroring.EOFErrorType) && parserState == StateDocEnd {
+		var eofErr *erroring.EOFError
+		if errors.As(err, &eofErr) && parserState == StateDocEnd {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
-- 
2.43.0


From 875cf576fc27560a29cd6beab16ed9a425129447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 14/59] fix: byte-order mark detection

Bytes were compared with negative numbers, so no byte-order mark was ever
recognised and a UTF-8 document starting with one was refused; documents of
one to three bytes were read past their end (panic); and the reader stayed at
the start of the mark. UTF-16, for which there is no reader, is refused.
---
 vtdxml/parser/common.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index aedb45b..db5bd64 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -345,9 +345,16 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 }
 
 func (p *VtdParser) decideEncoding() error {
-	if int32(p.xmlDoc[p.offset]) == -2 {
+	// byteAt reads ahead without leaving the document
+	byteAt := func(i int) int {
+		if p.offset+i < p.endOffset {
+			return int(p.xmlDoc[p.offset+i])
+		}
+		return -1
+	}
+	if byteAt(0) == 0xFE {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -1 {
+		if byteAt(1) == 0xFF {
 			p.offset += 2
 			p.encoding = common.FormatUtf16BE
 			p.bomDetected = true
@@ -355,9 +362,9 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("should be 0xFF 0xFE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -1 {
+	} else if byteAt(0) == 0xFF {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -2 {
+		if byteAt(1) == 0xFE {
 			p.offset += 2
 			p.encoding = common.FormatUtf16LE
 			p.bomDetected = true
@@ -365,28 +372,29 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("not UTF-16LE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0 {
-		if int32(p.xmlDoc[p.offset+1]) == 0x3c &&
-			int32(p.xmlDoc[p.offset+2]) == 0 &&
-			int32(p.xmlDoc[p.offset+3]) == 0x3f {
+	} else if byteAt(0) == 0 {
+		if byteAt(1) == 0x3c &&
+			byteAt(2) == 0 &&
+			byteAt(3) == 0x3f {
 			p.encoding = common.FormatUtf16BE
 			p.increment = 2
 			// g.reader = reader.NewUtf16BeReader()
 		} else {
 			return erroring.NewEncodingError("not UTF-16BE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -17 {
-		if int32(p.xmlDoc[p.offset+1]) == -69 &&
-			int32(p.xmlDoc[p.offset+2]) == -65 {
+	} else if byteAt(0) == 0xEF {
+		if byteAt(1) == 0xBB &&
+			byteAt(2) == 0xBF {
 			p.offset += 3
+			p.reader.SetOffset(p.offset)
 			p.mustUtf8 = true
 		} else {
 			return erroring.NewEncodingError("not UTF-8")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0x3c {
-		if int32(p.xmlDoc[p.offset+1]) == 0 &&
-			int32(p.xmlDoc[p.offset+2]) == 0x3f &&
-			int32(p.xmlDoc[p.offset+3]) == 0 {
+	} else if byteAt(0) == 0x3c {
+		if byteAt(1) == 0 &&
+			byteAt(2) == 0x3f &&
+			byteAt(3) == 0 {
 			p.encoding = common.FormatUtf16LE
 			p.increment = 2
 			// g.reader = reader.NewUtf16LeReader()
@@ -412,6 +420,8 @@ func (p *VtdParser) decideEncoding() error {
 
 	if p.encoding >= common.FormatUtf16BE {
 		p.singleByteEncoding = false
+		// there is no UTF-16 reader
+		return erroring.NewEncodingError("UTF-16 is not supported")
 	}
 	return nil
 }
-- 
2.43.0


From 4af6d9e4a42ae7b6ccca2a3c492bdc0197389527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 15/59] fix: refuse a negative document length

A negative or overflowing length passed the check; parsing then panicked.
---
 vtdxml/parser/vtd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index aba8121..0bc399d 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -130,7 +130,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	if g.offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if g.length == 0 || g.offset+g.length > len(g.xmlDoc) {
+	if g.length <= 0 || g.length > len(g.xmlDoc)-g.offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	// perform additional initialization
-- 
2.43.0


From cf6a7dd93463729c10f75b0b8a16064a64c42f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 16/59] fix: resume at the right place when no XML declaration
 follows '<?'

Only the parser's copy of the offset was moved back after looking for '<?xml',
not the reader, so a processing instruction at the start was read from its
middle ('<?p?><a/>' refused, '<?a></a>' accepted). The end-of-input error
after leading whitespace was dropped.
---
 vtdxml/parser/process_doc_start.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 9d4787f..03cfd03 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -25,11 +25,11 @@ func (p *VtdParser) processDocStart() (State, error) {
 				return StateInvalid, erroring.NewParseError("premature ending", p.fmtLine(), nil)
 			}
 		}
-		p.offset = p.lastOffset
+		p.setOffset(p.lastOffset)
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
-			return StateInvalid, nil
+			return StateInvalid, err
 		}
 		if p.currentChar == '<' {
 			return StateLtSeen, nil
-- 
2.43.0


From 1a73c0ffacd26876f8a693126b2a98dbc83699cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 17/59] fix: re-read the character after an 'xml...' PI target

The reader was not moved back with the parser's offset, so the character
after the letters xml was skipped ('<?xml/ foo?>' in content was accepted).
---
 vtdxml/parser/process_lt_seen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 10ce090..f9c7def 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -80,6 +80,7 @@ func (p *VtdParser) processQmSeen() (State, error) {
 				return StateInvalid, err
 			}
 			p.offset = offset
+			p.reader.SetOffset(offset)
 		}
 		return StatePiTag, nil
 	}
-- 
2.43.0


From 6953d245b950e4c54d9b55eb17afbabdd957c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 18/59] fix: termination of a PI without a value after the root
 element

The condition was inverted: '<a/><?p?>' was refused, '<a/><?p?' accepted.
---
 vtdxml/parser/process_pi_end.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_pi_end.go b/vtdxml/parser/process_pi_end.go
index cd11eda..205be40 100644
--- a/vtdxml/parser/process_pi_end.go
+++ b/vtdxml/parser/process_pi_end.go
@@ -65,7 +65,7 @@ func (p *VtdParser) processPiEnd() (State, error) {
 				return StateInvalid, err
 			}
 		}
-		if p.currentChar != '?' || p.skipChar('>') {
+		if p.currentChar != '?' || !p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)
 		}
 	}
-- 
2.43.0


From c828a578b5e8b4f1f899335eca574b6418927408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:56 +0000
Subject: [PATCH 19/59] fix: accept comments after the root element

The character after '--' was not read, so every such comment was refused.
---
 vtdxml/parser/process_end_comment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_comment.go b/vtdxml/parser/process_end_comment.go
index 84b2b20..0e0d467 100644
--- a/vtdxml/parser/process_end_comment.go
+++ b/vtdxml/parser/process_end_comment.go
@@ -18,6 +18,9 @@ func (p *VtdParser) processEndComment() (State, error) {
 			break
 		}
 	}
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
 	if p.currentChar != '>' {
 		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
 	}
@@ -26,7 +29,7 @@ func (p *VtdParser) processEndComment() (State, error) {
 			return StateInvalid, err
 		}
 	} else {
-		if err := p.writeVtd(common.TokenComment, p.lastOffset>>1, p.length1>>1, p.depth); err != nil {
+		if err := p.writeVtdText(common.TokenComment, p.lastOffset>>1, p.length1>>1, p.depth); err != nil {
 			return StateInvalid, err
 		}
 	}
-- 
2.43.0


From f80972046f085e0f62466555a463844e6d4ff4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:32 +0000
Subject: [PATCH 20/59] fix: accept documents declared ASCII, refuse
 undecodable declared encodings

The 'cannot switch encoding' conditions were inverted, so every ASCII
declaration was refused. The Windows branch accepted 'windows-125' and
'cp125' without switching to anything, and ISO would have done the same.
---
 vtdxml/parser/process_dec_attr_name.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 8a4a66c..d813abd 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -241,7 +241,7 @@ func (p *VtdParser) checkAsciiEncoding() error {
 	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -260,7 +260,7 @@ func (p *VtdParser) checkUsAsciiEncoding() error {
 	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to US-ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -279,7 +279,7 @@ func (p *VtdParser) checkIsoEncoding() error {
 	if !p.skipCharSeq(iso8859[1:]) && !p.skipCharSeq(strings.ToUpper(iso8859[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ISO8859x", p.fmtLine(), nil)
 	}
 	if length, err := p.setIsoEncoding(); err != nil {
@@ -358,7 +358,7 @@ func (p *VtdParser) checkCpEncoding() error {
 	if !p.skipCharSeq(cp125[1:]) && !p.skipCharSeq(strings.ToUpper(cp125[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding > common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to CP125x", p.fmtLine(), nil)
 	}
 	if err := p.setWinEncoding(); err != nil {
@@ -374,7 +374,7 @@ func (p *VtdParser) checkWindowsEncoding() error {
 	if !p.skipCharSeq(windows[1:]) && !p.skipCharSeq(strings.ToUpper(windows[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding > common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to WINDOWS-125x", p.fmtLine(), nil)
 	}
 	if err := p.setWinEncoding(); err != nil {
@@ -453,10 +453,10 @@ func (p *VtdParser) setWinEncoding() error {
 	// } else {
 	// 	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	// }
-	return nil
+	return erroring.NewEncodingError("CP125x and WINDOWS-125x are not supported")
 }
 
 func (p *VtdParser) setIsoEncoding() (int, error) {
 	// TODO implement: return length end error
-	return 0, nil
+	return 0, erroring.NewEncodingError("ISO8859x is not supported")
 }
-- 
2.43.0


From 8c50027dd7cf490edac36c4dc97d071c08ffe7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:32 +0000
Subject: [PATCH 21/59] fix: accept the encoding name US-ASCII in upper case

The letter S was only matched in lower case, and trying the upper-case form
after the lower-case one had consumed the hyphen could not succeed.
---
 vtdxml/parser/process_dec_attr_name.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index d813abd..58443f8 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -149,7 +149,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 			return err
 		}
 	case 'u', 'U':
-		if p.skipChar(uint32(usAscii[1])) {
+		if p.skipCharSeqIgnoreCase(usAscii[1:2]) {
 			if err := p.checkUsAsciiEncoding(); err != nil {
 				return err
 			}
@@ -257,7 +257,7 @@ func (p *VtdParser) checkAsciiEncoding() error {
 }
 
 func (p *VtdParser) checkUsAsciiEncoding() error {
-	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
+	if !p.skipCharSeqIgnoreCase(usAscii[2:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
 	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
-- 
2.43.0


From 60b594cbb3cd284bd93cc37a046e80691d2d2adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:33 +0000
Subject: [PATCH 22/59] fix: XML declaration values must end with their opening
 quote

encoding and standalone values could be opened with one kind of quote and
closed with the other.
---
 vtdxml/parser/process_dec_attr_name.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 58443f8..af78ec9 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -131,6 +131,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	p.lastOffset = p.offset
 	if err := p.nextChar(); err != nil {
 		return err
@@ -168,7 +169,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
+	if p.currentChar != quote {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
@@ -201,6 +202,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	if p.skipCharSeq("yes") {
 		if p.singleByteEncoding {
 			if err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 3, p.depth); err != nil {
@@ -228,7 +230,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
+	if p.currentChar != quote {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
-- 
2.43.0


From d2c1b2b28d09f0830bfe7e24ebd6f19b475e0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:46 +0000
Subject: [PATCH 23/59] fix: require whitespace between encoding and standalone

An XML declaration with no space after the encoding value was accepted.
---
 vtdxml/parser/process_dec_attr_name.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index af78ec9..ee0292d 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -172,9 +172,16 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if p.currentChar != quote {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
-	if err := p.nextCharAfterWs(); err != nil {
+	if err := p.nextChar(); err != nil {
 		return err
 	}
+	if p.xmlChar.IsSpaceChar(p.currentChar) {
+		if err := p.nextCharAfterWs(); err != nil {
+			return err
+		}
+	} else if p.currentChar != '?' {
+		return erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset - p.increment
 	return nil
 }
-- 
2.43.0


From 5092c5430da8bee597f792bfccf3b26bbcc09ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:46 +0000
Subject: [PATCH 24/59] fix: store the prefix length of a start tag in its own
 bits

It was shifted by 1 instead of 11, so it corrupted the name length of every
prefixed element.
---
 vtdxml/parser/process_start_tag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 9bac2be..78bf66c 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,11 +38,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
-			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		}
-- 
2.43.0


From 87d26be8aa8cb8b151e9182303a9a613a75016ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 25/59] fix: mark childless elements with the 32-bit -1
 navigation expects

The location cache wrote 0xFFFF, which navigation takes for the position of
the first child in the next level's cache.
---
 vtdxml/parser/common.go | 20 ++++++++++----------
 vtdxml/parser/parse.go  | 12 ++++++------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index db5bd64..63636f4 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -146,19 +146,19 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	case 1:
 		{
 			if p.lastDepth == 1 {
-				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -173,15 +173,15 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -196,11 +196,11 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -215,7 +215,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 01be12e..73372cc 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -81,19 +81,19 @@ func (p *VtdParser) finishUp() error {
 	var err error
 	if p.shallowDepth {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		}
 	} else {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 3 {
-			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF))
+			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 4 {
-			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF))
+			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF))
 		}
 	}
 	return err
-- 
2.43.0


From 58ed552ea108a30c677ee555b878f94014466b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 26/59] fix: fill the location cache with the default cache
 depth

With cache depth 3 start tags were recorded without their root index and
location cache entries, which is what element navigation reads.
---
 vtdxml/parser/common.go            | 47 ++++++++++++++++++++++++++++++
 vtdxml/parser/process_start_tag.go |  4 +--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 63636f4..05d9123 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -131,6 +131,53 @@ func (p *VtdParser) writeVtd(tokenType common.Token, offset, length, depth int)
 	return p.vtdBuffer.Append(b | offset64)
 }
 
+// writeVtdL3 function writes into VTD buffer and location cache of three levels
+func (p *VtdParser) writeVtdL3(tokenType common.Token, offset, length, depth int) error {
+	if err := p.writeVtd(tokenType, offset, length, depth); err != nil {
+		return err
+	}
+	index := p.vtdBuffer.GetSize() - 1
+	switch depth {
+	case 0:
+		p.rootIndex = index
+	case 1:
+		if p.lastDepth == 1 {
+			if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
+				return err
+			}
+		} else if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
+				return err
+			}
+		}
+		p.lastL1Index = index
+		p.lastDepth = 1
+	case 2:
+		if p.lastDepth == 1 {
+			if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) + p.l2Buffer.GetSize())); err != nil {
+				return err
+			}
+		} else if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
+				return err
+			}
+		}
+		p.lastL2Index = index
+		p.lastDepth = 2
+	case 3:
+		if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) + p.l3Buffer.GetSize())); err != nil {
+				return err
+			}
+		}
+		if err := p.l3Buffer.Append(int64((index << 32) | 0xFFFFFFFF)); err != nil {
+			return err
+		}
+		p.lastDepth = 3
+	}
+	return nil
+}
+
 // writeVtdL5 function writes into VTD buffer and location cache
 func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int) error {
 	if err := p.writeVtd(tokenType, offset, length, depth); err != nil {
diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 78bf66c..29e4ab1 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,7 +38,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
@@ -51,7 +51,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
 				p.depth); err != nil {
 				return StateInvalid, err
 			}
-- 
2.43.0


From 8586147ae6aa4330a49616e3878674058d2426fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:53 +0000
Subject: [PATCH 27/59] fix: length of text, CDATA and comment tokens

Only a record of length zero was ever continued (with whatever record came
next), and a value split over several records reported its first part only.
---
 vtdxml/navigation/common.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index e079b6e..ca9a1ff 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -91,27 +91,38 @@ func (n *VtdNav) GetTokenLength(index int) (int32, error) {
 			if caseErr != nil {
 				return 0, caseErr
 			}
-			var offset int32
-			var tokenTypeNew, tokenOffsetNew, tokenDepthNew int32
-			tokenDepthNew = depth
-			tokenTypeNew = tokenType
+			offset, caseErr := n.GetTokenOffset(index)
+			if caseErr != nil {
+				return 0, caseErr
+			}
+			tokenOffsetNew, tokenDepthNew, tokenTypeNew := offset, depth, tokenType
 
-			for i := index; i < n.vtdBuffer.GetSize() &&
-				depth == tokenDepthNew &&
+			// sum up the records that continue this one
+			for i := index; depth == tokenDepthNew &&
 				tokenType == tokenTypeNew &&
-				offset == tokenOffsetNew; i++ {
+				offset == tokenOffsetNew; {
 
 				val, forErr := n.vtdBuffer.LongAt(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				length += (uint64(val) & common.MaskTokenFullLength) >> 32
+				recordLength := (uint64(val) & common.MaskTokenFullLength) >> 32
+				length += recordLength
+				offset += int32(recordLength)
 
-				tokenOffsetNew, forErr = n.GetTokenOffset(i)
-				if forErr != nil {
+				i++
+				if i >= n.vtdBuffer.GetSize() {
+					break
+				}
+				if tokenTypeNew, forErr = n.GetTokenType(i); forErr != nil {
+					return 0, forErr
+				}
+				if tokenDepthNew, forErr = n.GetTokenDepth(i); forErr != nil {
+					return 0, forErr
+				}
+				if tokenOffsetNew, forErr = n.GetTokenOffset(i); forErr != nil {
 					return 0, forErr
 				}
-				tokenOffsetNew = int32((uint64(val) & common.MaskTokenFullLength) >> 32)
 			}
 			return int32(length), nil
 		}
-- 
2.43.0


From 3a45124d42a00fb8f1ecea156cccf703c8e3ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 28/59] fix: navigation context needs one entry per level

It had one entry too few, so moving to an element on the deepest level
panicked, as did every call for a document without nested elements. A
negative depth panicked on creation.
---
 vtdxml/navigation/vtd_nav.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtdxml/navigation/vtd_nav.go b/vtdxml/navigation/vtd_nav.go
index 9e06357..5ad9feb 100644
--- a/vtdxml/navigation/vtd_nav.go
+++ b/vtdxml/navigation/vtd_nav.go
@@ -3,6 +3,7 @@ package navigation
 import (
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
 type Nav interface {
@@ -48,6 +49,9 @@ func NewVtdNav(
 	vtdBuffer, l1Buffer, l2Buffer, l3Buffer buffer.LongBuffer,
 ) (*VtdNav, error) {
 	// TODO validate arguments
+	if depth < 0 {
+		return nil, erroring.NewInvalidArgumentError("depth", erroring.IndexOutOfRange, nil)
+	}
 	n := &VtdNav{
 		rootIndex: rootIndex,
 		offset:    offset,
@@ -59,11 +63,11 @@ func NewVtdNav(
 		l1Buffer:  l1Buffer,
 		l2Buffer:  l2Buffer,
 		l3Buffer:  l3Buffer,
-		context:   make([]int32, 0, depth),
+		context:   make([]int32, 0, depth+1),
 		xmlChar:   common.NewXmlChar(),
 	}
 
-	for i := 0; i < int(depth); i++ {
+	for i := 0; i <= int(depth); i++ {
 		n.context = append(n.context, -1)
 	}
 
-- 
2.43.0


From b87c46f816b691d82d88f641a7c91d95c8e34a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:55 +0000
Subject: [PATCH 29/59] fix: read level 2 and 3 elements from their own
 location cache

Sibling moves on levels 2 and 3 and the move to a level 3 child looked up the
element in the cache of another level.
---
 vtdxml/navigation/to_element.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ee81b84..4cf3cc1 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -134,7 +134,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			} else {
 				n.l3index = int(n.l3upper)
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, nil
 			}
@@ -245,7 +245,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l2index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
 				return false, err
 			}
@@ -265,7 +265,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l3index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 2faa66315f33e1a7a3c90dea734c353d86ad18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:56 +0000
Subject: [PATCH 30/59] fix: next sibling below level 3

The scan gave up at the first element on the same level, which is the sibling.
---
 vtdxml/navigation/to_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index 4cf3cc1..e1bded5 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -295,7 +295,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 			return false, err
 		}
 		if common.Token(tokenType) == common.TokenStartingTag {
-			if depth <= n.context[0] {
+			if depth < n.context[0] {
 				return false, nil
 			} else if depth == n.context[0] {
 				n.context[n.context[0]] = int32(index)
-- 
2.43.0


From c18529624ea93d40d1aa79b729893775bd6ca892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 31/59] fix: do not move to a child below the deepest level

With records or caches that disagree with the declared depth the cursor
context was indexed past its end (panic).
---
 vtdxml/navigation/to_element.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index e1bded5..92cb2cf 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -49,6 +49,10 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 	if n.atTerminal {
 		return false, nil
 	}
+	if int(n.context[0])+1 >= len(n.context) {
+		// already on the deepest level
+		return false, nil
+	}
 	switch n.context[0] {
 	case -1:
 		{
-- 
2.43.0


From 929d61ad04007b55927e2daf16bcf3fd1083180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:55 +0000
Subject: [PATCH 32/59] fix: resolve decimal and hexadecimal character
 references

Reading a decimal reference never moved past its first digit (endless loop)
and the length reported for a hexadecimal one left out the semicolon.
---
 vtdxml/navigation/get_char_resolved.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index fa954b5..88bef08 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -64,6 +64,7 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else if ch2 >= 'A' && ch2 <= 'F' {
 						value = (value << 4) + (ch2 - 'A' + 10)
 					} else if ch2 == ';' {
+						inc++
 						break
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
@@ -71,6 +72,8 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 				}
 			} else {
 				for {
+					offset++
+					inc++
 					if ch2 >= '0' && ch2 <= '9' {
 						value = value*10 + (ch2 - '0')
 					} else if ch2 == ';' {
-- 
2.43.0


From 1e4d340df40b4f3973d6a3f80ead1e320864a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 33/59] fix: resolve &amp; and &apos;

The rest of the name was compared from its second letter on, so reading a
value with either entity always failed.
---
 vtdxml/navigation/get_char_resolved.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index 88bef08..d76c295 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -101,13 +101,13 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			}
 			if ch2 == 'm' {
 				// checks that the sequence matcher &amp;
-				if err := checkSeq(offset, "p;"); err != nil {
+				if err := checkSeq(offset+1, "p;"); err != nil {
 					return 0, 0, err
 				}
 				return 5, '&', nil
 			} else if ch2 == 'p' {
 				// checks that the sequence matcher &apos;
-				if err := checkSeq(offset, "os;"); err != nil {
+				if err := checkSeq(offset+1, "os;"); err != nil {
 					return 0, 0, err
 				}
 				return 6, '\'', nil
-- 
2.43.0


From 5f116edf55b1820be44780547fe7bdbe67ea981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 34/59] fix: replace entities and character references in
 string values

The comparison with '&' included the width bits and was never true, so values
kept their references; the source length of a reference was lost in a 32-bit
shift and its character was written as a single byte.
---
 vtdxml/navigation/get_char_resolved.go | 17 ++++++++++-------
 vtdxml/navigation/to_string.go         | 11 ++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index d76c295..ae66a61 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -5,25 +5,28 @@ import (
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
-func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
+// getCharResolved function returns the character at the offset with entities and
+// character references resolved, and the length of its source, which is more than
+// one for an entity or a character reference only
+func (n *VtdNav) getCharResolved(offset int) (uint32, int, error) {
 	ch, err := n.getChar(offset)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
-	if ch != '&' {
-		return uint32(ch), nil
+	if uint32(ch) != '&' {
+		return uint32(ch), 1, nil
 	}
 	offset++
 	ch2, err := n.getCharUnit(offset)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
 	offset++
 	inc, val, err := n.resolveEntity(offset, ch2)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
-	return val | uint32(inc<<32), nil
+	return val, int(inc), nil
 }
 
 func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index 9bb5066..a7aedfe 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -30,12 +30,17 @@ func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
 	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
-		ch, err := n.getCharResolved(int(i))
+	for i := offset; i < endOffset; {
+		ch, inc, err := n.getCharResolved(int(i))
 		if err != nil {
 			return "", err
 		}
-		buffer.WriteByte(byte(ch))
+		if inc > 1 {
+			buffer.WriteRune(rune(ch))
+		} else {
+			buffer.WriteByte(byte(ch))
+		}
+		i += int32(inc)
 	}
 
 	return buffer.String(), nil
-- 
2.43.0


From d32a6792b27db4cc15c96e9624890a8377fa47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 35/59] fix: a string range that overflows is out of range

The end of the range was computed in 32 bits, so a range far past the document
came back as an empty string instead of an error.
---
 vtdxml/navigation/to_string.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index a7aedfe..5ca0d7d 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -29,9 +29,9 @@ func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
-	endOffset := offset + length
-	for i := offset; i < endOffset; {
-		ch, inc, err := n.getCharResolved(int(i))
+	endOffset := int(offset) + int(length)
+	for i := int(offset); i < endOffset; {
+		ch, inc, err := n.getCharResolved(i)
 		if err != nil {
 			return "", err
 		}
@@ -40,7 +40,7 @@ func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 		} else {
 			buffer.WriteByte(byte(ch))
 		}
-		i += int32(inc)
+		i += inc
 	}
 
 	return buffer.String(), nil
@@ -77,9 +77,9 @@ func (n *VtdNav) ToRawStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
-	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
-		ch, err := n.getChar(int(i))
+	endOffset := int(offset) + int(length)
+	for i := int(offset); i < endOffset; i++ {
+		ch, err := n.getChar(i)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From e1b46862c702f60de8087b721ad1023fea3725c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 36/59] fix: a carriage return at the end of the document reads
 as a line feed

It came back as a NUL character.
---
 vtdxml/navigation/get_char_resolved.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index ae66a61..a00fae7 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -192,10 +192,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
@@ -208,10 +205,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
@@ -224,10 +218,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
-- 
2.43.0


From fda4d9a0f54522d4b4e8fc859e6fb9772ad56a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:24 +0000
Subject: [PATCH 37/59] fix: character references that overflow 32 bits are
 invalid

'&#x100000041;' wrapped around and was taken for the letter A.
---
 vtdxml/navigation/get_char_resolved.go | 8 ++++++++
 vtdxml/parser/common.go                | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index a00fae7..13c78be 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -1,6 +1,8 @@
 package navigation
 
 import (
+	"unicode"
+
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
@@ -60,6 +62,9 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					if err != nil {
 						return 0, 0, err
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					if ch2 >= '0' && ch2 <= '9' {
 						value = (value << 4) + (ch2 - '0')
 					} else if ch2 >= 'a' && ch2 <= 'f' {
@@ -77,6 +82,9 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 				for {
 					offset++
 					inc++
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					if ch2 >= '0' && ch2 <= '9' {
 						value = value*10 + (ch2 - '0')
 					} else if ch2 == ';' {
diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 05d9123..a32fc85 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -664,6 +665,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					if err != nil {
 						return 0, err
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					if ch >= '0' && ch <= '9' {
 						value = (value << 4) + (ch - '0')
 					} else if ch >= 'a' && ch <= 'f' {
@@ -678,6 +682,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 				}
 			} else {
 				for {
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					if ch >= '0' && ch <= '9' {
 						value = value*10 + (ch - '0')
 					} else if ch == ';' {
-- 
2.43.0


From 5761814cde7bdb6ece875cdff225b41dae113262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:48 +0000
Subject: [PATCH 38/59] fix: an end tag before any start tag is an error, not a
 panic

---
 vtdxml/parser/process_end_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 56a539f..6d4d90a 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -3,6 +3,9 @@ package parser
 import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 
 func (p *VtdParser) processEndTag() (State, error) {
+	if p.depth < 0 {
+		return StateInvalid, erroring.NewParseError("ending tag without starting tag", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
-- 
2.43.0


From 57bcd943e311535bfc931c84fa5a83100a1ced22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 39/59] fix: text that starts with a reference or ']' after an
 end tag

Such text was taken for markup that has just been opened.
---
 vtdxml/parser/process_end_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 6d4d90a..38866ba 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -46,7 +46,7 @@ func (p *VtdParser) processEndTag() (State, error) {
 			if err := p.handleOtherTextChar(p.currentChar); err != nil {
 				return StateInvalid, err
 			}
-			return StateLtSeen, nil
+			return StateText, nil
 		}
 	}
 	return StateDocEnd, nil
-- 
2.43.0


From 8bf42a5cc628b26841bd584fce99a71eb5de2104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 40/59] fix: one ']' before '>' is neither an error in text nor
 the end of CDATA

']>' was refused in text and ended a CDATA section; only ']]>' should.
---
 vtdxml/parser/common.go        | 4 +++-
 vtdxml/parser/process.go       | 4 +++-
 vtdxml/parser/process_cdata.go | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index a32fc85..c01d7b6 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -616,9 +616,11 @@ func (p *VtdParser) handleOtherTextChar(ch uint32) error {
 	case ']':
 		{
 			// skip all ] chars
+			brackets := 1
 			for p.skipChar(']') {
+				brackets++
 			}
-			if p.skipChar('>') {
+			if brackets > 1 && p.skipChar('>') {
 				return erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 			}
 			break
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6c72087..23445b7 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -46,9 +46,11 @@ func (p *VtdParser) getNextProcessStateFromChar(ch uint32) (State, error) {
 	}
 	if ch == ']' {
 		// skip all ] chars
+		brackets := 1
 		for p.skipChar(']') {
+			brackets++
 		}
-		if p.skipChar('>') {
+		if brackets > 1 && p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 		}
 		return StateText, nil
diff --git a/vtdxml/parser/process_cdata.go b/vtdxml/parser/process_cdata.go
index 1d02149..f66bc88 100644
--- a/vtdxml/parser/process_cdata.go
+++ b/vtdxml/parser/process_cdata.go
@@ -15,9 +15,11 @@ func (p *VtdParser) processCdata() (State, error) {
 		}
 		if p.currentChar == ']' {
 			// skip all ] chars
+			brackets := 1
 			for p.skipChar(']') {
+				brackets++
 			}
-			if p.skipChar('>') {
+			if brackets > 1 && p.skipChar('>') {
 				break
 			}
 		}
-- 
2.43.0


From eac0a0809d78bc7d1efd7e838781152a5c43fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 41/59] fix: DOCTYPE is allowed before the root element and
 nowhere else

The placement check for CDATA was applied to DOCTYPE as well: every document
with a DOCTYPE was refused, and a DOCTYPE inside an element was accepted.
---
 vtdxml/parser/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 23445b7..38b33b6 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -18,7 +18,8 @@ func (p *VtdParser) validateSeq(seq string) error {
 				p.fmtLine(), nil)
 		}
 	}
-	if p.depth < 0 {
+	// DOCTYPE belongs in front of the root element, everything else inside it
+	if (seq == docType) != (p.depth < 0) {
 		return erroring.NewParseError(fmt.Sprintf("wrong place for %s", seq),
 			p.fmtLine(), nil)
 	}
-- 
2.43.0


From 9d3556fa4d69bb55bc321f61620341de4348e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 42/59] fix: '<' and '>' in DTD literals, comments and PIs are
 not markup

The end of the DOCTYPE was found by counting all angle brackets, so an entity
value or comment with an unpaired one ended it early or never.
---
 vtdxml/parser/process_doc_type.go | 38 ++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_type.go b/vtdxml/parser/process_doc_type.go
index 596168d..3cd5a3e 100644
--- a/vtdxml/parser/process_doc_type.go
+++ b/vtdxml/parser/process_doc_type.go
@@ -7,6 +7,7 @@ import (
 
 func (p *VtdParser) processDocType() (State, error) {
 	z := 1
+	var quote uint32
 	for {
 		ch, err := p.getChar()
 		if err != nil {
@@ -15,10 +16,28 @@ func (p *VtdParser) processDocType() (State, error) {
 		if !p.xmlChar.IsValidChar(ch) {
 			return StateInvalid, erroring.NewParseError("invalid char in DOCTYPE", p.fmtLine(), nil)
 		}
+		if quote != 0 {
+			// inside of a literal
+			if ch == quote {
+				quote = 0
+			}
+			continue
+		}
 		if ch == '>' {
 			z--
 		} else if ch == '<' {
-			z++
+			if p.skipCharSeq("!--") {
+				err = p.skipDtdSection("-->")
+			} else if p.skipChar('?') {
+				err = p.skipDtdSection("?>")
+			} else {
+				z++
+			}
+			if err != nil {
+				return StateInvalid, err
+			}
+		} else if ch == '"' || ch == '\'' {
+			quote = ch
 		}
 
 		if z == 0 {
@@ -38,3 +57,20 @@ func (p *VtdParser) processDocType() (State, error) {
 	}
 	return StateLtSeen, nil
 }
+
+// skipDtdSection function skips a comment or PI of the DTD up to and including
+// its end sequence
+func (p *VtdParser) skipDtdSection(end string) error {
+	for {
+		ch, err := p.getChar()
+		if err != nil {
+			return err
+		}
+		if !p.xmlChar.IsValidChar(ch) {
+			return erroring.NewParseError("invalid char in DOCTYPE", p.fmtLine(), nil)
+		}
+		if ch == uint32(end[0]) && p.skipCharSeq(end[1:]) {
+			return nil
+		}
+	}
+}
-- 
2.43.0


From ee8f59c5003900513e4c825d595b1ba69d8d464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:32 +0000
Subject: [PATCH 43/59] fix: refuse a second DOCTYPE

---
 vtdxml/parser/process_doc_type.go | 5 +++++
 vtdxml/parser/vtd_parser.go       | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_type.go b/vtdxml/parser/process_doc_type.go
index 3cd5a3e..d7f953a 100644
--- a/vtdxml/parser/process_doc_type.go
+++ b/vtdxml/parser/process_doc_type.go
@@ -6,6 +6,11 @@ import (
 )
 
 func (p *VtdParser) processDocType() (State, error) {
+	if p.docTypeSeen {
+		return StateInvalid, erroring.NewParseError("DOCTYPE can only appear once", p.fmtLine(), nil)
+	}
+	p.docTypeSeen = true
+
 	z := 1
 	var quote uint32
 	for {
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index 0bc399d..88ed334 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -47,7 +47,7 @@ type VtdParser struct {
 	currentElementRecord                                                int64
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
-	isXml                                                               bool
+	isXml, docTypeSeen                                                  bool
 	bufferReuse                                                         bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
-- 
2.43.0


From c1a3c858bdf01bb291992eb5fd0dc04eb8f8033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 44/59] fix: accept more than 256 attributes on one element

---
 vtdxml/parser/process_attr_name.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index d6dc1d8..608342c 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -129,14 +129,15 @@ func (p *VtdParser) checkAttrUniqueness() error {
 	if !unique && p.attrCount != 0 {
 		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
 	}
-	p.attrNameSlice[p.attrCount] = (p.lastOffset << 32) | p.length1
+	p.attrNameSlice = append(p.attrNameSlice[:p.attrCount], (p.lastOffset<<32)|p.length1)
 	p.attrCount++
 	if p.nsAware && !p.isNs && p.length2 != 0 {
 		isXml := p.checkXmlPrefix(p.lastOffset, -1, false)
 		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
 			return nil
 		}
-		p.prefixedAttrNameSlice[p.prefixedAttCount] = int64((p.lastOffset << 32) | (p.length2 << 16) | p.length1)
+		p.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice[:p.prefixedAttCount],
+			int64((p.lastOffset<<32)|(p.length2<<16)|p.length1))
 		p.prefixedAttCount++
 	}
 	return nil
-- 
2.43.0


From 0950834bb86d9de370e443e36add4f478ecd1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:11 +0000
Subject: [PATCH 45/59] fix: resolve &amp; and &apos; in namespace URIs from
 where they stand

---
 vtdxml/parser/process_attr_val.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 0ca5d58..f20a87e 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -365,10 +365,11 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		}
 	case 'a':
 		{
-			ch2, err := p.getChar()
+			ch2, err := p.getCharUnit(offset)
 			if err != nil {
 				return 0, err
 			}
+			offset += p.increment
 			if p.encoding < common.FormatUtf16BE {
 				if ch2 == 'm' {
 					// checks that the sequence matcher &amp;
@@ -382,7 +383,7 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					if err := checkSeq("os;", offset, 1); err != nil {
 						return 0, err
 					}
-					inc = 5
+					inc = 6
 					val = '\''
 				}
 			} else {
-- 
2.43.0


From 1cead9d21bb2b25fe93a4b0ff4687b1777fb70bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:11 +0000
Subject: [PATCH 46/59] fix: compare the namespace URIs of prefixed attributes

---
 vtdxml/parser/process_attr_val.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index f20a87e..d5fca25 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -224,7 +224,7 @@ func (p *VtdParser) qualifyAttributes() error {
 		if i < 0 {
 			return erroring.NewParseError("prefixed attribute not qualified", p.fmtLine(), nil)
 		} else {
-			p.prefixUrlSlice = append(p.prefixUrlSlice, i)
+			p.prefixUrlSlice = append(p.prefixUrlSlice[:j], i)
 		}
 	}
 	return nil
@@ -462,8 +462,8 @@ func (p *VtdParser) getCharUnit(offset int) (int32, error) {
 }
 
 func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
-	for a.offset < a.offset+a.length &&
-		b.offset < b.offset+b.length {
+	endA, endB := a.offset+a.length, b.offset+b.length
+	for a.offset < endA && b.offset < endB {
 		chA, err := p.getCharResolved(a.offset)
 		if err != nil {
 			return false, err
@@ -472,15 +472,12 @@ func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
 		if err != nil {
 			return false, err
 		}
-		if chA != chB {
-			return false, err
+		// the same character may be written as a reference in one of them
+		if int32(chA) != int32(chB) {
+			return false, nil
 		}
 		a.offset += int(chA >> 32)
 		b.offset += int(chB >> 32)
 	}
-	if a.offset == a.offset+a.length &&
-		b.offset == b.offset+b.length {
-		return true, nil
-	}
-	return false, nil
+	return a.offset == endA && b.offset == endB, nil
 }
-- 
2.43.0


From 38e5b130c5aaf4300c9174ff78120f09ae997fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 47/59] fix: recognise the reserved namespace URIs

---
 vtdxml/parser/process_attr_val.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index d5fca25..f1e9544 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -54,12 +54,14 @@ func (p *VtdParser) processAttrVal() (State, error) {
 		if err != nil {
 			return StateInvalid, err
 		}
-		if p.isXml && nsUrlType != NsUrl2000 {
-			return StateInvalid, erroring.NewParseError(
-				fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
-				p.fmtLine(),
-				nil,
-			)
+		if p.isXml {
+			if nsUrlType != NsUrl1998 {
+				return StateInvalid, erroring.NewParseError(
+					fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
+					p.fmtLine(),
+					nil,
+				)
+			}
 		} else {
 			if !p.defaultNs {
 				if err := p.nsBuffer2.Append(int64(p.lastOffset<<32 | p.length1)); err != nil {
@@ -154,10 +156,10 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL2[i]) != ch {
+		if int32(URL2[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
 	tmpOffset = offset
 	for i := 0; i < 11 && offset < g; i++ {
@@ -165,13 +167,13 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL1[i]) != ch {
+		if int32(URL1[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
 	if offset == g {
-		return NsUrl1998, nil
+		return NsUrl2000, nil
 	}
 	offset = tmpOffset
 	for i := 18; i < 36 && offset < g; i++ {
@@ -179,13 +181,13 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL2[i]) != ch {
+		if int32(URL2[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
 	if offset == g {
-		return NsUrl2000, nil
+		return NsUrl1998, nil
 	}
 	return DefaultNsUrl, nil
 }
-- 
2.43.0


From 8bb897999a3b6247361aa8bc3fc9d6056e7e2253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 48/59] fix: prefixes that only start with xml or xmlns are not
 reserved

---
 vtdxml/parser/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index c01d7b6..b32cfa9 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -500,7 +500,7 @@ func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 4) || length == 8
+		valid = length == 4*p.increment
 	}
 	return valid
 }
@@ -541,7 +541,7 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 5) || length == 10
+		valid = length == 5*p.increment
 	}
 	return valid
 }
-- 
2.43.0


From c4df0c708d3e070431e12aee6e4c275dd3660335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 49/59] fix: records of long text start at the text's offset

---
 vtdxml/parser/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index b32cfa9..a9bb2fa 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -291,7 +291,8 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
-		var j, rOffset int
+		var j int
+		rOffset := offset
 		for j = length; j > maxTokenLength; j -= maxTokenLength {
 			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
 				return err
-- 
2.43.0


From fedfdc5de7bb1e64b52e082bf59ad72a529f5f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 50/59] fix: GetNav returns the navigation object of the parsed
 document

---
 vtdxml/parser/get_nav.go    | 17 ++++++++++++++---
 vtdxml/parser/parse.go      |  1 +
 vtdxml/parser/vtd_parser.go |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/vtdxml/parser/get_nav.go b/vtdxml/parser/get_nav.go
index e545f9a..ba22a54 100644
--- a/vtdxml/parser/get_nav.go
+++ b/vtdxml/parser/get_nav.go
@@ -1,9 +1,20 @@
 package parser
 
-import "github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+import (
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+)
 
 // GetNav function returns VTD navigation object after parsing
 func (p *VtdParser) GetNav() (*navigation.VtdNav, error) {
-	// TODO
-	return nil, nil
+	if !p.parsed {
+		return nil, erroring.NewInternalError("document has not been parsed", nil)
+	}
+	return navigation.NewVtdNav(
+		int32(p.rootIndex), int32(p.docOffset), int32(p.docLength), int32(p.vtdDepth),
+		p.encoding,
+		p.nsAware,
+		p.xmlDoc,
+		p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer,
+	)
 }
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 73372cc..35a6c8a 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -67,6 +67,7 @@ func (p *VtdParser) Parse() error {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
+			p.parsed = true
 			return nil
 		} else if err != nil {
 			return err
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index 88ed334..5c2bac5 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -47,7 +47,7 @@ type VtdParser struct {
 	currentElementRecord                                                int64
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
-	isXml, docTypeSeen                                                  bool
+	isXml, docTypeSeen, parsed                                          bool
 	bufferReuse                                                         bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
-- 
2.43.0


From 014e13091bf5b38027099893a8300dda7c5c2bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:15 +0000
Subject: [PATCH 51/59] fix: NewNavigationError returns a NavigationError

---
 vtdxml/erroring/erroring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/erroring/erroring.go b/vtdxml/erroring/erroring.go
index c6a1e3a..68178a7 100644
--- a/vtdxml/erroring/erroring.go
+++ b/vtdxml/erroring/erroring.go
@@ -124,8 +124,8 @@ type NavigationError struct {
 }
 
 // NewNavigationError constructs a new NavigationError, wrapping the provided error.
-func NewNavigationError(msg string, err error) *ParseError {
-	return &ParseError{
+func NewNavigationError(msg string, err error) *NavigationError {
+	return &NavigationError{
 		baseError: newBaseError(
 			fmt.Sprintf("a navigation error occurred: %s", msg),
 			err,
-- 
2.43.0


From 0fdb7c4089290edec70295a293ea9242c42be7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 52/59] fix: a short mismatching end tag is a mismatch on its
 own line, not an end of input

---
 vtdxml/parser/process_end_tag.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 38866ba..daa8993 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -10,16 +10,16 @@ func (p *VtdParser) processEndTag() (State, error) {
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
 
-	p.setOffset(p.lastOffset + sLength)
-	if p.offset >= p.endOffset {
-		return StateInvalid, erroring.NewEOFError(erroring.XmlIncomplete)
-	}
-
 	for i := 0; i < sLength; i++ {
+		if p.lastOffset+i >= p.endOffset {
+			return StateInvalid, erroring.NewEOFError(erroring.XmlIncomplete)
+		}
 		if p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {
-			return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtLine(), nil)
+			return StateInvalid, erroring.NewParseError("start/end tag mismatch",
+				p.fmtCustomLine(p.lastOffset), nil)
 		}
 	}
+	p.setOffset(p.lastOffset + sLength)
 	p.depth--
 	if err := p.nextCharAfterWs(); err != nil {
 		return StateInvalid, err
-- 
2.43.0


From dbe775b780a0f05ec5dd3cf8b478de15d50f8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 53/59] fix: the D of <!DOCTYPE has been read when the rest of
 the keyword is checked

Only '<!DDOCTYPE' was recognised, so every document with a DOCTYPE was refused.
---
 vtdxml/parser/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index a9bb2fa..282ab23 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -33,7 +33,7 @@ const (
 
 const (
 	cdata   = "CDATA["
-	docType = "DOCTYPE"
+	docType = "OCTYPE"
 
 	maxTokenLength  = (1 << 20) - 1
 	maxDepth        = 254
-- 
2.43.0


From a15699cbcf0af2b699696ee7156a8946391adfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 54/59] fix: compare whole namespace URIs with the reserved
 ones

The URI of the xml prefix was never recognised, because the comparison gave up
at the first difference from the xmlns URI; proper prefixes of either URI were
taken for it when written with references.
---
 vtdxml/parser/process_attr_val.go | 37 ++++++-------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index f1e9544..ca50ad0 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -146,47 +146,24 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 	//  create a struct that would bring meaningful explanation about the functionality
 	// lastOffset, length1
 	g := p.lastOffset + p.length1
-	offset, tmpOffset := p.lastOffset, 0
 	if p.length1 < 29 || (p.increment == 2 && p.length1 < 58) {
 		return DefaultNsUrl, nil
 	}
 
-	for i := 0; i < 18 && offset < g; i++ {
+	// resolve the name as far as it can be a reserved one
+	var url []rune
+	for offset := p.lastOffset; offset < g && len(url) <= len(URL2); {
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int32(URL2[i]) != int32(ch) {
-			return DefaultNsUrl, nil
-		}
-		offset += int(ch >> 32)
-	}
-	tmpOffset = offset
-	for i := 0; i < 11 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int32(URL1[i]) != int32(ch) {
-			return DefaultNsUrl, nil
-		}
+		url = append(url, int32(ch))
 		offset += int(ch >> 32)
 	}
-	if offset == g {
+	switch string(url) {
+	case URL2[:18] + URL1:
 		return NsUrl2000, nil
-	}
-	offset = tmpOffset
-	for i := 18; i < 36 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int32(URL2[i]) != int32(ch) {
-			return DefaultNsUrl, nil
-		}
-		offset += int(ch >> 32)
-	}
-	if offset == g {
+	case URL2:
 		return NsUrl1998, nil
 	}
 	return DefaultNsUrl, nil
-- 
2.43.0


From 86d5d9d4693b1d1a9272a68426f2d15a6914331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 55/59] fix: an XML declaration starts with '<?xml' in lower
 case

'<?XML version=...' was read as an XML declaration instead of being refused.
---
 vtdxml/parser/process_doc_start.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 03cfd03..e9ffff8 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -9,9 +9,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 	if p.currentChar == '<' {
 		p.lastOffset = p.offset
 		if p.skipChar('?') &&
-			(p.skipChar('x') || p.skipChar('X')) &&
-			(p.skipChar('m') || p.skipChar('M')) &&
-			(p.skipChar('l') || p.skipChar('L')) {
+			p.skipCharSeq("xml") {
 			if p.skipChar(' ') ||
 				p.skipChar('\t') ||
 				p.skipChar('\n') ||
-- 
2.43.0


From b1a175eafb80403bd318ada943f40d29105034c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:16 +0000
Subject: [PATCH 56/59] fix: report an undeclared attribute prefix on the line
 of the attribute

---
 vtdxml/parser/process_attr_val.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index ca50ad0..25f1da4 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -201,7 +201,7 @@ func (p *VtdParser) qualifyAttributes() error {
 			}
 		}
 		if i < 0 {
-			return erroring.NewParseError("prefixed attribute not qualified", p.fmtLine(), nil)
+			return erroring.NewParseError("prefixed attribute not qualified", p.fmtCustomLine(preOs), nil)
 		} else {
 			p.prefixUrlSlice = append(p.prefixUrlSlice[:j], i)
 		}
-- 
2.43.0


From 97fc907a1cf705746516669e4539ec5e6c6fa011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:00 +0000
Subject: [PATCH 57/59] fix: match the encoding name ASCII once instead of
 retrying it in upper case behind the part already skipped

---
 vtdxml/parser/process_dec_attr_name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index ee0292d..5ebdfe7 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -247,7 +247,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 }
 
 func (p *VtdParser) checkAsciiEncoding() error {
-	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
+	if !p.skipCharSeqIgnoreCase(ascii[1:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
 	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
-- 
2.43.0


From afb08449fc5c39ae7c13b88c5015738cf3dad79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:51 +0000
Subject: [PATCH 58/59] fix: report token offsets of 1 GB and above

Without namespace awareness documents of up to 2 GB are accepted, but the
mask cut the offset of a token down to 30 bits, so tokens behind the first
GB were read from the wrong place.
---
 vtdxml/common/common.go     | 1 +
 vtdxml/navigation/common.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/vtdxml/common/common.go b/vtdxml/common/common.go
index cb30420..046885c 100644
--- a/vtdxml/common/common.go
+++ b/vtdxml/common/common.go
@@ -22,6 +22,7 @@ const (
 const (
 	MaskTokenType       uint64 = 0xF000000000000000
 	MaskTokenOffset     uint64 = 0x000000003FFFFFFF
+	MaskTokenOffsetNoNs uint64 = 0x000000007FFFFFFF
 	MaskTokenQnLength   uint64 = 0x000007FF00000000
 	MaskTokenFullLength uint64 = 0x000FFFFF00000000
 	MaskTokenPreLength  uint64 = 0x000FF80000000000
diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index ca9a1ff..cbc8144 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -47,6 +47,10 @@ func (n *VtdNav) GetTokenOffset(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
+	if !n.nsAware {
+		// documents parsed without namespaces may have up to 2 GB
+		return int32(uint64(val) & common.MaskTokenOffsetNoNs), nil
+	}
 	return int32(uint64(val) & common.MaskTokenOffset), nil
 }
 
-- 
2.43.0


From 6a643095a66db2bd83334d453ad4867b8c7460c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:08 +0000
Subject: [PATCH 59/59] fix: measure the size limit by the end of the document

The limit was compared with the position behind the byte-order mark plus
the whole length, so a document with a mark was refused three bytes early.
---
 vtdxml/parser/common.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 282ab23..5978a4d 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -453,16 +453,16 @@ func (p *VtdParser) decideEncoding() error {
 
 	if p.encoding < common.FormatUtf16BE {
 		if p.nsAware {
-			if (p.offset + p.docLength) >= 1<<30 {
+			if p.endOffset >= 1<<30 {
 				return erroring.NewInternalError("file size too big >= 1GB", nil)
 			}
 		} else {
-			if (p.offset + p.docLength) >= 1<<31 {
+			if p.endOffset >= 1<<31 {
 				return erroring.NewInternalError("file size too big >= 2GB", nil)
 			}
 		}
 	} else {
-		if (p.offset + p.docLength) >= 1<<31 {
+		if p.endOffset >= 1<<31 {
 			return erroring.NewInternalError("file size too big >= 2GB", nil)
 		}
 	}
-- 
2.43.0

