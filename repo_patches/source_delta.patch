From d2f9e4f396b73f956140d94c03ed3d0d36cd7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:28 +0000
Subject: [PATCH 01/34] fix: pad a final partial ASCII85 group with the highest
 digit

---
 pdf/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index a67f300..d3d8bf9 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -106,10 +106,10 @@ func ASCII85Decode(data []byte) []byte {
 	for {
 		b, err := reader.ReadByte()
 		if err != nil || b == '~' {
-			// finish partial group by adding zeros
+			// finish partial group by padding with the highest digit
 			if n > 1 {
 				for m := n; m < 5; m++ {
-					v *= 85
+					v = v * 85 + 84
 				}
 
 				// write result in big endian order
-- 
2.43.0


From f2be5d07541a87f0c988d76d6c047e3d54b398f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:35 +0000
Subject: [PATCH 02/34] fix: do not dereference an unset verbosity flag

---
 pdf/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/logger.go b/pdf/logger.go
index 3349f53..ac20be5 100644
--- a/pdf/logger.go
+++ b/pdf/logger.go
@@ -8,7 +8,7 @@ import (
 var Verbose *bool
 
 func Debug(format string, a ...interface{}) {
-	if *Verbose {
+	if Verbose != nil && *Verbose {
 		if len(a) > 0 {
 			fmt.Fprintf(os.Stderr, format, a...)
 			fmt.Fprintln(os.Stderr, "")
-- 
2.43.0


From 94bbcc0784d5a0cda27ca1c778dce4d9c1e7f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:36 +0000
Subject: [PATCH 03/34] fix: read whole markers even when they straddle the
 read buffer

---
 pdf/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e65b326..51fc3d9 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -166,7 +166,8 @@ func (parser *Parser) getStartXrefOffset() (int64, bool) {
 	// read in buffer at offset
 	buffer := make([]byte, start_xref_scan_buffer_size)
 	parser.Seek(offset, io.SeekStart)
-	parser.Read(buffer)
+	bytes_read, _ := io.ReadFull(parser, buffer)
+	buffer = buffer[:bytes_read]
 
 	// check for start xref
 	matches := start_xref_regexp.FindAllSubmatch(buffer, -1)
@@ -626,7 +627,7 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 
 	// read start of dictionary markers
 	b := make([]byte, 2)
-	_, err := parser.Read(b)
+	_, err := io.ReadFull(parser, b)
 	if err != nil || string(b) != "<<" {
 		return dictionary
 	}
@@ -937,7 +938,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
-	bytes_read, _ := parser.Read(buff)
+	bytes_read, _ := io.ReadFull(parser, buff)
 	if bytes_read > 0 {
 		end_buff.Write(buff[:bytes_read])
 	}
-- 
2.43.0


From 73ce27aa203f3bf4e935d6a6bc8c53dd4cfd7c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:37 +0000
Subject: [PATCH 04/34] fix: do not step back when an integer is expected at
 the end of input

---
 pdf/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 51fc3d9..dc5c77b 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -721,7 +721,10 @@ func (parser *Parser) ReadInt64() (int64, bool) {
 
 	// ensure first byte is a digit
 	b, err := parser.ReadByte()
-	if err != nil || b < '0' || b > '9' {
+	if err != nil {
+		return value, false
+	}
+	if b < '0' || b > '9' {
 		parser.UnreadByte()
 		return value, false
 	}
-- 
2.43.0


From 15f1011324eff6c778bd10ff08b34fc331f20eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:38 +0000
Subject: [PATCH 05/34] fix: reject field widths that are negative or wider
 than 64 bits

---
 pdf/utility.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/utility.go b/pdf/utility.go
index a1fe09f..6db2dbe 100644
--- a/pdf/utility.go
+++ b/pdf/utility.go
@@ -12,8 +12,11 @@ func ReadInt(reader io.Reader, width int) (int, bool) {
 
 // ReadInt reads width bytes from reader and returns the int64 value
 func ReadInt64(reader io.Reader, width int) (int64, bool) {
+	if width < 0 || width > 8 {
+		return 0, false
+	}
 	data := make([]byte, width)
-	bytes_read, _ := reader.Read(data)
+	bytes_read, _ := io.ReadFull(reader, data)
 	if bytes_read != width {
 		return 0, false
 	}
-- 
2.43.0


From 0900b64549206f584d83dc4bbb370f88764f8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:39 +0000
Subject: [PATCH 06/34] fix: report a user key that is too short instead of
 slicing past it

---
 pdf/encryption.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 7aa55c4..46b3e72 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -274,6 +274,9 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		}
 
 		// compare to first 16 bytes of U entry
+		if len(sh.u) < 16 {
+			return EncryptionError
+		}
 		if string(u) != string(sh.u[:16]) {
 			return EncryptionPasswordError
 		}
-- 
2.43.0


From 74cbe426fa9852f861aea40edacce24d51c5a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:40 +0000
Subject: [PATCH 07/34] fix: keep crypt filter key lengths between 5 and 16
 bytes

---
 pdf/encryption.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 46b3e72..7558b78 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -301,6 +301,17 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 						length = sh.length
 					}
 
+					// length can be in bytes or in bits, AESV2 keys are always 128 bits
+					if length > 16 {
+						length = length / 8
+					}
+					if length < 5 {
+						length = 5
+					}
+					if length > 16 || method == "AESV2" {
+						length = 16
+					}
+
 					// create filter entry
 					if method == "None" {
 						sh.crypt_filters[k] = noFilter
-- 
2.43.0


From 4f4fe12da42852eeb88b254a0600fb0d612a9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 08/34] fix: only repair xref entries that do not point at
 their object

---
 pdf/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index dc5c77b..69eab3c 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -60,7 +60,7 @@ func (parser *Parser) Load(password string) error {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
 			parser.Seek(xref_entry.Offset, io.SeekStart)
-			if n, _, ok := parser.ReadObjectHeader(); ok || n != object_number {
+			if n, _, ok := parser.ReadObjectHeader(); !ok || n != object_number {
 				xref_entry.Offset = object.Offset
 			}
 		} else {
-- 
2.43.0


From df330998f992aea888e4388b1951ee19aa8689a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:42 +0000
Subject: [PATCH 09/34] fix: close the errors report

---
 pdf/output.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/output.go b/pdf/output.go
index d8b0066..fe1f173 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -71,7 +71,7 @@ func (output *Output) Close() {
 		output.Commands.Close()
 	}
 	if output.Errors != nil {
-		output.Files.Close()
+		output.Errors.Close()
 	}
 	if output.Files != nil {
 		output.Files.Close()
-- 
2.43.0


From b5f9f2125b4c2252c9c0ea542a8ed913eafcd7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:43 +0000
Subject: [PATCH 10/34] fix: give each code of a bfrange its own value and
 bound the range

---
 pdf/font.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index 6f911f1..6b81a55 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -7,6 +7,9 @@ import (
 
 var FontDefault *Font = &Font{map[int]string{}, 1}
 
+// no more than this many codes are mapped by one bfrange entry
+const max_bf_range_size = 65536
+
 type Font struct {
 	Cmap map[int]string
 	Width int
@@ -50,8 +53,10 @@ func NewFont(d Dictionary) *Font {
 					break
 				}
 
-				for j := start; j <= end; j++ {
-					font.Cmap[j] = string(value)
+				// last byte of value increases with each code in the range
+				prefix, last := value[:len(value) - 1], value[len(value) - 1]
+				for j := 0; j <= end - start && j < max_bf_range_size; j++ {
+					font.Cmap[start + j] = string(prefix) + string([]byte{last + byte(j)})
 				}
 			}
 		} else if command == KEYWORD_BEGIN_BF_CHAR {
-- 
2.43.0


From 309dfb3b9a389ebabeb77689574bd736e3315852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:44 +0000
Subject: [PATCH 11/34] fix: weigh fraction digits by powers of ten

---
 pdf/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 69eab3c..76f766e 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -884,14 +884,14 @@ func (parser *Parser) ReadNumber() Number {
 
 	// parse real part
 	if isReal {
-		for i := 1; true; i++ {
+		for scale := 10.0; true; scale *= 10 {
 			b, err = parser.ReadByte()
 			if err != nil {
 				break
 			}
 
 			if b >= '0' && b <= '9' {
-				number = Number(float64(number) + float64(b - '0') / (10 * float64(i)))
+				number = Number(float64(number) + float64(b - '0') / scale)
 			} else {
 				parser.UnreadByte()
 				break
-- 
2.43.0


From dbd63626bd2a7bd50c365546d11ea0dcf16a348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:10 +0000
Subject: [PATCH 12/34] fix: leave data unchanged when predictor row sizes are
 out of range

---
 pdf/filters.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/filters.go b/pdf/filters.go
index d3d8bf9..4c62555 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -276,6 +276,11 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		return data
 	}
 
+	// make sure the size of a row can be computed
+	if colors <= 0 || colors > 1 << 20 || columns <= 0 || columns > 1 << 31 - 1 {
+		return data
+	}
+
 	// determine row widths in bytes
 	row_width := (bits_per_component * colors * columns) / 8
 	if (bits_per_component * colors * columns) % 8 > 0 {
-- 
2.43.0


From 4a680a6b4940230b49e718767c3ef0267cd85771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:11 +0000
Subject: [PATCH 13/34] fix: PNG predictors refer to the previous pixel, not
 the previous byte

---
 pdf/filters.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index 4c62555..fd53e39 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -323,6 +323,9 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		d_row_width := row_width
 		row_width++
 
+		// left is the same byte of the previous pixel
+		pixel_width := (bits_per_component * colors + 7) / 8
+
 		// determine the method
 		method := predictor - 10
 
@@ -347,8 +350,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 1 {
 					// sub predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					decoded_data = append(decoded_data, byte((int(data[r + c]) + left) % 256))
 				} else if method == 2 {
@@ -361,8 +364,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 3 {
 					// avg predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
@@ -373,16 +376,16 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 4 {
 					//paeth predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
 						up = int(decoded_data[dr + dc - d_row_width])
 					}
 					up_left := 0
-					if dr + dc - d_row_width - 1 >= 0 && dc > 0 {
-						up_left = int(decoded_data[dr + dc - d_row_width - 1])
+					if dr + dc - d_row_width - pixel_width >= 0 && dc >= pixel_width {
+						up_left = int(decoded_data[dr + dc - d_row_width - pixel_width])
 					}
 					p := left + up - up_left
 					p_left := int(math.Abs(float64(p - left)))
-- 
2.43.0


From c2836a9550c317ff1b611326af59acf3b8bde938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:12 +0000
Subject: [PATCH 14/34] fix: take the PNG method from the tag of each row

---
 pdf/filters.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index fd53e39..15cebbb 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -326,15 +326,10 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		// left is the same byte of the previous pixel
 		pixel_width := (bits_per_component * colors + 7) / 8
 
-		// determine the method
-		method := predictor - 10
-
 		// for each row
 		for r := 0; r < len(data); r += row_width {
-			// optimum predictor allows the method to change each row based on algorithm tag
-			if predictor == 15 {
-				method = int(data[r])
-			}
+			// method of each row is given by its algorithm tag whatever the predictor
+			method := int(data[r])
 
 			// calculate start of row in decoded buffer
 			dr := (r / row_width) * (row_width - 1)
-- 
2.43.0


From 9d19a5102c4bd8498978c8ba4bdd9e245faf6a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:13 +0000
Subject: [PATCH 15/34] fix: log streams that end before their data

---
 pdf/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 76f766e..142eb72 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -916,6 +916,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	for {
 		b, err := parser.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			return stream_data.Bytes()
 		}
 
@@ -928,6 +929,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		if b == '\r' {
 			b, err := parser.ReadByte()
 			if err != nil {
+				parser.log_error(UnclosedStream)
 				return stream_data.Bytes()
 			}
 			// if not new line then put it back cause it is part of the stream data
@@ -966,6 +968,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		// add first byte of end_buff to stream_data
 		b, err := end_buff.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			break
 		}
 		stream_data.WriteByte(b)
-- 
2.43.0


From 0d3e1a88c688ce97e996d8629c4122b1fc2120c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:14 +0000
Subject: [PATCH 16/34] fix: handle xref streams with empty fields

---
 pdf/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 142eb72..446000d 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -327,6 +327,11 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 		return
 	}
 
+	// entries that take no space cannot be read
+	if type_width + offset_width + generation_width <= 0 {
+		return
+	}
+
 	// parse xref subsections
 	data_reader := bytes.NewReader(object.Stream)
 	for i := 0; i < len(index) - 1; i += 2 {
@@ -346,6 +351,10 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 			if !ok {
 				return
 			}
+			if type_width == 0 {
+				// type field defaults to in use
+				xref_type = XrefTypeIndirectObject
+			}
 			offset, ok := ReadInt64(data_reader, offset_width)
 			if !ok {
 				return
-- 
2.43.0


From 28ad5e9713f05fe42328181a7dec9a8fe897925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:15 +0000
Subject: [PATCH 17/34] fix: extract objects whose value is an array

---
 pdf/object.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index bda1c2d..72645c3 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -31,10 +31,7 @@ func (object *IndirectObject) String() string {
 }
 
 func (object *IndirectObject) Extract(output *Output) {
-	// get object dictionary
-	if d, ok := object.Value.(Dictionary); ok {
-		extract(d, output)
-	}
+	extract(object.Value, output)
 }
 
 func extract(o Object, output *Output) {
-- 
2.43.0


From 56d3de2d8021b717d4b0d06d0289ca840cafda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:15 +0000
Subject: [PATCH 18/34] fix: show every string of a positioned text array

---
 pdf/page.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index f1abfaa..b94cd2d 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -72,7 +72,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 					// decode positioned text with current font
 					var sb strings.Builder
 					a, _ := operands.GetArray(len(operands) - 1)
-					for i := 0; i < len(a); i += 2 {
+					for i := range a {
 						s, _ := a.GetString(i)
 						sb.WriteString(string(s))
 					}
-- 
2.43.0


From 0164480f984a748caf1666e788cde71542c0c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:16 +0000
Subject: [PATCH 19/34] fix: recognize the file system name of url file
 specifications

---
 pdf/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/file.go b/pdf/file.go
index 17ef598..f958949 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -12,7 +12,10 @@ func (file File) Extract(output *Output, isCommand bool) {
 	d := Dictionary(file)
 
 	// file specification can be a url or file
-	fs, _ := d.GetString("FS")
+	fs, ok := d.GetName("FS")
+	if !ok {
+		fs, _ = d.GetString("FS")
+	}
 	if fs == "URL" {
 		if f, ok := d.GetString("F"); ok {
 			fmt.Fprintln(output.URLs, f)
-- 
2.43.0


From 08931f53d2b4228f5860a459807456d30e8d6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:17 +0000
Subject: [PATCH 20/34] fix: log launch targets given as plain strings

---
 pdf/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/action.go b/pdf/action.go
index 0bcfdfb..8e5e9c6 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -16,6 +16,9 @@ func (a Action) Extract(output *Output) {
 
 	// filespecification can be in either F or Win[F]
 	if f, ok := d.GetString("F"); ok {
+		if isCommand {
+			fmt.Fprintf(output.Commands, "%s\n", f)
+		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	} else if f, ok := d.GetDictionary("F"); ok {
 		File(f).Extract(output, isCommand)
-- 
2.43.0


From e1f768ca7ead4ee7e46a306e7c144fb4b81439a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:41 +0000
Subject: [PATCH 21/34] fix: stop when a stream dictionary refers back to its
 own object

---
 pdf/parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 446000d..d3dc626 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -24,10 +24,11 @@ type Parser struct {
 	trailer Dictionary
 	security_handler *SecurityHandler
 	output *Output
+	reading map[int]bool
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
-	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
+	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, map[int]bool{}}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -378,6 +379,17 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
+	// an object can not be needed to read itself
+	if parser.reading[number] {
+		return NewIndirectObject(number)
+	}
+	parser.reading[number] = true
+	object := parser.readIndirectObject(number)
+	delete(parser.reading, number)
+	return object
+}
+
+func (parser *Parser) readIndirectObject(number int) *IndirectObject {
 	object := NewIndirectObject(number)
 
 	if xref_entry, ok := parser.Xref[number]; ok {
-- 
2.43.0


From 416a7a66cb4d3c683db33f4104edde87b15cbfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 22/34] fix: visit a shared name tree kids array only once

---
 pdf/dictionary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 6e0e78c..2abb42f 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -87,6 +87,13 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 		// append names to name tree map
 		nameTreeMap = append(nameTreeMap, names...)
 	}
+	// prevent infinite loop through a shared kids array
+	if r, ok := d.GetReference("Kids"); ok {
+		if _, resolved := resolved_kids[r.Number]; resolved {
+			return nameTreeMap
+		}
+		resolved_kids[r.Number] = nil
+	}
 	if kids, ok := d.GetArray("Kids"); ok {
 		for i := range kids {
 			// prevent infinite resolve reference loop
-- 
2.43.0


From 467851c22343098de11d3339f10bc0a5621bcf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 23/34] fix: do not take references to arrays and strings for
 streams

---
 pdf/array.go      | 3 ++-
 pdf/dictionary.go | 3 ++-
 pdf/parser.go     | 3 +++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdf/array.go b/pdf/array.go
index 966d3b0..4f42588 100644
--- a/pdf/array.go
+++ b/pdf/array.go
@@ -97,7 +97,8 @@ func (a Array) GetObject(index int) (Object, bool) {
 func (a Array) GetStream(index int) ([]byte, bool) {
 	if index >= 0 && index < len(a) {
 		if reference, ok := a[index].(*Reference); ok {
-			return reference.ResolveStream(), true
+			stream := reference.ResolveStream()
+			return stream, stream != nil
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 2abb42f..931a2c5 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -173,7 +173,8 @@ func (d Dictionary) GetReference(key string) (*Reference, bool) {
 func (d Dictionary) GetStream(key string) ([]byte, bool) {
 	if object, ok := d[key]; ok {
 		if reference, ok := object.(*Reference); ok {
-			return reference.ResolveStream(), true
+			stream := reference.ResolveStream()
+			return stream, stream != nil
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/parser.go b/pdf/parser.go
index d3dc626..6fb5b74 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -474,6 +474,9 @@ func (parser *Parser) readIndirectObject(number int) *IndirectObject {
 
 				// read the stream
 				object.Stream = parser.ReadStream(stream_decryptor, filter_list, decode_parms_list)
+				if object.Stream == nil {
+					object.Stream = []byte{}
+				}
 			}
 		}
 	}
-- 
2.43.0


From 4a9c3070f9d74adecc4bb12337483f34e669739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:08 +0000
Subject: [PATCH 24/34] fix: do not visit the root of a tree again as its own
 descendant

---
 pdf/dictionary.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 931a2c5..c45fe90 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -76,7 +76,12 @@ func (d Dictionary) GetName(key string) (string, bool) {
 
 func (d Dictionary) GetNameTreeMap(key string) Array {
 	if root, ok := d.GetDictionary(key); ok {
-		return root.getNameTreeMap(map[int]interface{}{})
+		// the root is not its own descendant
+		resolved_kids := map[int]interface{}{}
+		if r, ok := d.GetReference(key); ok {
+			resolved_kids[r.Number] = nil
+		}
+		return root.getNameTreeMap(resolved_kids)
 	}
 	return Array{}
 }
@@ -133,7 +138,12 @@ func (d Dictionary) GetObject(key string) (Object, bool) {
 
 func (d Dictionary) GetPageTree(key string) ([]Dictionary, bool) {
 	if pageTree, ok := d.GetDictionary(key); ok {
-		return pageTree.ResolveKids(map[int]interface{}{}), true
+		// the root is not its own descendant
+		resolved_kids := map[int]interface{}{}
+		if r, ok := d.GetReference(key); ok {
+			resolved_kids[r.Number] = nil
+		}
+		return pageTree.ResolveKids(resolved_kids), true
 	}
 	return []Dictionary{}, false
 }
-- 
2.43.0


From a50361c2864f107901b7be9f736277cf1a33e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:09 +0000
Subject: [PATCH 25/34] fix: remove the initialization vector and padding of
 AES data

---
 pdf/encryption.go | 38 +++++++++++++++++++++++---------------
 pdf/parser.go     | 17 ++++++-----------
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 7558b78..2c2e60d 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -16,7 +16,7 @@ type CryptFilter interface {
 }
 
 type Decryptor interface {
-	Decrypt([]byte)
+	Decrypt([]byte) []byte
 }
 
 // No encryption
@@ -28,7 +28,9 @@ func (c *CryptFilterNone) NewDecryptor(n int, g int) Decryptor {
 
 type DecryptorNone struct {}
 
-func (d *DecryptorNone) Decrypt(data []byte) {}
+func (d *DecryptorNone) Decrypt(data []byte) []byte {
+	return data
+}
 
 // AES
 type CryptFilterAES struct {
@@ -73,20 +75,16 @@ type DecryptorAES struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorAES) Decrypt(data []byte) {
-	// catch crypt block panic
-	defer func() {
-		if err := recover(); err != nil {
-			Debug("recovered from panic: %s", err)
-		}
-	}()
-
+func (d *DecryptorAES) Decrypt(data []byte) []byte {
 	// create new cipher
-	block, _ := aes.NewCipher(d.encryption_key)
+	block, err := aes.NewCipher(d.encryption_key)
+	if err != nil {
+		return data
+	}
 
-	// no data to decrypt, first block is initialization vector
-	if len(data) <= aes.BlockSize {
-		return
+	// first block is initialization vector, leave data that is not a whole number of blocks alone
+	if len(data) < aes.BlockSize || len(data) % aes.BlockSize != 0 {
+		return data
 	}
 
 	// set iv to first block and decrypt remaining blocks with cbc decryptor
@@ -94,6 +92,15 @@ func (d *DecryptorAES) Decrypt(data []byte) {
 	data = data[aes.BlockSize:]
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(data, data)
+
+	// remove padding
+	if len(data) > 0 {
+		padding := int(data[len(data) - 1])
+		if padding >= 1 && padding <= aes.BlockSize {
+			data = data[:len(data) - padding]
+		}
+	}
+	return data
 }
 
 // RC4
@@ -136,9 +143,10 @@ type DecryptorRC4 struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorRC4) Decrypt(data []byte) {
+func (d *DecryptorRC4) Decrypt(data []byte) []byte {
 	cipher, _ := rc4.NewCipher(d.encryption_key)
 	cipher.XORKeyStream(data, data)
+	return data
 }
 
 type SecurityHandler struct {
diff --git a/pdf/parser.go b/pdf/parser.go
index 6fb5b74..4d38002 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -716,8 +716,7 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 					s.WriteByte(byte(val))
 				}
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
-				return String(s_data)
+				return String(decryptor.Decrypt(s_data))
 			}
 			if !IsHex(b) {
 				parser.log_error(InvalidHexStringChar)
@@ -1009,7 +1008,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 
 	// decrypt stream
 	stream_data_bytes := stream_data.Bytes()
-	decryptor.Decrypt(stream_data_bytes)
+	stream_data_bytes = decryptor.Decrypt(stream_data_bytes)
 
 	// decode stream
 	for i := 0; i < len(filter_list); i++ {
@@ -1045,8 +1044,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 		if err != nil {
 			parser.log_error(UnclosedString)
 			s_data := []byte(s.String())
-			decryptor.Decrypt(s_data)
-			return String(s_data)
+			return String(decryptor.Decrypt(s_data))
 		}
 
 		// if this is the start of an escape sequence
@@ -1057,8 +1055,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				parser.log_error(UnclosedStringEscape)
 				s.WriteByte('\\')
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
-				return String(s_data)
+				return String(decryptor.Decrypt(s_data))
 			}
 
 			// ignore escaped line breaks \n or \r or \r\n
@@ -1071,8 +1068,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				if err != nil {
 					parser.log_error(UnclosedStringEscape)
 					s_data := []byte(s.String())
-					decryptor.Decrypt(s_data)
-					return String(s_data)
+					return String(decryptor.Decrypt(s_data))
 				}
 				// if byte is not a new line then unread it
 				if b != '\n' {
@@ -1158,8 +1154,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 
 	// return string
 	s_data := []byte(s.String())
-	decryptor.Decrypt(s_data)
-	return String(s_data)
+	return String(decryptor.Decrypt(s_data))
 }
 
 // consumeWhitespace reads until end of whitespace/comments
-- 
2.43.0


From d8adc2d9fb4ae185f59a485059a40cd8705ffedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:48 +0000
Subject: [PATCH 26/34] fix: do not take startxref for an xref table

---
 pdf/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 4d38002..57f4300 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -13,7 +13,7 @@ import (
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
-var xref_regexp = regexp.MustCompile(`xref`)
+var xref_regexp = regexp.MustCompile(`(start)?xref`)
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
@@ -106,8 +106,10 @@ func (parser *Parser) findXrefOffsets() []int64 {
 			break
 		}
 
-		// add location to offsets
-		offsets = append(offsets, offset + int64(index[0]))
+		// add location to offsets, startxref is not an xref table marker
+		if index[1] - index[0] == len(KEYWORD_XREF) {
+			offsets = append(offsets, offset + int64(index[0]))
+		}
 
 		// seek to end of xref marker
 		offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
-- 
2.43.0


From 4d3711d52b57d22f57bd42aae8a89da80694cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:31 +0000
Subject: [PATCH 27/34] fix: load only xref streams as xref streams

---
 pdf/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 57f4300..7372b9c 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -201,6 +201,17 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 			// if xref is a stream
 			parser.Seek(offset, io.SeekStart)
 			if n, g, ok := parser.ReadObjectHeader(); ok {
+				// only xref streams contain xref entries
+				header_end := parser.CurrentOffset()
+				d := parser.ReadDictionary(noDecryptor)
+				if t, ok := d.GetName("Type"); ok && t != "XRef" {
+					return
+				}
+				if _, ok := d.GetArray("W"); !ok {
+					return
+				}
+				parser.Seek(header_end, io.SeekStart)
+
 				// prevent decrypting xref streams
 				parser.Xref[n] = NewXrefEntry(offset, g, XrefTypeIndirectObject)
 				parser.Xref[n].IsEncrypted = false
-- 
2.43.0


From 4c50ac7c5f2a4631dafba4363e0fac13c29823d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 28/34] fix: follow references to crypt filter dictionaries

---
 pdf/encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 2c2e60d..38b04ca 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -300,8 +300,8 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	// load additional crypt filters
 	if sh.r == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
-		for k, entry := range cf {
-			if cfd, isDictionary := entry.(Dictionary); isDictionary {
+		for k := range cf {
+			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
 					length, ok := cfd.GetInt("Length")
-- 
2.43.0


From 314e39a1d533f1e8ee52bbea7e0537c6351c68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 29/34] fix: read the embedded file filter from EFF

---
 pdf/encryption.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 38b04ca..e7e2667 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -343,7 +343,7 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 				sh.string_filter = filter
 			}
 		}
-		if name, ok := encrypt.GetName("EEF"); ok {
+		if name, ok := encrypt.GetName("EFF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.file_filter = filter
 			}
-- 
2.43.0


From 86eab4ac9dde9ff0b332b2450c218834cd7eff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:57 +0000
Subject: [PATCH 30/34] fix: use the stream filter for embedded files without
 EFF

---
 pdf/encryption.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index e7e2667..23fcdbc 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -336,6 +336,7 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		if name, ok := encrypt.GetName("StmF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.stream_filter = filter
+				sh.file_filter = filter
 			}
 		}
 		if name, ok := encrypt.GetName("StrF"); ok {
-- 
2.43.0


From eb8f2dbe895d865485535dbe688484feb2a22a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:58 +0000
Subject: [PATCH 31/34] fix: leave data unencrypted when V 4 names no crypt
 filter

---
 pdf/encryption.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 23fcdbc..8457e35 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -332,6 +332,13 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 			}
 		}
 
+		// strings and streams are not encrypted unless a filter is named
+		if sh.v == 4 {
+			sh.stream_filter = noFilter
+			sh.string_filter = noFilter
+			sh.file_filter = noFilter
+		}
+
 		// assign default filter overrides
 		if name, ok := encrypt.GetName("StmF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
-- 
2.43.0


From 7a408789758d4abf56170972b8bd88080919f8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 32/34] fix: read nothing at offsets before the start of the
 file

A seek to a negative offset failed and left the reader where it happened to
be, so an object whose cross-reference entry has such an offset resolved to
whatever came next.
---
 pdf/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 7372b9c..38dddb0 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -498,6 +498,10 @@ func (parser *Parser) readIndirectObject(number int) *IndirectObject {
 }
 
 func (parser *Parser) Seek(offset int64, whence int) (int64, error) {
+	// nothing can be read from before the start of the file
+	if whence == io.SeekStart && offset < 0 {
+		offset, whence = 0, io.SeekEnd
+	}
 	parser.Reset(parser.seeker)
 	return parser.seeker.Seek(offset, whence)
 }
-- 
2.43.0


From e590f4cbd2ee871bcc5280e29a3693613cb4462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 33/34] fix: repair entries only from headers of objects

---
 pdf/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 38dddb0..0ed1f1a 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -137,7 +137,12 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		parser.Seek(offset + int64(index[0]), io.SeekStart)
 
 		// get object number, generation
-		n, g, _ := parser.ReadObjectHeader()
+		n, g, ok := parser.ReadObjectHeader()
+		if !ok {
+			// not an object, seek to end of object start marker
+			offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
+			continue
+		}
 
 		// add xref entry
 		objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
-- 
2.43.0


From 7342eee6db3063e4c9af5a51ce77428f59084d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 34/34] fix: never decrypt cross-reference streams that a later
 section lists

---
 pdf/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 0ed1f1a..82806aa 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -64,6 +64,11 @@ func (parser *Parser) Load(password string) error {
 			if n, _, ok := parser.ReadObjectHeader(); !ok || n != object_number {
 				xref_entry.Offset = object.Offset
 			}
+
+			// xref streams are never encrypted
+			if object.IsXrefStream && xref_entry.Offset == object.Offset {
+				xref_entry.IsEncrypted = false
+			}
 		} else {
 			// add missing object to xref
 			parser.Xref[object_number] = object
-- 
2.43.0

