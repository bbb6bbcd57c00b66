From 0907b181b17150daaec84b133fe732a9cab31bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 01/25] fix: raw decode loses an escaped CR at the end of the
 data

When the vector kernel leaves an escape pending and all that remains is "\r" or
"\r\n", the scalar tail wrote the byte but reported zero bytes written.
---
 src/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 6dda4ef..2b0cbe7 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -29,7 +29,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				i++;
 				if(c == '\r') {
 					*state = YDEC_STATE_CR;
-					if(i >= 0) return 0;
+					if(i >= 0) return p - dest;
 				} else {
 					*state = YDEC_STATE_NONE;
 					break;
@@ -39,7 +39,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				if(es[i] != '\n') break;
 				i++;
 				*state = YDEC_STATE_CRLF;
-				if(i >= 0) return 0;
+				if(i >= 0) return p - dest;
 				// Else fall-thru
 			case YDEC_STATE_CRLF:
 				// skip past first dot
-- 
2.43.0


From 4db60beae861c8d1fc78738c71b5e9b056770f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 02/25] fix: post() always threw, as it called a function that
 doesn't exist

---
 index.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 9be2d49..47ec2ef 100644
--- a/index.js
+++ b/index.js
@@ -198,13 +198,13 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
-		var e = encodeCrc(data, line_size);
+		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+		var crc = y.crc32(data);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
-			e.output,
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + e.crc32.toString('hex'))
+			y.encode(data, line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + crc.toString('hex'))
 		]);
 	},
 	multi_post: function(filename, size, parts, line_size) {
-- 
2.43.0


From d53e5eb406d8928a5c9da1ef6b1c628717d8443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 03/25] fix: multi_post ignored the encoding setting

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 47ec2ef..7a55635 100644
--- a/index.js
+++ b/index.js
@@ -364,7 +364,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From 7f7871d6a81a148d29f515a788e6782f10411b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 04/25] fix: strip CR, LF and NUL characters from filenames

The expression only matched the three characters in sequence, so a newline in the
filename could end the =ybegin line early.
---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 7a55635..c51399b 100644
--- a/index.js
+++ b/index.js
@@ -6,7 +6,7 @@ var toBuffer = Buffer.alloc ? Buffer.from : Buffer;
 var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray : Buffer.prototype.slice;
 
 var nl = toBuffer([13, 10]);
-var RE_BADCHAR = /\r\n\0/g;
+var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
-- 
2.43.0


From 919f8427c65a6fc1fe0c53b3338a2eeb0daa97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 05/25] fix: decodeChunk threw a ReferenceError on states not
 in its table

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index c51399b..60d2831 100644
--- a/index.js
+++ b/index.js
@@ -151,7 +151,7 @@ module.exports = {
 		};
 		var state = decodePrev.indexOf(prev);
 		if(state < 0) {
-			for(var l=-3; l<0; i++) {
+			for(var l=-3; l<0; l++) {
 				state = decodePrev.indexOf(prev.slice(l));
 				if(state >= 0) break;
 			}
-- 
2.43.0


From df0d096cb5842ecf5eb8529c9510a320a5e7ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 06/25] fix: decodeChunk ignored the output buffer if arguments
 were in the documented order

---
 index.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 60d2831..ef96429 100644
--- a/index.js
+++ b/index.js
@@ -131,8 +131,12 @@ module.exports = {
 	decodeTo: y.decodeTo,
 	
 	decodeChunk: function(data, output, prev) {
-		// both output and prev are optional
-		if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
+		// both output and prev are optional, and can be supplied in either order
+		if(!Buffer.isBuffer(output) && Buffer.isBuffer(prev)) {
+			var _prev = output;
+			output = prev;
+			prev = _prev;
+		} else if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
 			prev = output;
 			output = null;
 		}
-- 
2.43.0


From d729454e4ef5d84a315a8ab1bd56e4ac860fe161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 07/25] fix: decodeChunk result for empty data

'ended' is documented as a boolean and 'output' as a reference to the supplied buffer.
---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index ef96429..84a33d1 100644
--- a/index.js
+++ b/index.js
@@ -149,8 +149,8 @@ module.exports = {
 		if(data.length == 0) return {
 			read: 0,
 			written: 0,
-			output: toBuffer([]),
-			ended: 0,
+			output: output || toBuffer([]),
+			ended: false,
 			state: prev
 		};
 		var state = decodePrev.indexOf(prev);
-- 
2.43.0


From 8600f30bef29b1df19f06c07f6131a245f599aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 08/25] fix: minSize exceeded the actual size if length is a
 multiple of the line size

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 84a33d1..c2819d0 100644
--- a/index.js
+++ b/index.js
@@ -175,7 +175,7 @@ module.exports = {
 	minSize: function(length, line_size) {
 		if(!length) return 0;
 		return length // no characters escaped
-			+ 2 * Math.floor(length / (line_size||128)); // newlines
+			+ 2 * Math.floor((length-1) / (line_size||128)); // newlines (there's none after the last line)
 	},
 	maxSize: function(length, line_size, esc_ratio) {
 		if(!length) return 0;
-- 
2.43.0


From 25a291aef61d9b7d1362ab30d323afbec500be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 09/25] fix: crc32_zeroes and crc32_shift truncated their count
 to 32 bits

---
 src/yencode.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c971dbf..3e36c1c 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -400,9 +400,9 @@ FUNC(CRC32Zeroes) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int len = ARG_TO_INT(args[0]);
+	int64_t len = ARG_TO_INT(args[0]);
 	if(len < 0)
-		crc1 = crc32_unzero(crc1, -len);
+		crc1 = crc32_unzero(crc1, 0-(uint64_t)len);
 	else
 		crc1 = crc32_zeros(crc1, len);
 	RETURN_VAL(pack_crc32(ISOLATE crc1));
@@ -436,9 +436,9 @@ FUNC(CRC32Shift) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int n = ARG_TO_INT(args[0]);
+	int64_t n = ARG_TO_INT(args[0]);
 	if(n < 0)
-		crc1 = crc32_shift(crc1, ~crc32_powmod(-n));
+		crc1 = crc32_shift(crc1, ~crc32_powmod(0-(uint64_t)n));
 	else
 		crc1 = crc32_shift(crc1, crc32_powmod(n));
 	RETURN_VAL(pack_crc32(ISOLATE crc1));
-- 
2.43.0


From c6b46720d591c6013fe3f4d8eac908f30672f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 10/25] fix: decodeTo didn't throw if the output buffer is too
 small

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 3e36c1c..34821fe 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -266,7 +266,7 @@ FUNC(DecodeTo) {
 	
 	// check that destination buffer has enough space
 	if(node::Buffer::Length(args[1]) < arg_len)
-		RETURN_VAL( Integer::New(ISOLATE 0) );
+		RETURN_ERROR("Destination buffer does not have enough space");
 	
 	bool isRaw = false;
 	if (args.Length() > 2)
-- 
2.43.0


From b0086e2c28adea31df41e86852326419e4fff9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 11/25] fix: lengths of 2 GiB and above were returned truncated
 to 32 bits

---
 src/yencode.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 34821fe..af625e1 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -166,7 +166,7 @@ FUNC(EncodeTo) {
 		RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, true);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 FUNC(EncodeIncr) {
@@ -223,7 +223,7 @@ FUNC(EncodeIncr) {
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		result = (unsigned char*)realloc(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
@@ -273,7 +273,7 @@ FUNC(DecodeTo) {
 		isRaw = ARG_TO_BOOL(args[2]);
 	
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, NULL);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 
@@ -320,8 +320,8 @@ FUNC(DecodeIncr) {
 #endif
 	
 	Local<Object> ret = NEW_OBJECT;
-	SET_OBJ(ret, "read", Integer::New(ISOLATE sp - src));
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
-- 
2.43.0


From 357d8736fd986399c24fb6a062189015fae8a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 12/25] fix: encodeIncr checked the output size against the
 wrong line size

---
 src/yencode.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index af625e1..9f8ea91 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -184,10 +184,6 @@ FUNC(EncodeIncr) {
 		if(node::Buffer::HasInstance(args[1])) {
 			// grab destination
 			allocResult = false;
-			// check that destination buffer has enough space
-			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
-			if(node::Buffer::Length(args[1]) < dest_len)
-				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 			result = (unsigned char*)node::Buffer::Data(args[1]);
 			argp++;
 		}
@@ -204,6 +200,12 @@ FUNC(EncodeIncr) {
 				if (col == line_size) col = 0; // allow this case
 			}
 		}
+		if(!allocResult) {
+			// check that destination buffer has enough space
+			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
+			if(node::Buffer::Length(args[1]) < dest_len)
+				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
+		}
 	}
 	
 	Local<Object> ret = NEW_OBJECT;
-- 
2.43.0


From 0bc80be2c0f58fc16e20170801eea75a7f134d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 13/25] fix: from_post reported properties named like
 Object.prototype's members as duplicates

---
 index.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index c2819d0..39a314d 100644
--- a/index.js
+++ b/index.js
@@ -8,6 +8,7 @@ var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray :
 var nl = toBuffer([13, 10]);
 var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
+var hasOwn = Object.prototype.hasOwnProperty;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
 
@@ -100,7 +101,7 @@ var decoderParseLines = function(lines, ydata) {
 				val = (p<0 ? line.substring(valPos) : line.substring(valPos, p));
 				line = line.substring(valPos + val.length +1);
 			}
-			if(prop in yprops) {
+			if(hasOwn.call(yprops, prop)) {
 				warnings.push(DecoderWarning('duplicate_property', 'Duplicate property encountered: `' + prop + '`'));
 			}
 			yprops[prop] = val;
@@ -110,7 +111,7 @@ var decoderParseLines = function(lines, ydata) {
 			warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional end-of-line data ignored: "' + line + '"'));
 		}
 		
-		if(tag in ydata) {
+		if(hasOwn.call(ydata, tag)) {
 			warnings.push(DecoderWarning('duplicate_line', 'Duplicate line encountered: `' + tag + '`'));
 		}
 		ydata[tag] = yprops;
-- 
2.43.0


From 8cf7f7013efce311f25abf7adb536a06c52a6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 14/25] fix: from_post didn't find =yend in a post with no data
 if its line isn't terminated

---
 index.js | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 39a314d..82e6144 100644
--- a/index.js
+++ b/index.js
@@ -254,11 +254,21 @@ module.exports = {
 			}
 			p = bufferFind(data, '\r\n', sp);
 		}
-		if(!ret.dataStart && !ret.yencEnd) // reached end of data but '=yend' not found
-			return DecoderError('no_end_found', 'yEnd end marker not found');
+		var unterminatedEnd = false;
+		if(!ret.dataStart && !ret.yencEnd) { // reached end of data
+			// the last line isn't terminated, but could be '=yend'
+			var lastLine = bufferSlice.call(data, sp).toString(this.encoding).trim();
+			if(lastLine.substring(0, 6) != '=yend ')
+				return DecoderError('no_end_found', 'yEnd end marker not found');
+			lines.push(lastLine);
+			ret.yencEnd = data.length;
+			unterminatedEnd = true;
+		}
 		
 		var ydata = {};
 		var warnings = decoderParseLines(lines, ydata);
+		if(unterminatedEnd)
+			warnings.push(DecoderWarning('missing_yend_newline', 'No line terminator found for =yend line'));
 		
 		if(!ret.yencEnd) {
 			var yencEnd = bufferFindRev(bufferSlice.call(data, ret.dataStart), '\r\n=yend ');
-- 
2.43.0


From 61aa49ccfe2430cbe76e32791304d35aec7e0673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 15/25] fix: decoding to nothing returned a Buffer with a
 detached ArrayBuffer

---
 src/yencode.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 9f8ea91..6d10716 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -251,6 +251,10 @@ FUNC(Decode) {
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
+	if(len == 0) { // a Buffer around a NULL pointer would have its ArrayBuffer detached
+		free(result);
+		RETURN_VAL( NEW_BUFFER(0) );
+	}
 	result = (unsigned char*)realloc(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
@@ -315,7 +319,13 @@ FUNC(DecodeIncr) {
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult) result = (unsigned char*)realloc(result, len);
+	if(allocResult) {
+		if(len == 0) { // a Buffer around a NULL pointer would have its ArrayBuffer detached
+			free(result);
+			result = NULL;
+		} else
+			result = (unsigned char*)realloc(result, len);
+	}
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
@@ -324,7 +334,9 @@ FUNC(DecodeIncr) {
 	Local<Object> ret = NEW_OBJECT;
 	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
 	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
-	if(allocResult) {
+	if(allocResult && len == 0) {
+		SET_OBJ(ret, "output", NEW_BUFFER(0));
+	} else if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
-- 
2.43.0


From 3b8bb8deebb6085c2299724f0c818823063eee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 16/25] fix: big-endian: encoding wrote 0x0B instead of LF at
 the end of lines followed by a character that wraps around

The first character of a line is passed to UINT32_PACK unmasked; on big-endian the carry ended up in the line feed.
---
 src/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index 37dcaef..e38b4d6 100644
--- a/src/common.h
+++ b/src/common.h
@@ -107,7 +107,7 @@
 // combine two 8-bit ints into a 16-bit one
 #if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
 #define UINT16_PACK(a, b) (((a) << 8) | (b))
-#define UINT32_PACK(a, b, c, d) (((a) << 24) | ((b) << 16) | ((c) << 8) | (d))
+#define UINT32_PACK(a, b, c, d) (((a) << 24) | ((b) << 16) | (((c) & 0xff) << 8) | (d)) // c may exceed 8 bits (wraps around)
 #define UINT32_16_PACK(a, b) (((a) << 16) | (b))
 #else
 #define UINT16_PACK(a, b) ((a) | ((b) << 8))
-- 
2.43.0


From 0a945c08b1a44dfd4ea78cafe8721ab3d481a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 17/25] fix: RVV decoder: wrong output for runs of = if vectors
 are 512 bits or more

Only the first 64 bits of the mask were added, carries weren't moved up (masks of less than 8 bits were shifted with a vector length of 0), and
elements which weren't incremented could generate a carry.
---
 src/decoder_rvv.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decoder_rvv.cc b/src/decoder_rvv.cc
index d2315ff..ce973c3 100644
--- a/src/decoder_rvv.cc
+++ b/src/decoder_rvv.cc
@@ -31,10 +31,11 @@ static inline vbool4_t mask_lshift(vbool4_t m, unsigned shiftIn, size_t vl) {
 }
 template<int shift>
 static inline vbool64_t mask_lshift(vbool64_t m, unsigned shiftIn, size_t vl) {
+	size_t vl8 = (vl+7)/8; // unlike b4 masks, these can be smaller than a byte
 	vuint8m1_t mv = RV_VEC_CAST(64, 8, m);
-	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, vl/8);
-	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, vl/8);
-	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, vl/8);
+	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, vl8);
+	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, vl8);
+	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, vl8);
 	
 	return RV(vmor_mm_b64)(
 		RV_MASK_CAST(64, 8, mvl), RV_MASK_CAST(64, 8, mvr), vl
@@ -226,9 +227,10 @@ HEDLEY_ALWAYS_INLINE void do_decode_rvv(const uint8_t* src, long& len, unsigned
 					unsigned vl64 = vl2/64;
 					vbool64_t carry = RV(vmadc_vv_u64m1_b64)(cmpEq64, evenStart64, vl64);
 					carry = mask_lshift<1>(carry, 0, vl64);
-					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, 1);
+					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, vl64);
 					while(RV(vcpop_m_b64)(carry, vl64)) {
-						vbool64_t nextCarry = RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64);
+						// only elements which are incremented can carry
+						vbool64_t nextCarry = RV(vmand_mm_b64)(carry, RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64), vl64);
 						oddGroups64 = RV(vadd_vx_u64m1_mu)(carry, oddGroups64, oddGroups64, 1, vl64);
 						carry = mask_lshift<1>(nextCarry, 0, vl64);
 					}
-- 
2.43.0


From 7d6999d221b6d3947defb6e6db3d221f30d7a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 18/25] fix: crc32 on 32-bit ARM with CRC instructions crashed
 for unaligned data of 8 to 15 bytes

The loads of consecutive words are merged into LDRD/LDM, which fault if unaligned.
---
 src/crc_arm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crc_arm.cc b/src/crc_arm.cc
index 6eb6815..4b0e89e 100644
--- a/src/crc_arm.cc
+++ b/src/crc_arm.cc
@@ -96,7 +96,7 @@ static uint32_t crc32_multiply_arm(uint32_t a, uint32_t b) {
 static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, long len) {
 	
 	// initial alignment
-	if (len >= 16) { // 16 is an arbitrary number; it just needs to be >=8
+	if (len >= 8) { // aligning can take 7 bytes; anything with two words must be aligned, as compilers may merge the loads into LDRD/LDM on AArch32
 		if ((uintptr_t)src & sizeof(uint8_t)) {
 			crc = __crc32b(crc, *src);
 			src++;
-- 
2.43.0


From 4fbb9429a24dbe666a5ddcc665a966714be7125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 19/25] fix: filename characters truncated into CR, LF or NUL
 when encoding is a single byte one

---
 index.js | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 82e6144..e963ca7 100644
--- a/index.js
+++ b/index.js
@@ -7,6 +7,7 @@ var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray :
 
 var nl = toBuffer([13, 10]);
 var RE_BADCHAR = /[\r\n\0]/g;
+var RE_SINGLEBYTE = /^(ascii|latin1|binary)$/i;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var hasOwn = Object.prototype.hasOwnProperty;
 var RE_NUMBER = /^\d+$/;
@@ -24,6 +25,15 @@ var DecoderWarning = function(code, message) {
 }
 DecoderWarning.prototype = { toString: function() { return this.message; } };
 
+// convert a filename to how it's written in the =ybegin line
+var encodeName = function(filename) {
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	// characters outside a single byte encoding are truncated, so may turn into a bad character
+	if(RE_SINGLEBYTE.test(module.exports.encoding))
+		filename = toBuffer(filename.toString('binary').replace(RE_BADCHAR, ''), 'binary');
+	return filename;
+};
+
 var bufferFind, bufferFindRev;
 if(Buffer.prototype.indexOf)
 	bufferFind = function(buf, search, start) {
@@ -203,7 +213,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+		filename = encodeName(filename);
 		var crc = y.crc32(data);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
@@ -379,7 +389,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	filename = encodeName(filename);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From b5c61c8e46551476ce8f3d0091fea031e91120c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 20/25] fix: from_post lost lines and properties named
 __proto__

---
 index.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index e963ca7..62dc786 100644
--- a/index.js
+++ b/index.js
@@ -83,6 +83,11 @@ else
 		return -1;
 	};
 
+// assign a property, regardless of its name (i.e. including '__proto__')
+var setOwn = function(obj, name, val) {
+	Object.defineProperty(obj, name, {value: val, writable: true, enumerable: true, configurable: true});
+};
+
 var decoderParseLines = function(lines, ydata) {
 	var warnings = [];
 	for(var i=0; i<lines.length; i++) {
@@ -114,7 +119,7 @@ var decoderParseLines = function(lines, ydata) {
 			if(hasOwn.call(yprops, prop)) {
 				warnings.push(DecoderWarning('duplicate_property', 'Duplicate property encountered: `' + prop + '`'));
 			}
-			yprops[prop] = val;
+			setOwn(yprops, prop, val);
 			m = line.match(RE_YPROP);
 		}
 		if(line != '') {
@@ -124,7 +129,7 @@ var decoderParseLines = function(lines, ydata) {
 		if(hasOwn.call(ydata, tag)) {
 			warnings.push(DecoderWarning('duplicate_line', 'Duplicate line encountered: `' + tag + '`'));
 		}
-		ydata[tag] = yprops;
+		setOwn(ydata, tag, yprops);
 	}
 	return warnings;
 };
-- 
2.43.0


From 75661f029672dfccc30610eb458f9f1fdf725733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 21/25] fix: encodeIncr returned the wrong column if a part
 ends at the end of a line

---
 src/encoder.cc       | 2 ++
 src/encoder_common.h | 2 ++
 src/yencode.cc       | 4 ++--
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/encoder.cc b/src/encoder.cc
index b0642fb..fbc7bcd 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -107,8 +107,10 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 			if (RapidYenc::escapedLUT[c] && c != '.'-42) {
 				memcpy(p, &RapidYenc::escapedLUT[c], sizeof(uint16_t));
 				p += 2;
+				col += 2;
 			} else {
 				*(p++) = c + 42;
+				col++;
 			}
 		}
 		
diff --git a/src/encoder_common.h b/src/encoder_common.h
index 8e4975c..4031305 100644
--- a/src/encoder_common.h
+++ b/src/encoder_common.h
@@ -65,8 +65,10 @@ static size_t do_encode_simd(int line_size, int* colOffset, const unsigned char*
 				if (RapidYenc::escapedLUT[c] && c != '.'-42) {
 					memcpy(p, RapidYenc::escapedLUT + c, 2);
 					p += 2;
+					(*colOffset) += 2;
 				} else {
 					*(p++) = c + 42;
+					(*colOffset) += 1;
 				}
 				if(i == 0) break;
 				c = es[i++];
diff --git a/src/yencode.cc b/src/yencode.cc
index 6d10716..3f0f7fc 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -195,9 +195,9 @@ FUNC(EncodeIncr) {
 			argp++;
 			if (args.Length() > argp) {
 				col = (int)ARG_TO_INT(args[argp]);
-				if (col > line_size || col < 0)
+				// the previous part may have filled its line, which an escape sequence can exceed by one
+				if (col-1 > line_size || col < 0)
 					RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
-				if (col == line_size) col = 0; // allow this case
 			}
 		}
 		if(!allocResult) {
-- 
2.43.0


From ff8bb2c42c6a74235b0bdd56edb0c9ab670985f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 22/25] fix: portable encoder's column overflowed for line
 sizes close to 2^31

---
 src/encoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder.cc b/src/encoder.cc
index fbc7bcd..ac3294d 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -48,8 +48,8 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 	while(i < 0) {
 		// main line
 		unsigned char* sp = NULL;
-		while (i < -1-8 && line_size-col-1 > 8) {
-			// 8 cycle unrolled version
+		while (i < -1-8 && line_size-col-1 > 8 && col <= 0x7fffffff - 8*2) {
+			// 8 cycle unrolled version (advances the column by up to 16, which mustn't overflow)
 			sp = p;
 			#define DO_THING(n) \
 				c = es[i+n], escaped = RapidYenc::escapeLUT[c]; \
-- 
2.43.0


From 1fafe60e9b4688c69247aade18df08bf5052874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:53 +0000
Subject: [PATCH 23/25] fix: from_post threw if called detached from the module

---
 index.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index 62dc786..e874d2a 100644
--- a/index.js
+++ b/index.js
@@ -255,7 +255,7 @@ module.exports = {
 		var sp = yencStart;
 		var p = bufferFind(data, '\r\n', yencStart+8);
 		while(p > 0) {
-			var line = bufferSlice.call(data, sp, p).toString(this.encoding).trim();
+			var line = bufferSlice.call(data, sp, p).toString(module.exports.encoding).trim();
 			lines.push(line);
 			sp = p+2;
 			if(line.substring(0, 6) == '=yend ') { // no data in post
@@ -272,7 +272,7 @@ module.exports = {
 		var unterminatedEnd = false;
 		if(!ret.dataStart && !ret.yencEnd) { // reached end of data
 			// the last line isn't terminated, but could be '=yend'
-			var lastLine = bufferSlice.call(data, sp).toString(this.encoding).trim();
+			var lastLine = bufferSlice.call(data, sp).toString(module.exports.encoding).trim();
 			if(lastLine.substring(0, 6) != '=yend ')
 				return DecoderError('no_end_found', 'yEnd end marker not found');
 			lines.push(lastLine);
@@ -299,7 +299,7 @@ module.exports = {
 				ret.yencEnd = p;
 			} else
 				ret.yencEnd = p+2;
-			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(this.encoding).trim();
+			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(module.exports.encoding).trim();
 			
 			warnings = warnings.concat(decoderParseLines([endLine], ydata));
 		}
-- 
2.43.0


From be40dba6620d5b73022d616e4661448f50cde77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:53 +0000
Subject: [PATCH 24/25] fix: from_post compared numbers as text, so warned of
 differing leading zeros

---
 index.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index e874d2a..cddbebd 100644
--- a/index.js
+++ b/index.js
@@ -11,6 +11,7 @@ var RE_SINGLEBYTE = /^(ascii|latin1|binary)$/i;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var hasOwn = Object.prototype.hasOwnProperty;
 var RE_NUMBER = /^\d+$/;
+var RE_LEADZERO = /^0+(?=\d)/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
 
 var DecoderError = function(code, message) {
@@ -323,11 +324,11 @@ module.exports = {
 				if(!ydata[tag][key]) return;
 				if(!RE_NUMBER.test(ydata[tag][key]))
 					warnings.push(DecoderWarning('invalid_prop_'+key, '`'+key+'` is not a number'));
-				else if(ydata[tag][key] === '0' && key != 'size') // most fields have to be at least one
+				else if(ydata[tag][key].replace(RE_LEADZERO, '') === '0' && key != 'size') // most fields have to be at least one
 					warnings.push(DecoderWarning('zero_prop_'+key, '`'+key+'` cannot be 0'));
 			});
 		}
-		if(ydata.begin.part && ydata.end.part && ydata.begin.part != ydata.end.part)
+		if(ydata.begin.part && ydata.end.part && ydata.begin.part.replace(RE_LEADZERO, '') != ydata.end.part.replace(RE_LEADZERO, ''))
 			warnings.push(DecoderWarning('part_number_mismatch', 'Part number specified in begin and end do not match'));
 		else if(ydata.begin.total && ((ydata.begin.part && +ydata.begin.total < +ydata.begin.part) || (ydata.end.part && +ydata.begin.total < +ydata.end.part)))
 			warnings.push(DecoderWarning('part_number_exceeds_total', 'Specified part number exceeds specified total'));
@@ -349,7 +350,7 @@ module.exports = {
 			if(ydata.end[prop] && !/^[a-fA-F0-9]{8}$/.test(ydata.end[prop]))
 				warnings.push(DecoderWarning('invalid_prop_'+prop, '`'+prop+'` is not a valid CRC32 value'));
 		});
-		if(!ydata.begin.part && ydata.begin.size != ydata.end.size)
+		if(!ydata.begin.part && ydata.begin.size.replace(RE_LEADZERO, '') != ydata.end.size.replace(RE_LEADZERO, ''))
 			warnings.push(DecoderWarning('size_mismatch', 'Size specified in begin and end do not match'));
 		else if(+ydata.begin.size < +ydata.end.size)
 			warnings.push(DecoderWarning('size_mismatch', 'Size specified for part exceeds size specified for whole file'));
-- 
2.43.0


From b482f1a27f00f784cd195de4424d6c4e263f5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:53 +0000
Subject: [PATCH 25/25] fix: crash if memory for the output cannot be allocated

---
 src/yencode.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 3f0f7fc..ab08475 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -22,6 +22,12 @@ static void free_buffer(char* data, void* _size) {
 	free(data);
 }
 
+// reduces an allocation to what's needed; a failure to do so isn't a problem
+static inline unsigned char* shrink_alloc(unsigned char* data, size_t len) {
+	unsigned char* result = (unsigned char*)realloc(data, len);
+	return result ? result : data;
+}
+
 // TODO: encode should return col num for incremental processing
 //       line limit + return input consumed
 //       async processing?
@@ -130,8 +136,10 @@ FUNC(Encode) {
 	size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 	
 	unsigned char *result = (unsigned char*) malloc(dest_len);
+	if(!result)
+		RETURN_ERROR("Failed to allocate memory for the output");
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, true);
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_alloc(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -221,13 +229,15 @@ FUNC(EncodeIncr) {
 		// allocate enough memory to handle worst case requirements
 		size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 		result = (unsigned char*) malloc(dest_len);
+		if(!result)
+			RETURN_ERROR("Failed to allocate memory for the output");
 	}
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
 	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
-		result = (unsigned char*)realloc(result, len);
+		result = shrink_alloc(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
@@ -250,12 +260,14 @@ FUNC(Decode) {
 		isRaw = ARG_TO_BOOL(args[1]);
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
+	if(!result)
+		RETURN_ERROR("Failed to allocate memory for the output");
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
 	if(len == 0) { // a Buffer around a NULL pointer would have its ArrayBuffer detached
 		free(result);
 		RETURN_VAL( NEW_BUFFER(0) );
 	}
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_alloc(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -315,7 +327,11 @@ FUNC(DecodeIncr) {
 	sp = (const unsigned char*)newSrc;
 #endif
 	
-	if(allocResult) result = (unsigned char*) malloc(arg_len);
+	if(allocResult) {
+		result = (unsigned char*) malloc(arg_len);
+		if(!result)
+			RETURN_ERROR("Failed to allocate memory for the output");
+	}
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
@@ -324,7 +340,7 @@ FUNC(DecodeIncr) {
 			free(result);
 			result = NULL;
 		} else
-			result = (unsigned char*)realloc(result, len);
+			result = shrink_alloc(result, len);
 	}
 	
 #ifdef DBG_ALIGN_SOURCE
-- 
2.43.0

