From 1cef359dba5ef578ccbd66dbe59a5a8a87c7c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 01/66] fix: blank and comment lines must not change the
 nesting of the lines around them

---
 block.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/block.go b/block.go
index e245127..b00020d 100644
--- a/block.go
+++ b/block.go
@@ -17,6 +17,9 @@ import (
 //     Graph ::= Line* End
 func (p *Parser) Ogdl() {
 	n, u := p.Space()
+	for p.Break() || p.Comment() {
+		n, u = p.Space()
+	}
 	if u == 0 {
 		return // Error
 	}
@@ -32,6 +35,9 @@ func (p *Parser) Ogdl() {
 // or bools to their corresponding type in Go (string | int64 | float64 | bool).
 func (p *Parser) OgdlTypes() {
 	n, u := p.Space()
+	for p.Break() || p.Comment() {
+		n, u = p.Space()
+	}
 	if u == 0 {
 		return // Error
 	}
@@ -78,6 +84,11 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 
 	n, u := p.Space()
 
+	// Blank and comment lines are not part of the tree structure
+	if p.Break() || p.Comment() {
+		return true, nil
+	}
+
 	if n < ns {
 		for i := n; i > 0; i-- {
 			p.UnreadByte()
-- 
2.43.0


From d91dc4f829240b959d28e53bc7d62cd95ab26d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 02/66] fix: a lone CR is a line break

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 76c8f72..ae7d3a9 100644
--- a/lexer.go
+++ b/lexer.go
@@ -219,6 +219,10 @@ func (p *Lexer) Break() bool {
 
 	if c == '\r' {
 		c, _ = p.Byte()
+		if c != '\n' {
+			p.UnreadByte()
+			return true
+		}
 	}
 
 	if c == '\n' {
-- 
2.43.0


From c4781e7224466b7957a31e291ff0af5043aea242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 03/66] fix: keep the indentation of the line that follows a
 block

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index ae7d3a9..6ca1754 100644
--- a/lexer.go
+++ b/lexer.go
@@ -550,6 +550,10 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		ns, u := p.Space()
 
 		if u == 0 || ns <= nsp {
+			// This line is not part of the block: keep its indentation
+			for ; ns > 0; ns-- {
+				p.UnreadByte()
+			}
 			break
 		}
 
-- 
2.43.0


From 7878d3ce51a4c46dbaa1ce6414721c6149041d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 04/66] fix: quoted text at indentation 0 must keep leading
 space in continuation lines

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 6ca1754..eaa8365 100644
--- a/lexer.go
+++ b/lexer.go
@@ -309,6 +309,10 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 	spaces := 0
 	tabs := 0
 
+	if max <= 0 {
+		return 0, ' '
+	}
+
 	for {
 		c, _ := p.Byte()
 		if c != '\t' && c != ' ' {
-- 
2.43.0


From 039c102a63992412eb937b07f2bb0f5f8efc9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 05/66] fix: backslashes in quoted strings must not be lost

---
 lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index eaa8365..4135951 100644
--- a/lexer.go
+++ b/lexer.go
@@ -368,7 +368,13 @@ func (p *Lexer) Quoted(ind int) (string, bool, error) {
 		}
 
 		if c == '\\' {
-			c2 = c
+			// Only a quote can be escaped: other backslashes are literal
+			if c2 == '\\' || c1 == '`' {
+				buf = append(buf, '\\')
+			}
+			if c1 != '`' {
+				c2 = c
+			}
 			continue
 		}
 
-- 
2.43.0


From 0c02b24d114e92bf6034b9c55adbf67ab6f5a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 06/66] fix: text emitted for a scalar that starts with a quote
 must be its content

---
 graph.go | 16 ----------------
 html.go  |  8 --------
 2 files changed, 24 deletions(-)

diff --git a/graph.go b/graph.go
index 710796b..1507794 100644
--- a/graph.go
+++ b/graph.go
@@ -372,14 +372,6 @@ func (g *Graph) Text() string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
@@ -405,14 +397,6 @@ func (g *Graph) Show() string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
diff --git a/html.go b/html.go
index 2efdc71..4a99c13 100644
--- a/html.go
+++ b/html.go
@@ -29,14 +29,6 @@ func (g *Graph) Html(path string) string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
-- 
2.43.0


From a76a15b11f93feea683202473fa73bce9d1f7bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 07/66] fix: text emitter must quote so that backslashes and
 quotes parse back

---
 graph.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/graph.go b/graph.go
index 1507794..e6e0692 100644
--- a/graph.go
+++ b/graph.go
@@ -428,13 +428,19 @@ func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 		s = _string(g.This)
 	}
 
-	if strings.ContainsAny(s, "\n\r \t'\",()") {
+	if strings.ContainsAny(s, "\n\r \t'\",()") || s == "\\" || strings.HasPrefix(s, "`") {
+
+		// A backslash before the closing quote would escape it
+		q := byte('"')
+		if strings.HasSuffix(s, "\\") && !strings.Contains(s, "`") {
+			q = '`'
+		}
 
 		// print quoted, but not at level 0
 		// Do not convert " to \" below if level==0 !
 		if n > 0 {
 			buffer.WriteString(sp) /* [:len(sp)-1]) */
-			buffer.WriteByte('"')
+			buffer.WriteByte(q)
 		}
 
 		var c, cp byte
@@ -448,10 +454,11 @@ func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 			} else if c == 10 {
 				buffer.WriteByte('\n')
 				buffer.WriteString(sp)
-			} else if c == '"' && n > 0 {
-				if cp != '\\' {
-					buffer.WriteString("\\\"")
-				}
+			} else if c == '"' && n > 0 && q == '"' {
+				buffer.WriteString("\\\"")
+			} else if c == '\'' && cp == '\\' && n > 0 && q == '"' {
+				// Without the extra backslash this one would be taken as escape
+				buffer.WriteString("\\'")
 			} else {
 				buffer.WriteByte(c)
 			}
@@ -459,7 +466,7 @@ func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 		}
 
 		if n > 0 {
-			buffer.WriteString("\"")
+			buffer.WriteByte(q)
 		}
 		buffer.WriteString("\n")
 	} else {
-- 
2.43.0


From 360770eb6fa729cd1b9c49ab821a8b4a715c0891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 08/66] fix: short reads must not be taken as the end of the
 stream, nor data that comes with EOF be lost

---
 lexer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index 4135951..cc99646 100644
--- a/lexer.go
+++ b/lexer.go
@@ -80,19 +80,18 @@ func (p *Lexer) fill() {
 		p.r = 0
 	}
 
-	for i := maxConsecutiveEmptyReads; i > 0; i-- {
+	for i := maxConsecutiveEmptyReads; i > 0 && offset < bufSize; i-- {
 		n, err := p.rd.Read(p.buf[offset:])
 		if n < 0 {
 			panic(errNegativeRead)
 		}
+		offset += n
 		if err != nil {
 			p.err = err
 			break
 		}
-
-		offset += n
-		if offset >= halfSize {
-			break
+		if n > 0 {
+			i = maxConsecutiveEmptyReads + 1
 		}
 	}
 
-- 
2.43.0


From ca3e7e9a907b6ed238bf81b804467a1e81152884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 09/66] fix: Rune must not read past the end of the stream nor
 split a rune at the buffer end

---
 lexer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index cc99646..050049b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -69,12 +69,18 @@ func (p *Lexer) fill() {
 		return
 	}
 
+	p.load()
+}
+
+// load reads a new chunk unconditionally (see fill).
+func (p *Lexer) load() {
+
 	// Read new data: try a limited number of times.
 	// The first time read the full buffer, else only half.
 	offset := 0
 	if p.r >= 0 {
 		copy(p.buf, p.buf[halfSize:])
-		p.r = halfSize
+		p.r -= halfSize
 		offset = halfSize
 	} else {
 		p.r = 0
@@ -121,6 +127,7 @@ func (p *Lexer) PeekRune() (rune, error) {
 	r, err := p.Rune()
 
 	if err != nil {
+		p.UnreadRune()
 		return 0, nil
 	}
 
@@ -155,7 +162,16 @@ func (p *Lexer) UnreadByte() {
 // and returns unicode.ReplacementChar (U+FFFD) with a size of 1.
 func (p *Lexer) Rune() (rune, error) {
 
-	p.fill()
+	if p.lastByte < bufSize && p.r >= p.lastByte {
+		p.r = p.lastByte + 1
+		p.lastRuneSize = append(p.lastRuneSize, 1)
+		return 0, ErrEOS
+	}
+
+	// The bytes of a rune can continue in the next chunk
+	if p.lastByte == bufSize && p.r >= bufSize-utf8.UTFMax {
+		p.load()
+	}
 
 	r, size := rune(p.buf[p.r]), 1
 	if r >= utf8.RuneSelf {
-- 
2.43.0


From 63b3601731a31c7f1293ec7b267f158b7497dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 10/66] fix: a read error is the end of a binary stream, not an
 endless run of zeros

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 1471b83..e10b687 100644
--- a/binary.go
+++ b/binary.go
@@ -322,7 +322,7 @@ func (p *binParser) read() int {
 	i, err := p.r.ReadByte()
 
 	c := int(i)
-	if err == io.EOF {
+	if err != nil {
 		c = -1
 	} else {
 		p.n++
-- 
2.43.0


From 44ac30f317d1c169424c5d55b20969afda53f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 11/66] fix: second byte of 4 byte variable integers

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index e10b687..06ab5cc 100644
--- a/binary.go
+++ b/binary.go
@@ -186,7 +186,7 @@ func newVarInt(i int) []byte {
 	if i < 0x10000000 {
 		b := make([]byte, 4)
 		b[0] = byte(i>>24 | 0xe0)
-		b[1] = byte(i>>16 | 0xff)
+		b[1] = byte(i >> 16 & 0xff)
 		b[2] = byte(i >> 8 & 0xff)
 		b[3] = byte(i & 0xff)
 		return b
-- 
2.43.0


From 40ead7f2e4682a60f0633a86c45fd43cdb69a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 12/66] fix: truncated or malformed binary streams give nil
 instead of a hang or a partial graph

---
 binary.go | 35 ++++++++++++++++++++++++++++++++---
 log.go    |  4 ++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/binary.go b/binary.go
index 06ab5cc..0b91a55 100644
--- a/binary.go
+++ b/binary.go
@@ -137,6 +137,7 @@ func (p *binParser) parse() *Graph {
 	}
 
 	ev := &SimpleEventHandler{}
+	prev := 0
 
 	for {
 		lev, bin, b := p.line(true)
@@ -144,6 +145,12 @@ func (p *binParser) parse() *Graph {
 		if lev == 0 {
 			break
 		}
+		// Malformed or truncated stream, or a node without parent
+		if lev < 0 || lev > prev+1 {
+			return nil
+		}
+		prev = lev
+
 		// Store the content in the same format as it was sent (string or []byte)
 		if bin {
 			ev.AddBytesAt(b, lev-1)
@@ -230,12 +237,18 @@ func (p *binParser) varInt() int {
 
 	if b0 < 0xc0 {
 		b1 := p.read()
+		if b1 < 0 {
+			return -1
+		}
 		return (b0&0x3f)<<8 | b1
 	}
 
 	if b0 < 0xe0 {
 		b1 := p.read()
 		b2 := p.read()
+		if b1 < 0 || b2 < 0 {
+			return -1
+		}
 		return ((b0 & 0x1f) << 16) | (b1 << 8) | b2
 	}
 
@@ -243,6 +256,9 @@ func (p *binParser) varInt() int {
 		b1 := p.read()
 		b2 := p.read()
 		b3 := p.read()
+		if b1 < 0 || b2 < 0 || b3 < 0 {
+			return -1
+		}
 		return ((b0 & 0x0f) << 24) | (b1 << 16) | (b2 << 8) | b3
 	}
 
@@ -256,7 +272,7 @@ func (p *binParser) varInt() int {
 //     node  ::= text-node | binary-node
 //
 // This function returns:
-// - the level (1..)
+// - the level (1..), 0 at the end mark, or -1 if the stream is malformed or truncated
 // - the byte stream
 // - a boolean that is true for binary nodes, false for text nodes
 //
@@ -268,7 +284,7 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 	// Read an integer (the level)
 	level := p.varInt()
 	if level < 1 {
-		return 0, false, nil
+		return level, false, nil
 	}
 
 	// create a byte buffer to accumulate the bytes read.
@@ -283,12 +299,15 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		for {
 			n = p.varInt()
 			if n < 0 {
+				return -1, true, nil
+			}
+			if n == 0 {
 				break
 			}
 			for ; n != 0; n-- {
 				c := p.read()
 				if c < 0 {
-					return level, true, buf.Bytes()
+					return -1, true, nil
 				}
 				if write {
 					buf.WriteByte(byte(c))
@@ -300,12 +319,22 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 
 	// Text node. Read bytes until 0
 
+	if n < 0 {
+		return -1, false, nil
+	}
+	if n == 0 {
+		return level, false, nil
+	}
+
 	if write {
 		buf.WriteByte(byte(n))
 	}
 
 	for {
 		c := p.read()
+		if c < 0 {
+			return -1, false, nil
+		}
 		if c == 0 {
 			return level, false, buf.Bytes()
 		}
diff --git a/log.go b/log.go
index 9567f32..c063994 100644
--- a/log.go
+++ b/log.go
@@ -153,6 +153,10 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	}
 	for {
 		lev, _, _ /* typ, b*/ := p.line(false)
+		if lev < 0 {
+			// Not (completely) written
+			return nil, 0, ErrEOS
+		}
 		if lev == 0 {
 			break
 		}
-- 
2.43.0


From 41f3813dcd4fd2c1c3f2a062f3983f7281e9f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 13/66] fix: GetBinary returns the position of the next object
 in the log

---
 log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.go b/log.go
index c063994..4413f20 100644
--- a/log.go
+++ b/log.go
@@ -168,5 +168,5 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	b := make([]byte, n)
 	_, err = log.f.ReadAt(b, i)
 
-	return b, int64(n), err
+	return b, i + int64(n), err
 }
-- 
2.43.0


From fa1132d0a984ae8b91c60ff9a2689e81e0e439e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 14/66] fix: content that cannot be a text node is encoded as
 binary node

---
 binary.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 0b91a55..4c42499 100644
--- a/binary.go
+++ b/binary.go
@@ -117,7 +117,21 @@ func (g *Graph) bin(level int, buf []byte) []byte {
 	b := _bytes(g.This)
 	if len(b) != 0 {
 		buf = append(buf, newVarInt(level)...)
-		buf = append(buf, b...)
+		if b[0] == 1 || bytes.IndexByte(b, 0) >= 0 {
+			// Not valid as text node: write it as a binary node
+			buf = append(buf, 1)
+			for len(b) > 0 {
+				n := len(b)
+				if n > 0xfffffff {
+					n = 0xfffffff
+				}
+				buf = append(buf, newVarInt(n)...)
+				buf = append(buf, b[:n]...)
+				b = b[n:]
+			}
+		} else {
+			buf = append(buf, b...)
+		}
 		buf = append(buf, 0)
 		level++
 	}
-- 
2.43.0


From f939db00c1c85e4dfebf548b70c818d690086cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 15/66] fix: Set with an index must honor the rest of the path,
 not leave nil nodes nor panic

---
 graph.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/graph.go b/graph.go
index e6e0692..a423710 100644
--- a/graph.go
+++ b/graph.go
@@ -298,16 +298,24 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 		elem := path.Out[i]
 		if elem.ThisString() == TypeIndex {
-			i := elem.Int64()
-			if len(node.Out) <= int(i) {
-				o := make([]*Graph, i+1)
-				for j, n := range node.Out {
-					o[j] = n
+			ix := elem.index(g)
+			if ix < 0 {
+				return nil
+			}
+			if len(node.Out) <= ix {
+				o := make([]*Graph, ix+1)
+				copy(o, node.Out)
+				for j := len(node.Out); j <= ix; j++ {
+					o[j] = New("_")
 				}
 				node.Out = o
 			}
-			node.Out[i] = New(val)
-			return node.Out[i]
+			if i < len(path.Out)-1 {
+				node = node.Out[ix]
+				continue
+			}
+			node.Out[ix] = New(val)
+			return node.Out[ix]
 		}
 		node = node.Node(elem.ThisString())
 
@@ -323,16 +331,24 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 			elem := path.Out[i]
 
 			if elem.ThisString() == TypeIndex {
-				i := elem.Int64()
-				if len(node.Out) <= int(i) {
-					o := make([]*Graph, i+1)
-					for j, n := range node.Out {
-						o[j] = n
+				ix := elem.index(g)
+				if ix < 0 {
+					return nil
+				}
+				if len(node.Out) <= ix {
+					o := make([]*Graph, ix+1)
+					copy(o, node.Out)
+					for j := len(node.Out); j <= ix; j++ {
+						o[j] = New("_")
 					}
 					node.Out = o
 				}
-				node.Out[i] = New(val)
-				return node.Out[i]
+				if i < len(path.Out)-1 {
+					node = node.Out[ix]
+					continue
+				}
+				node.Out[ix] = New(val)
+				return node.Out[ix]
 			}
 
 			node = node.Add(elem.This)
-- 
2.43.0


From ab2d0782c55257524596fc08cc42a4fe96ecd332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 16/66] fix: adding a nil graph must not create a node

---
 graph.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index a423710..c2e8328 100644
--- a/graph.go
+++ b/graph.go
@@ -60,7 +60,10 @@ func (g *Graph) Add(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node)
 		return node
 	}
@@ -77,7 +80,10 @@ func (g *Graph) addNodes(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node.Out...)
 		return node
 	}
-- 
2.43.0


From 32925eaf804d0f829d2dd568205c9bd8bea69a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 17/66] fix: Copy must not drop nodes without content

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index c2e8328..5fb6adb 100644
--- a/graph.go
+++ b/graph.go
@@ -133,7 +133,7 @@ func (g *Graph) Copy(c *Graph) {
 		return
 	}
 	for _, n := range c.Out {
-		nn := g.Add(n.This)
+		nn := g.Add(New(n.This))
 		nn.Copy(n)
 	}
 }
-- 
2.43.0


From a6a103cebffbc6402704804d5ca16a93fbc74be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 18/66] fix: Merge must match nodes by name and not modify the
 source

---
 graph.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 5fb6adb..8a123a0 100644
--- a/graph.go
+++ b/graph.go
@@ -530,11 +530,15 @@ func (g *Graph) Substitute(s string, v interface{}) {
 // Merge the given graph into the current (receiver) graph
 func (g *Graph) Merge(src *Graph) {
 
+	if g == nil || src == nil {
+		return
+	}
+
 	for _, node := range src.Out {
-		n := g.Node(node.String())
+		n := g.Node(node.ThisString())
 
 		if n == nil {
-			g.Add(node)
+			g.Add(node.Clone())
 		} else {
 			n.Out = nil
 			n.Merge(node)
-- 
2.43.0


From 403fa65d5b8bd3f17719a76293bc83eeb592ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 19/66] fix: Equals and Delete must not panic on byte content
 or nil graphs

---
 graph.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 8a123a0..a06e218 100644
--- a/graph.go
+++ b/graph.go
@@ -38,7 +38,10 @@ func (g *Graph) ThisType() string {
 // Equals returns true if the given graph and the receiver graph are equal.
 func (g *Graph) Equals(c *Graph) bool {
 
-	if c.This != g.This {
+	if g == nil || c == nil {
+		return g == c
+	}
+	if !sameContent(c.This, g.This) {
 		return false
 	}
 	if g.Len() != c.Len() {
@@ -53,6 +56,14 @@ func (g *Graph) Equals(c *Graph) bool {
 	return true
 }
 
+// sameContent compares two contents, also those that are not comparable with ==
+func sameContent(a, b interface{}) bool {
+	if a != nil && !reflect.TypeOf(a).Comparable() {
+		return reflect.DeepEqual(a, b)
+	}
+	return a == b
+}
+
 // Add adds a subnode to the current node.
 func (g *Graph) Add(n interface{}) *Graph {
 
@@ -243,7 +254,7 @@ func (g *Graph) Delete(n interface{}) {
 		return
 	}
 	for i := 0; i < g.Len(); i++ {
-		if g.Out[i].This == n {
+		if sameContent(g.Out[i].This, n) {
 			if i < (g.Len() - 1) {
 				g.Out = append(g.Out[:i], g.Out[i+1:]...)
 			} else {
-- 
2.43.0


From 12ba0c3c8b180e3273a080b6584e25d337d9e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 20/66] fix: methods must accept nil graphs

---
 gettypes.go | 30 ++++++++++++++++++++++++++++--
 graph.go    |  8 +++++++-
 sort.go     |  9 +++++++++
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index d539673..89a7d5a 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -26,6 +26,10 @@ func (g *Graph) Find(re string) (*Graph, error) {
 
 	r := New("_")
 
+	if g == nil {
+		return r, nil
+	}
+
 	for _, node := range g.Out {
 		if exp.MatchString(node.ThisString()) {
 			r.Add(node)
@@ -76,6 +80,9 @@ func (g *Graph) Bool(def ...bool) bool {
 
 // ThisValue returns this node as a reflect.Value.
 func (g *Graph) ThisValue() reflect.Value {
+	if g == nil {
+		return reflect.Value{}
+	}
 	return reflect.ValueOf(g.This)
 }
 
@@ -192,6 +199,9 @@ func (g *Graph) Bytes() []byte {
 
 // ThisBytes returns the node as []byte, or nil if not possble.
 func (g *Graph) ThisBytes() []byte {
+	if g == nil {
+		return nil
+	}
 	return _bytes(g.This)
 }
 
@@ -202,16 +212,25 @@ func (g *Graph) Number() interface{} {
 
 // ThisNumber returns either a float64, int64 or nil
 func (g *Graph) ThisNumber() interface{} {
+	if g == nil {
+		return nil
+	}
 	return number(g.This)
 }
 
 // ThisInt64 returns a int64 or nil
 func (g *Graph) ThisInt64() (int64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _int64f(g.This)
 }
 
 // ThisFloat64 returns a float64
 func (g *Graph) ThisFloat64() (float64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _float64f(g.This)
 }
 
@@ -231,7 +250,7 @@ func (g *Graph) ThisFloat64() (float64, bool) {
 func (g *Graph) Scalar() interface{} {
 
 	itf := g.Interface()
-	if itf == nil && g.Out != nil {
+	if itf == nil && g.Len() > 0 {
 		itf = g.Out[0].This
 	}
 
@@ -254,8 +273,12 @@ func (g *Graph) Scalar() interface{} {
 // ThisScalar returns this node's content as an interface
 func (g *Graph) ThisScalar() interface{} {
 
+	if g == nil {
+		return nil
+	}
+
 	itf := g.This
-	if itf == nil && g.Out != nil {
+	if itf == nil && g.Len() > 0 {
 		itf = g.Out[0].This
 	}
 
@@ -470,6 +493,9 @@ func _float64(i interface{}) (float64, bool) {
 func _int64f(i interface{}) (int64, bool) {
 
 	if i2, ok := i.(*Graph); ok {
+		if i2 == nil {
+			return 0, false
+		}
 		i = i2.This
 	}
 
diff --git a/graph.go b/graph.go
index a06e218..bda2042 100644
--- a/graph.go
+++ b/graph.go
@@ -32,6 +32,9 @@ func (g *Graph) Len() int {
 
 // ThisType returns the name of the native type contained in the current node.
 func (g *Graph) ThisType() string {
+	if g == nil || g.This == nil {
+		return ""
+	}
 	return reflect.TypeOf(g.This).String()
 }
 
@@ -201,6 +204,9 @@ func (g *Graph) NodeOrNew(s string) *Graph {
 
 // NodeSet is a cheaper version of Set when s is a single node, not a path
 func (g *Graph) NodeSet(s string, v interface{}) *Graph {
+	if g == nil {
+		return nil
+	}
 	n := g.NodeOrNew(s)
 	n.Clear()
 	return n.Add(v)
@@ -219,7 +225,7 @@ func (g *Graph) Create(s string) *Graph {
 
 // GetAt returns a subnode by index, or nil if the index is out of range.
 func (g *Graph) GetAt(i int) *Graph {
-	if i >= len(g.Out) || i < 0 {
+	if g == nil || i >= len(g.Out) || i < 0 {
 		return nil
 	}
 
diff --git a/sort.go b/sort.go
index ad80725..1f56e66 100644
--- a/sort.go
+++ b/sort.go
@@ -11,11 +11,17 @@ type stringSorter struct {
 }
 
 func (g *Graph) Sort(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
 
 func (g *Graph) SortAsString(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
@@ -38,6 +44,9 @@ type intSorter struct {
 }
 
 func (g *Graph) SortAsInt(field string) {
+	if g == nil {
+		return
+	}
 	s := intSorter{field, g.Out}
 	sort.Sort(s)
 }
-- 
2.43.0


From b4a018f4dbc320509c6385d2dbe3810e0cce61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 21/66] fix: isInteger must not panic on blank strings

---
 gettypes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gettypes.go b/gettypes.go
index 89a7d5a..2558fd0 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -718,7 +718,7 @@ func isInteger(s string) bool {
 		}
 	}
 
-	if s[i] == '-' {
+	if i < l && s[i] == '-' {
 		i++
 	}
 
-- 
2.43.0


From b99625b7cfb16ccca6d51a06c5b1d60e5c4d2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 22/66] fix: StringCSV must not panic on a node without
 subnodes

---
 gettypes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gettypes.go b/gettypes.go
index 2558fd0..933aeab 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -128,6 +128,12 @@ func (g *Graph) StringCSV(def ...string) string {
 		s += ", " + _string(n.This)
 	}
 
+	if len(s) <= 2 && len(def) > 0 {
+		return def[0]
+	}
+	if len(s) == 0 {
+		return ""
+	}
 	return s[2:]
 }
 
-- 
2.43.0


From f686ce8b2443a93b41fce6c340ad9c3b4dc68cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 23/66] fix: String, StringTxt return the default, if given,
 instead of an empty string

---
 gettypes.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gettypes.go b/gettypes.go
index 933aeab..0965b35 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -106,7 +106,11 @@ func (g *Graph) String(def ...string) string {
 		return def[0]
 	}
 
-	return _string(g.Interface())
+	s := _string(g.Interface())
+	if len(s) == 0 && len(def) > 0 {
+		return def[0]
+	}
+	return s
 }
 
 // StringCSV returns a comma separated value representation of all direct subnodes.
@@ -172,6 +176,9 @@ func (g *Graph) StringTxt(def ...string) string {
 	}
 
 	if g.Len() == 0 {
+		if len(def) > 0 {
+			return def[0]
+		}
 		return ""
 	}
 
-- 
2.43.0


From 7a1a70ae5f8975ddee1020869879a0c9650e5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 24/66] fix: schema check of binary nodes and of nodes without
 content

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index ff81607..96688e2 100644
--- a/schema.go
+++ b/schema.go
@@ -41,7 +41,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 	var ok bool
 
 	// literal | literal* | literal? | literal+ | ** | ***
-	if sc[0] != '!' {
+	if len(sc) == 0 || sc[0] != '!' {
 		return sx == sc
 	}
 
@@ -64,7 +64,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 		return ty == "string"
 
 	case "!binary":
-		return ty == "[]byte"
+		return ty == "[]uint8" // []byte
 	}
 
 	return false
-- 
2.43.0


From 74c2c0e321a45390ad139bd2bed8876149c2ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 25/66] fix: a path element after an index applies to the
 indexed node, and an index out of range gives nil

---
 eval.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index d708441..377dff6 100644
--- a/eval.go
+++ b/eval.go
@@ -50,6 +50,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 	ctx := g            // Current context node
 	var ctxPrev *Graph  // Previous context node
 	var elemPrev string // Previous path element searched in the context node
+	var addRoot bool    // The last element is an index
 
 	for i := 0; i < len(p.Out); i++ {
 
@@ -59,6 +60,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		pathNode := p.Out[i]
 		pathElement := pathNode.ThisString()
+		addRoot = false
 
 		switch pathElement {
 
@@ -71,10 +73,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 				return nil, ErrInvalidIndex
 			}
 
-			r := New("[")
-			r.Add(ctx.GetAt(ix))
 			ctxPrev = ctx
-			ctx = r
+			ctx = ctx.GetAt(ix)
+			addRoot = true
 
 		case TypeSelector:
 
@@ -159,6 +160,12 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		}
 	}
 
+	if addRoot && ctx != nil {
+		r := New("[")
+		r.Add(ctx)
+		ctx = r
+	}
+
 	return ctx, nil
 }
 
@@ -302,7 +309,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 		}
 	}
 
-	if addRoot {
+	if addRoot && ctx != nil {
 		r := New("[")
 		r.Add(ctx)
 		ctx = r
-- 
2.43.0


From 13ed0d0cf3dd4a5e32099cb205cd25b24370be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 26/66] fix: parentheses, unary operators and expressions used
 as index must not panic nor be misread

---
 eval.go       | 24 ++++++++++++++++++++++--
 expression.go | 33 +++++++++++++++++++++++----------
 flow.go       |  5 ++++-
 lexer.go      |  9 +++++++++
 4 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/eval.go b/eval.go
index 377dff6..d1cad28 100644
--- a/eval.go
+++ b/eval.go
@@ -328,7 +328,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 	// Return nil and empty strings as is
-	if p.This == nil {
+	if p == nil || p.This == nil {
 		return nil, ErrNilReceiver
 	}
 
@@ -347,7 +347,12 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 	switch s {
 	case "!":
 		// Unary expression !expr
-		return !g.evalBool(p.Out[0]), nil
+		itf, err := g.evalExpression(p.GetAt(0), true)
+		if err != nil {
+			return nil, err
+		}
+		b, _ := _boolf(itf)
+		return !b, nil
 	case TypeExpression:
 		return g.evalExpression(p.GetAt(0), simpl)
 	case TypePath:
@@ -401,6 +406,21 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
 
+	if p.Len() < 2 {
+		// Unary expression
+		i1, err := g.evalExpression(p.GetAt(0), true)
+		if err != nil {
+			return nil
+		}
+		switch p.ThisString() {
+		case "-":
+			return calc(int64(0), i1, '-')
+		case "+":
+			return i1
+		}
+		return nil
+	}
+
 	n1 := p.Out[0]
 
 	i2, err := g.evalExpression(p.Out[1], true)
diff --git a/expression.go b/expression.go
index 9fe3ba0..d608606 100644
--- a/expression.go
+++ b/expression.go
@@ -28,30 +28,43 @@ func (g *Graph) ast() {
 	}
 
 	for _, node := range g.Out {
-		if node.ThisString() == TypeExpression {
+		switch node.ThisString() {
+		case TypeExpression, TypeIndex, TypeSelector:
 			node._ast()
-		} else {
+		default:
 			node.ast()
 		}
 	}
 }
 
+// isOperator returns true for operator nodes that have no operands yet
+func (g *Graph) isOperator() bool {
+	s := g.ThisString()
+	return g.Len() == 0 && (s == "!" || precedence(s) >= 0)
+}
+
 func (g *Graph) _ast() {
 
+	g.ast()
+
 	if g.Len() < 2 {
 		return
 	}
 
-	for _, node := range g.Out {
-		node.ast()
+	// Unary operators: those at the beginning or after another operator
+	for i := g.Len() - 2; i >= 0; i-- {
+		node := g.Out[i]
+		if !node.isOperator() || (i > 0 && !g.Out[i-1].isOperator()) {
+			continue
+		}
+		switch node.ThisString() {
+		case "!", "-", "+":
+			node.Add(g.Out[i+1])
+			g.DeleteAt(i + 1)
+		}
 	}
 
 	if g.Len() == 2 {
-		node := g.Out[0]
-
-		if node.ThisString() == "!" {
-			node.Add(g.Out[1])
-		}
 		g.DeleteAt(1)
 		return
 	}
@@ -63,7 +76,7 @@ func (g *Graph) _ast() {
 		for i := 0; i < len(g.Out); i++ {
 
 			node := g.Out[i]
-			if precedence(node.ThisString()) == j {
+			if node.Len() == 0 && precedence(node.ThisString()) == j && i > 0 && i+1 < len(g.Out) {
 				e1 = g.Out[i-1]
 				e2 = g.Out[i+1]
 				g.Out = append(g.Out[:i-1], g.Out[i:]...)
diff --git a/flow.go b/flow.go
index 74089af..16fabe9 100644
--- a/flow.go
+++ b/flow.go
@@ -15,6 +15,7 @@ func NewPath(s string) *Graph {
 	p.Path()
 	g := p.Graph()
 	g.This = TypePath
+	g.ast()
 	return g
 }
 
@@ -203,11 +204,13 @@ func (p *Parser) UnaryExpression() bool {
 
 	if ok {
 		p.ev.Add(b)
+		p.Space()
+		return p.UnaryExpression()
 	}
 
 	if p.PeekByte() == '(' {
 		p.Byte() // Consume the '('
-		p.ev.Add(TypeGroup)
+		p.ev.Add(TypeExpression)
 		p.ev.Inc()
 		p.Space()
 		p.Expression()
diff --git a/lexer.go b/lexer.go
index 050049b..fec90e1 100644
--- a/lexer.go
+++ b/lexer.go
@@ -486,6 +486,11 @@ func (p *Lexer) Number() (string, bool) {
 	}
 
 	p.UnreadByte()
+	if sign != 0 && len(buf) == 0 {
+		// Not a number: leave the sign (an operator)
+		p.UnreadByte()
+		return "", false
+	}
 	if sign == '-' {
 		return "-" + string(buf), len(buf) > 0
 	}
@@ -503,6 +508,10 @@ func (p *Lexer) Operator() (string, bool) {
 		if !isOperatorChar(c) {
 			break
 		}
+		// These can only begin an operator (the next one)
+		if len(buf) > 0 && (c == '-' || c == '+' || c == '!') {
+			break
+		}
 		buf = append(buf, c)
 	}
 
-- 
2.43.0


From 875c14c8d306ffaac16e998684f6ea73b917a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 27/66] fix: integer division by zero gives no value instead of
 a panic

---
 eval.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eval.go b/eval.go
index d1cad28..7563554 100644
--- a/eval.go
+++ b/eval.go
@@ -635,8 +635,14 @@ func calc(v1, v2 interface{}, op int) interface{} {
 		case '*':
 			return i1 * i2
 		case '/':
+			if i2 == 0 {
+				return nil
+			}
 			return i1 / i2
 		case '%':
+			if i2 == 0 {
+				return nil
+			}
 			return i1 % i2
 		}
 	}
@@ -676,6 +682,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	case '/':
 		return i3 / i4
 	case '%':
+		if int(i4) == 0 {
+			return nil
+		}
 		return int(i3) % int(i4)
 	}
 
-- 
2.43.0


From 817a1cf6e4dd61287f88fb39ce4a49d02dcd93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 28/66] fix: assignments must not share nodes between
 variables, create cycles, panic or assign to non-paths

---
 eval.go  | 12 +++++++++++-
 graph.go |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 7563554..0180ff2 100644
--- a/eval.go
+++ b/eval.go
@@ -576,13 +576,23 @@ func logic(i1, i2 interface{}, op int) bool {
 // assign modifies the context graph
 func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 
+	// Only paths can be assigned to
+	if s := p.ThisString(); s != TypePath && s != TypeString {
+		return nil
+	}
+
+	// Variables are values: they do not share nodes
+	if n, ok := v.(*Graph); ok {
+		v = n.Clone()
+	}
+
 	if op == '=' {
 		return g.set(p, v)
 	}
 
 	// if p doesn't exist, just set it to the value given
 	left, _ := g.getPath(p)
-	if left != nil {
+	if left.Len() > 0 {
 		return g.set(p, calc(left.Out[0].This, v, op))
 	}
 
diff --git a/graph.go b/graph.go
index bda2042..de3cf25 100644
--- a/graph.go
+++ b/graph.go
@@ -310,6 +310,10 @@ func (g *Graph) Set(s string, val interface{}) *Graph {
 // TODO: Clean this code:
 func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
+	if g == nil || path == nil {
+		return nil
+	}
+
 	node := g
 
 	i := 0
-- 
2.43.0


From 2215961fb564feae14b32991d0d991ee29e19244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 29/66] fix: an empty group in a path must not panic

---
 eval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index 0180ff2..7f07921 100644
--- a/eval.go
+++ b/eval.go
@@ -126,7 +126,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
@@ -272,7 +272,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From f9e7a016b31a0d7f02cbb02009b66076fbdb7644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 30/66] fix: Delete on an event handler without events must not
 panic

---
 event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/event.go b/event.go
index 65ece2c..51ce3d0 100644
--- a/event.go
+++ b/event.go
@@ -50,6 +50,9 @@ func (e *SimpleEventHandler) AddAt(s string, lv int) {
 
 // Delete removes the last node added
 func (e *SimpleEventHandler) Delete() {
+	if len(e.items) == 0 {
+		return
+	}
 	e.items = e.items[0 : len(e.items)-1]
 	e.levels = e.levels[0 : len(e.levels)-1]
 }
-- 
2.43.0


From 4319d07b0e0003b83561676decb4673b05e279a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 31/66] fix: $break inside a conditional must end the enclosing
 loop

---
 template.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/template.go b/template.go
index 9602ce2..bab1101 100644
--- a/template.go
+++ b/template.go
@@ -99,22 +99,22 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// evaluate the expression
 			yes = c.evalBool(n.GetAt(0).GetAt(0))
 			// if true, evaluate the template part
-			if yes {
-				n.GetAt(1).process(c, buffer)
+			if yes && n.GetAt(1).process(c, buffer) {
+				return true
 			}
 		case TypeElseIf:
 			if !yes {
 				// evaluate the expression
 				yes = c.evalBool(n.GetAt(0).GetAt(0))
 				// if true, evaluate the template part
-				if yes {
-					n.GetAt(1).process(c, buffer)
+				if yes && n.GetAt(1).process(c, buffer) {
+					return true
 				}
 			}
 		case TypeElse:
 			// if there was a previous if or elseif evaluating to false:
-			if !yes {
-				n.GetAt(0).process(c, buffer)
+			if !yes && n.GetAt(0).process(c, buffer) {
+				return true
 			}
 		case TypeFor:
 			// The first subnode (of !g) is a path
-- 
2.43.0


From 885745d4c83c71bf44b2352c2f9c7f9e3ddacba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 32/66] fix: $for over a list with one element must render it

---
 template.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index bab1101..77a77f1 100644
--- a/template.go
+++ b/template.go
@@ -120,7 +120,8 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// The first subnode (of !g) is a path
 			// The second is an expression evaluating to a list of elements
 
-			i, _ := c.Eval(n.GetAt(0).GetAt(1))
+			// (without simplification, which would turn a single element into a scalar)
+			i, _ := c.evalExpression(n.GetAt(0).GetAt(1), false)
 
 			// fmt.Printf("-------\nfor (expr)\n-------\n%s\n\n", n.GetAt(0).GetAt(1).Show())
 
-- 
2.43.0


From 6908da3c323c985e17595e57229fb1e327789db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 33/66] fix: $for must not panic without a context nor create a
 cycle when iterating over it

---
 template.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/template.go b/template.go
index 77a77f1..860e503 100644
--- a/template.go
+++ b/template.go
@@ -138,6 +138,11 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 				gi = gi.Out[0]
 			}
 
+			// The loop variable is part of the context: avoid a cycle
+			if gi == c {
+				gi = gi.Clone()
+			}
+
 			// fmt.Printf("-------\nfor (evaluated)\n-------\n%s\n\n", gi.Show())
 
 			// The third is the subtemplate to travel
@@ -148,6 +153,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
 			c.Delete(varname)
 			it := c.Add(varname)
+			if it == nil {
+				continue
+			}
 
 			for _, ee := range gi.Out {
 
-- 
2.43.0


From cab3a04126b9b142446c91f94ef36b675be414cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 34/66] fix: a dot after a variable in a template is text if no
 path element follows

---
 flow.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flow.go b/flow.go
index 16fabe9..e3260f2 100644
--- a/flow.go
+++ b/flow.go
@@ -283,6 +283,7 @@ func (p *Parser) Path() bool {
 			}
 		}
 
+		first := begin
 		begin = false
 
 		b, ok, _ = p.Quoted(0)
@@ -300,6 +301,15 @@ func (p *Parser) Path() bool {
 			continue
 		}
 
+		// A dot that is not followed by an element is not part of the path
+		if !first && dot {
+			c := p.PeekByte()
+			if c != '[' && c != '(' && c != '{' {
+				p.UnreadByte()
+				break
+			}
+		}
+
 		if p.Index() {
 			anything = true
 			continue
-- 
2.43.0


From f8666279819269f3b3c2efbaef7a30f6c1892420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 35/66] fix: calls with wrong arguments give an error instead
 of a panic

---
 function.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/function.go b/function.go
index bb11df0..0591df1 100644
--- a/function.go
+++ b/function.go
@@ -41,6 +41,10 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 	// Build arguments in the form []reflect.Value
 	var vargs []reflect.Value
 
+	if path.Len() < 2 {
+		return nil, errors.New("no arguments or method")
+	}
+
 	switch v.Kind() {
 
 	case reflect.Func:
@@ -75,6 +79,12 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
+		// Check the number of arguments before looking at their types
+		if v.Type().NumIn() != len(args) {
+			// TODO Check that we print the name of the function
+			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
+		}
+
 		for i, arg := range args {
 			if arg == nil {
 				// No untyped nil support :-(
@@ -85,11 +95,6 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		}
 
 		// Check that the argument types match, otherwise v.Call() will panic
-		if v.Type().NumIn() != len(args) {
-			// TODO Check that we print the name of the function
-			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
-		}
-
 		for i := 0; i < v.Type().NumIn(); i++ {
 			if v.Type().In(i).String() != vargs[i].Type().String() {
 				return nil, errors.New("arguments do not match")
@@ -97,7 +102,7 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		}
 
 		// TODO: return 0..2 values
-		vv := v.Call(vargs)
+		vv := call(v, vargs)
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
@@ -151,13 +156,17 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 			// Type adapter. A bit slow (cache could help)
 			dtype := mtype.In(i).String()
-			vargs = append(vargs, convert(args[i], dtype))
+			varg := convert(args[i], dtype)
+			if !varg.IsValid() {
+				return nil, errors.New("arguments do not match")
+			}
+			vargs = append(vargs, varg)
 		}
 
 		// log.Printf(" - vargs: %v", vargs)
 
 		// TODO: return 0..2 values
-		vv := me.Call(vargs)
+		vv := call(me, vargs)
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
@@ -169,6 +178,14 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 }
 
+// call calls f, whose last parameter is given as a slice if f is variadic
+func call(f reflect.Value, args []reflect.Value) []reflect.Value {
+	if f.Type().IsVariadic() {
+		return f.CallSlice(args)
+	}
+	return f.Call(args)
+}
+
 // Convert arg to dtype, if possible.
 func convert(arg interface{}, dtype string) reflect.Value {
 
-- 
2.43.0


From ce853f8653d761fbec87d37a4351567faaf648ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 36/66] fix: functions that are not at the top level of the
 context must receive their arguments

---
 eval.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index 7f07921..e0ee2be 100644
--- a/eval.go
+++ b/eval.go
@@ -38,6 +38,14 @@ func (g *Graph) evalBool(e *Graph) bool {
 	return b
 }
 
+// from returns the path that begins at the i-th element of this one
+func (g *Graph) from(i int) *Graph {
+	if i <= 0 {
+		return g
+	}
+	return &Graph{g.This, g.Out[i:]}
+}
+
 // GetPath <-> EvalPath
 func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
@@ -110,7 +118,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		case TypeArguments:
 			// We have hit an argument list of a function
 			if ctx.Len() > 0 {
-				itf, err := g.function(p, ctx.GetAt(0).This)
+				itf, err := g.function(p.from(i-1), ctx.GetAt(0).This)
 				if err != nil {
 					return nil, err
 				}
@@ -146,7 +154,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 			if ctx == nil {
 				if ctxPrev.Len() > 0 {
-					itf, err := g.function(p, ctxPrev.GetAt(0).This)
+					itf, err := g.function(p.from(i-1), ctxPrev.GetAt(0).This)
 					if err != nil {
 						return nil, err
 					}
@@ -256,7 +264,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 		case TypeArguments:
 			// We have hit an argument list of a function
 			if ctx.Len() > 0 {
-				itf, err := g.function(p, ctx.GetAt(0).This)
+				itf, err := g.function(p.from(i-1), ctx.GetAt(0).This)
 				if err != nil {
 					return nil, err
 				}
@@ -292,7 +300,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 			if ctx == nil {
 				if ctxPrev.Len() > 0 {
-					itf, err := g.function(p, ctxPrev.GetAt(0).This)
+					itf, err := g.function(p.from(i-1), ctxPrev.GetAt(0).This)
 					if err != nil {
 						return nil, err
 					}
-- 
2.43.0


From 97955c70d75d218a23052aae0d4f979873b8afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 37/66] fix: the server must accept requests that arrive in
 several segments

---
 ogdlrf/server.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 5f399a5..e60728f 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -5,7 +5,9 @@
 package ogdlrf
 
 import (
+	"bytes"
 	"encoding/binary"
+	"io"
 	"log"
 	"net"
 	"time"
@@ -119,13 +121,13 @@ func process(c net.Conn, handler Function, timeout int) {
 		// Thus, first read 4 bytes (LEN)
 
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
-		i, err := c.Read(b4)
+		i, err := io.ReadFull(c, b4)
 
 		if i == 0 {
 			break
 		}
 
-		if err != nil || i != 4 {
+		if err != nil {
 			log.Println("ogdlrf.Serve, error while trying to read LEN,", i, err)
 			break
 		}
@@ -139,23 +141,15 @@ func process(c net.Conn, handler Function, timeout int) {
 
 		// Read the body of the message
 
-		buf := make([]byte, l)
-		if buf == nil {
-			log.Println("ogdlrf.Serve, cannot allocate memory for message")
-			break
-		}
-		i, err = c.Read(buf)
+		body := &bytes.Buffer{}
+		_, err = io.CopyN(body, c, int64(l))
 
 		if err != nil {
 			log.Println("ogdlrf.Serve, error reading message body, ", err)
 			break
 		}
 
-		if i != l {
-			log.Println("ogdlrf.Serve, error reading message body, LEN is", i, "should be", l)
-			break
-		}
-
+		buf := body.Bytes()
 		g := ogdl.FromBinary(buf)
 		if g == nil || g.Out == nil {
 			log.Println("ogdlrf.Serve, nothing in buf to produce a graph")
-- 
2.43.0


From 945887a4052c6c92cc1ed88cb6daf13fb95714d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 38/66] fix: the server (protocol 1) must not lose requests
 that arrive together

---
 ogdlrf/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index e60728f..25507b5 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -5,6 +5,7 @@
 package ogdlrf
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/binary"
 	"io"
@@ -186,12 +187,15 @@ func process1(c net.Conn, handler Function, timeout int) {
 
 	defer c.Close()
 
+	// One buffer per connection: it can hold the begin of the next request
+	rd := bufio.NewReader(c)
+
 	for {
 		// Set a time out (maximum time until next message)
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
 
 		// Read the incoming object
-		g := ogdl.FromBinaryReader(c)
+		g := ogdl.FromBinaryBufioReader(rd)
 
 		if g == nil {
 			break
-- 
2.43.0


From 04443b3d0bbf11b8379857d38767034a17582074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 39/66] fix: the client must accept responses that arrive in
 several segments

---
 ogdlrf/client.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 2945e95..cefcc90 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -5,9 +5,10 @@
 package ogdlrf
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
-
+	"io"
 	"log"
 	"net"
 	"time"
@@ -102,34 +103,22 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read header response
-	j, err := rf.conn.Read(b4)
-	if j != 4 {
+	_, err = io.ReadFull(rf.conn, b4)
+	if err != nil {
 		log.Println("error reading incomming message LEN")
 		return nil, errors.New("error in message header")
 	}
 	l := binary.BigEndian.Uint32(b4)
 
 	// Read body response
-	buf3 := make([]byte, 0, l)
-	tmp := make([]byte, 10000)
-	l2 := uint32(0)
-
-	for {
-		i, err = rf.conn.Read(tmp)
-		l2 += uint32(i)
-		if err != nil || i == 0 {
-			log.Println("Error reading body", l2, l, err)
-			return nil, err
-		}
-
-		buf3 = append(buf3, tmp[:i]...)
-
-		if l2 >= l {
-			break
-		}
+	body := &bytes.Buffer{}
+	l2, err := io.CopyN(body, rf.conn, int64(l))
+	if err != nil {
+		log.Println("Error reading body", l2, l, err)
+		return nil, err
 	}
 
-	g = ogdl.FromBinary(buf3)
+	g = ogdl.FromBinary(body.Bytes())
 
 	if g == nil || g.Len() == 0 {
 		return nil, errEmptyResponse
-- 
2.43.0


From 9886fa1f6d4edee77185425a90aa2ccf4481a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 40/66] fix: the client must close a connection on which a call
 failed

---
 ogdlrf/client.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index cefcc90..370b3e4 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -64,11 +64,12 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		if err == nil {
 			break
 		}
+		// The connection is broken, or could deliver this response later
+		rf.Close()
 		n--
 		if n < 0 {
 			break
 		}
-		rf.conn = nil
 	}
 
 	return r, err
@@ -135,12 +136,10 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 	n, err := rf.conn.Write(b)
 
 	if err != nil {
-		rf.conn = nil
 		log.Println("callv1", err)
 		return nil, err
 	}
 	if n != len(b) {
-		rf.conn = nil
 		log.Println("callv1", err)
 		return nil, errWriting
 	}
-- 
2.43.0


From 9a045b26036843f3d351a230145fdd95a5dbe383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 41/66] fix: gtemplate must not lose the data of the other
 files if the first is empty or missing

---
 cmd/gtemplate/main.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/gtemplate/main.go b/cmd/gtemplate/main.go
index 38bfbe8..c97430b 100644
--- a/cmd/gtemplate/main.go
+++ b/cmd/gtemplate/main.go
@@ -27,7 +27,7 @@ func main() {
 		return
 	}
 
-	var data *ogdl.Graph
+	data := ogdl.New("_")
 
 	t, _ := ioutil.ReadFile(flag.Args()[0])
 	tpl := ogdl.NewTemplate(string(t))
@@ -35,8 +35,6 @@ func main() {
 	for i, f := range flag.Args() {
 		switch i {
 		case 0:
-		case 1:
-			data = ogdl.FromFile(f)
 		default:
 			g := ogdl.FromFile(f)
 			data.AddNodes(g)
-- 
2.43.0


From 2baeb6c16305581e3bffac912d7615162a00b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 42/66] fix: simplifying @id nodes must not panic on absent
 graphs or on text that equals @id

---
 cmd/xml2ogdl/main.go | 4 ++--
 io/gxml/xml.go       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xml2ogdl/main.go b/cmd/xml2ogdl/main.go
index d71f2a3..e2adfce 100644
--- a/cmd/xml2ogdl/main.go
+++ b/cmd/xml2ogdl/main.go
@@ -49,7 +49,7 @@ func main() {
 }
 
 func simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -58,7 +58,7 @@ func simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
diff --git a/io/gxml/xml.go b/io/gxml/xml.go
index 5fd20b8..adb8722 100644
--- a/io/gxml/xml.go
+++ b/io/gxml/xml.go
@@ -13,7 +13,7 @@ import (
 )
 
 func Simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -22,7 +22,7 @@ func Simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
-- 
2.43.0


From 4c972c7f132cef75ddfc36d6338de91dd564fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 43/66] fix: JSON must not modify the graph while it runs

---
 encoding.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/encoding.go b/encoding.go
index ae60afd..3fb99d9 100644
--- a/encoding.go
+++ b/encoding.go
@@ -103,14 +103,11 @@ func (g *Graph) JSON() []byte {
 	var buf *bytes.Buffer
 	buf = new(bytes.Buffer)
 
-	// Temporarily set root to something different than _
-	i := g.This
-	g.This = ""
+	// Use a root that is something different than _ (the graph given may be in
+	// use elsewhere: do not modify it)
+	r := &Graph{"", g.Out}
 
-	g.json(buf)
-
-	// Restore root
-	g.This = i
+	r.json(buf)
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 9d014575abb00380cd75c07aa8e4ef4925c6c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 44/66] fix: JSON strings must be escaped and numbers exact

---
 encoding.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/encoding.go b/encoding.go
index 3fb99d9..3223e96 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,7 +9,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strings"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -160,11 +159,11 @@ func (g *Graph) json(buf *bytes.Buffer) {
 }
 
 func (g *Graph) writeString(buf *bytes.Buffer) {
-	s := g.ThisString()
-	buf.WriteByte('"')
-	s = strings.Replace(s, "\"", "\\\"", -1)
-	buf.WriteString(s)
-	buf.WriteByte('"')
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	enc.Encode(g.ThisString())
+	// Encode adds a newline
+	buf.Truncate(buf.Len() - 1)
 	buf.WriteByte(' ')
 }
 
@@ -176,7 +175,12 @@ func (g *Graph) writeValue(buf *bytes.Buffer) {
 	}
 	f, ok := _float64(g.This)
 	if ok {
-		buf.WriteString(fmt.Sprintf("%f ", f))
+		b, err := json.Marshal(f)
+		if err != nil {
+			b = []byte("null") // NaN, Inf
+		}
+		buf.Write(b)
+		buf.WriteByte(' ')
 		return
 	}
 	g.writeString(buf)
-- 
2.43.0


From deb0188f1c46cf7c484eecaf066de5304571694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 45/66] fix: JSON must have braces, commas and all keys

---
 encoding.go | 55 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/encoding.go b/encoding.go
index 3223e96..f3e9ce3 100644
--- a/encoding.go
+++ b/encoding.go
@@ -119,41 +119,50 @@ func (g *Graph) json(buf *bytes.Buffer) {
 		return
 	}
 
-	typ := 0
+	list := g.ThisString() == "_"
 
-	// Now, it is either a map or a list
-	if g.ThisString() == "_" {
-		typ = '['
+	// A single value
+	if !list && g.Len() == 1 && g.Out[0].Len() == 0 {
+		g.Out[0].writeValue(buf)
+		return
+	}
+
+	// Now, it is either a map or a list. A map has only keys with values.
+	for _, n := range g.Out {
+		if n.Len() == 0 || n.ThisString() == "_" {
+			list = true
+		}
+	}
+
+	if list {
 		buf.WriteString("[ ")
-	} else if g.Len() > 1 {
-		typ = '{'
+	} else {
 		buf.WriteString("{ ")
 	}
 
-	comma := false
-
-	for _, n := range g.Out {
-		if comma {
+	for i, n := range g.Out {
+		if i > 0 {
 			buf.WriteString(", ")
 		}
-		switch n.Len() {
-		case 0:
-			n.writeValue(buf)
-		case 1:
-			n.writeString(buf)
-			buf.WriteString(": ")
+		if n.Len() == 0 || n.ThisString() == "_" {
 			n.json(buf)
-			comma = true
-		default:
-			n.json(buf)
-			comma = true
+			continue
+		}
+		// A key with its value (in a list it needs its own map)
+		if list {
+			buf.WriteString("{ ")
+		}
+		n.writeString(buf)
+		buf.WriteString(": ")
+		n.json(buf)
+		if list {
+			buf.WriteByte('}')
 		}
 	}
 
-	switch typ {
-	case '[':
+	if list {
 		buf.WriteByte(']')
-	case '{':
+	} else {
 		buf.WriteByte('}')
 	}
 }
-- 
2.43.0


From db85f27c1f4569b1c7487c815a721aa47f3c789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 46/66] fix: FromJSON must return all elements of a list

---
 encoding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding.go b/encoding.go
index f3e9ce3..1aa4e2c 100644
--- a/encoding.go
+++ b/encoding.go
@@ -42,6 +42,11 @@ func FromJSON(buf []byte) (*Graph, error) {
 		return nil, err
 	}
 
+	// All elements of a list, not only the first one
+	if _, ok := v.([]interface{}); ok {
+		return toGraph(v), nil
+	}
+
 	return toGraph(v).GetAt(0), nil
 }
 
-- 
2.43.0


From 2ea7cb23b268ab43ad31aea0a4f0413786a35d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 47/66] fix: FromJSON must return the same graph each time

---
 encoding.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 1aa4e2c..38ef6ef 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
+	"sort"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -63,8 +64,15 @@ func toGraph(v interface{}) *Graph {
 		}
 	case map[string]interface{}:
 		n := g.Add("_")
-		for k, i := range v.(map[string]interface{}) {
-			n.Add(k).AddNodes(toGraph(i))
+		m := v.(map[string]interface{})
+		var keys []string
+		for k := range m {
+			keys = append(keys, k)
+		}
+		// The order of a Go map is random
+		sort.Strings(keys)
+		for _, k := range keys {
+			n.Add(k).AddNodes(toGraph(m[k]))
 		}
 	case json.Number:
 		// try first to decode the number as an integer.
-- 
2.43.0


From 9ba263758e0e72110504bfdbb5725e92a35380af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 48/66] fix: lines with less indentation than the first one
 must not be lost

---
 block.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/block.go b/block.go
index b00020d..6233014 100644
--- a/block.go
+++ b/block.go
@@ -23,10 +23,7 @@ func (p *Parser) Ogdl() {
 	if u == 0 {
 		return // Error
 	}
-	for i := n; i > 0; i-- {
-		p.UnreadByte()
-	}
-	p.tree(n, false)
+	p.root(n, false)
 }
 
 // OgdlTypes is the main function for parsing OGDL text.
@@ -41,10 +38,26 @@ func (p *Parser) OgdlTypes() {
 	if u == 0 {
 		return // Error
 	}
-	for i := n; i > 0; i-- {
+	p.root(n, true)
+}
+
+// root reads all lines. The first line has ns space (already read), following
+// ones can have less.
+func (p *Parser) root(ns int, types bool) {
+	for {
+		for i := ns; i > 0; i-- {
+			p.UnreadByte()
+		}
+		p.tree(ns, types)
+
+		// Stop if that was because of the end of the stream
 		p.UnreadByte()
+		if c, _ := p.Byte(); IsEndChar(c) {
+			return
+		}
+
+		ns, _ = p.Space()
 	}
-	p.tree(n, true)
 }
 
 // tree reads all lines with indentation >= ns
-- 
2.43.0


From d1541010c5f8b3e71cfbcb6bc0e654b7d5c7eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 49/66] fix: a selector that addresses a missing node gives nil

---
 eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eval.go b/eval.go
index e0ee2be..1a4cbc9 100644
--- a/eval.go
+++ b/eval.go
@@ -110,6 +110,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 						}
 					}
 				}
+				if ix > 0 {
+					return nil, ErrNotFound
+				}
 
 			}
 			ctxPrev = ctx
@@ -241,6 +244,9 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 						}
 					}
 				}
+				if ix > 0 {
+					return nil, nil
+				}
 
 			}
 			ctxPrev = ctx
-- 
2.43.0


From f746c372cc5f0bc401d2fca81cc3c9665b5aac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 50/66] fix: a dot after a variable at the end of a template
 was lost

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index fec90e1..b65a96e 100644
--- a/lexer.go
+++ b/lexer.go
@@ -113,12 +113,12 @@ func (p *Lexer) Error() error {
 // PeekByte returns the next byte witohut consuming it
 func (p *Lexer) PeekByte() byte {
 	c, err := p.Byte()
+	p.UnreadByte()
 
 	if err != nil {
 		return 0
 	}
 
-	p.UnreadByte()
 	return c
 }
 
-- 
2.43.0


From 8fe141d35cc29ff6ef1467cca54742bc8d4e23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 51/66] fix: setting a node to itself must not lose its
 subnodes

---
 graph.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index de3cf25..41f4b01 100644
--- a/graph.go
+++ b/graph.go
@@ -382,9 +382,12 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 		}
 	}
 
-	node.Out = nil
+	// The value can be the node itself
+	n := New(nil)
+	r := n.addNodes(val)
+	node.Out = n.Out
 
-	return node.addNodes(val)
+	return r
 }
 
 // Text is the OGDL text emitter. It converts a Graph into OGDL text.
-- 
2.43.0


From a363f45c072d2b3b6c3948cd52809e5967ff4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 52/66] fix: merging a graph with one that shares nodes must
 not empty those

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 41f4b01..434a085 100644
--- a/graph.go
+++ b/graph.go
@@ -563,7 +563,7 @@ func (g *Graph) Merge(src *Graph) {
 
 		if n == nil {
 			g.Add(node.Clone())
-		} else {
+		} else if n != node {
 			n.Out = nil
 			n.Merge(node)
 		}
-- 
2.43.0


From 780361cd25b661dc4971deadbf86b5e6bf65c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 53/66] fix: StringTxt must return the default instead of an
 empty string

---
 gettypes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gettypes.go b/gettypes.go
index 0965b35..1471895 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -188,6 +188,9 @@ func (g *Graph) StringTxt(def ...string) string {
 		s += " " + _string(n.This)
 	}
 
+	if len(s) <= 1 && len(def) > 0 {
+		return def[0]
+	}
 	return s[1:]
 }
 
-- 
2.43.0


From 90c106986a33f79d0d869b9cd26334ed31fa24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 54/66] fix: ThisString must return the default when there is
 no content

---
 gettypes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gettypes.go b/gettypes.go
index 1471895..dbecb88 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -205,7 +205,11 @@ func (g *Graph) ThisString(def ...string) string {
 		return def[0]
 	}
 
-	return _string(g.This)
+	s := _string(g.This)
+	if len(s) == 0 && len(def) > 0 {
+		return def[0]
+	}
+	return s
 }
 
 // Bytes returns the graph as []byte, or nil if not possble.
-- 
2.43.0


From 904b69f77db12bdd9ead43131d958b9cbef3d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 55/66] fix: an expression may begin with spaces

---
 expression.go | 1 +
 template.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/expression.go b/expression.go
index d608606..15ab8d3 100644
--- a/expression.go
+++ b/expression.go
@@ -12,6 +12,7 @@ package ogdl
 //	constant ::= quoted | number
 func NewExpression(s string) *Graph {
 	p := NewBytesParser([]byte(s))
+	p.Space()
 	p.Expression()
 	g := p.Graph()
 	g.This = TypeExpression
diff --git a/template.go b/template.go
index 860e503..1574efe 100644
--- a/template.go
+++ b/template.go
@@ -342,6 +342,7 @@ func (p *Parser) Variable() bool {
 	if c == '(' {
 		p.ev.Add(TypeExpression)
 		p.ev.Inc()
+		p.Space()
 		p.Expression()
 		p.Space()
 		p.Byte() // Should be ')'
-- 
2.43.0


From dbadb36566194c49ca8cb7f491e54ad1a4bff058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 56/66] fix: the result of a method called in a path can be
 followed further

---
 eval.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 1a4cbc9..701b5c5 100644
--- a/eval.go
+++ b/eval.go
@@ -166,6 +166,10 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 					if !ok {
 						return nil, ErrFunctionNoGraph
 					}
+					// the arguments have been used by the function
+					if p.GetAt(i+1).ThisString() == TypeArguments {
+						i++
+					}
 				}
 			}
 		}
@@ -316,7 +320,14 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 						return itf, nil
 					}
 					// fmt.Printf("evalPath function %s %d %d %d\n", pathElement, i, p.Len(), len(p.Out))
-					return itf, nil
+
+					// the arguments have been used by the function
+					if p.GetAt(i+1).ThisString() == TypeArguments {
+						i++
+					}
+					if i+1 >= p.Len() {
+						return itf, nil
+					}
 				}
 			}
 
-- 
2.43.0


From db8d1e6092d6c2c16f4902399f6b9429d4fe7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:35 +0000
Subject: [PATCH 57/66] fix: template text that looks like a node type must be
 printed

---
 template.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/template.go b/template.go
index 1574efe..d605b7e 100644
--- a/template.go
+++ b/template.go
@@ -312,6 +312,11 @@ func (p *Parser) Text() bool {
 	s, b := p.TemplateText()
 
 	if b {
+		// A text that looks like a node type is kept in parts
+		for len(s) > 1 && s[0] == '!' {
+			p.ev.Add(s[:1])
+			s = s[1:]
+		}
 		p.ev.Add(s)
 		return true
 	}
-- 
2.43.0


From e5545b7563caa4eafb11a1449eeb95de7bb41c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 58/66] fix: large unsigned integers are exported to JSON with
 their value

---
 encoding.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding.go b/encoding.go
index 38ef6ef..65ef6c3 100644
--- a/encoding.go
+++ b/encoding.go
@@ -190,6 +190,12 @@ func (g *Graph) writeString(buf *bytes.Buffer) {
 }
 
 func (g *Graph) writeValue(buf *bytes.Buffer) {
+	// These can be larger than any int64
+	switch g.This.(type) {
+	case uint, uint64:
+		buf.WriteString(fmt.Sprintf("%d ", g.This))
+		return
+	}
 	n, ok := _int64(g.This)
 	if ok {
 		buf.WriteString(fmt.Sprintf("%d ", n))
-- 
2.43.0


From 276a3c22cb00e6543267f80a09bf79292ab85a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 59/66] fix: undoing a repeated rune read at the end of the
 input moves back too far

---
 lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index b65a96e..645ed75 100644
--- a/lexer.go
+++ b/lexer.go
@@ -163,8 +163,9 @@ func (p *Lexer) UnreadByte() {
 func (p *Lexer) Rune() (rune, error) {
 
 	if p.lastByte < bufSize && p.r >= p.lastByte {
+		// The end is read (and unread) only once
+		p.lastRuneSize = append(p.lastRuneSize, p.lastByte+1-p.r)
 		p.r = p.lastByte + 1
-		p.lastRuneSize = append(p.lastRuneSize, 1)
 		return 0, ErrEOS
 	}
 
-- 
2.43.0


From 57bec669ad86ade9effebcc70f890f9c64ac6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 60/66] fix: setting an index too large to allocate must not
 panic

---
 graph.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graph.go b/graph.go
index 434a085..b3e47b9 100644
--- a/graph.go
+++ b/graph.go
@@ -307,6 +307,9 @@ func (g *Graph) Set(s string, val interface{}) *Graph {
 	return g.set(path, val)
 }
 
+// maxIndex is the last position up to which a list is extended when it is set
+const maxIndex = 1<<24 - 1
+
 // TODO: Clean this code:
 func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
@@ -330,6 +333,9 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 				return nil
 			}
 			if len(node.Out) <= ix {
+				if ix > maxIndex {
+					return nil
+				}
 				o := make([]*Graph, ix+1)
 				copy(o, node.Out)
 				for j := len(node.Out); j <= ix; j++ {
@@ -363,6 +369,9 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 					return nil
 				}
 				if len(node.Out) <= ix {
+					if ix > maxIndex {
+						return nil
+					}
 					o := make([]*Graph, ix+1)
 					copy(o, node.Out)
 					for j := len(node.Out); j <= ix; j++ {
-- 
2.43.0


From 1117f34a779be82b2ed249b34af725b24557f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 61/66] fix: calling a nil function must not panic

---
 function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/function.go b/function.go
index 0591df1..2956477 100644
--- a/function.go
+++ b/function.go
@@ -54,6 +54,10 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		//log.Println(runtime.FuncForPC(v.Pointer()).Name())
 		//log.Println(reflect.TypeOf(typ).String())
 
+		if v.IsNil() {
+			return nil, errors.New("nil function")
+		}
+
 		// Pre-evaluate
 		var args []interface{}
 
-- 
2.43.0


From 0019b2e4c3c330a6b7a3c05abb8ee0c1c5994546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 62/66] fix: names in expressions begin with a Unicode letter,
 not with a byte that looks like one (no endless loop)

---
 flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flow.go b/flow.go
index e3260f2..d1a75ff 100644
--- a/flow.go
+++ b/flow.go
@@ -175,9 +175,9 @@ func (p *Parser) Expression() bool {
 // UnaryExpression := cpath | constant | op1 cpath | op1 constant | '(' expr ')' | op1 '(' expr ')'
 func (p *Parser) UnaryExpression() bool {
 
-	c := p.PeekByte()
+	c, _ := p.PeekRune()
 
-	if IsLetter(rune(c)) {
+	if isTokenChar(c) && !(c >= '0' && c <= '9') {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
 		p.Path()
-- 
2.43.0


From 99441c7e2f22d3ad91e24bd0083d2c7b86b86baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:06 +0000
Subject: [PATCH 63/66] fix: a template loop over a node named [ visits its
 elements

---
 template.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index d605b7e..ea8da52 100644
--- a/template.go
+++ b/template.go
@@ -134,7 +134,8 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// IMPORTANT: in paths that end with an index the following step is needed.
 			// Indexes in paths return a '[' root on top of the result which must
 			// be removed in order to reach the iterable level.
-			if gi.ThisString() == "[" {
+			// (the elements can also be those of a node with that name)
+			if gi.ThisString() == "[" && n.GetAt(0).GetAt(1).endsInIndex() {
 				gi = gi.Out[0]
 			}
 
@@ -177,6 +178,14 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 	return false
 }
 
+// endsInIndex returns true if the expression is a path that ends with an index.
+func (g *Graph) endsInIndex() bool {
+	for g.ThisString() == TypeExpression && g.Len() == 1 {
+		g = g.GetAt(0)
+	}
+	return g.ThisString() == TypePath && g.GetAt(g.Len()-1).ThisString() == TypeIndex
+}
+
 // simplify converts !p TYPE in !TYPE for keywords if, end, else, elseif, for and break.
 func (g *Graph) simplify() {
 
-- 
2.43.0


From 744231e2ef4a01a1e8c0b0ac7c6f8d98eb829195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 64/66] fix: a graph can be copied into one of its own nodes

---
 graph.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/graph.go b/graph.go
index b3e47b9..6a3cecd 100644
--- a/graph.go
+++ b/graph.go
@@ -146,10 +146,8 @@ func (g *Graph) Copy(c *Graph) {
 	if g == nil || c == nil {
 		return
 	}
-	for _, n := range c.Out {
-		nn := g.Add(New(n.This))
-		nn.Copy(n)
-	}
+	// Clone first: the current graph can be part of the one given
+	g.AddNodes(c.Clone())
 }
 
 // Clone returns a copy of the current graph.
-- 
2.43.0


From 079bbc9c4b8c78f378ac5532d39586d286f3f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 65/66] fix: numbers that begin with a point are constants

---
 gettypes.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index dbecb88..60f2a90 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -711,12 +711,15 @@ func isNumber(s string) bool {
 	if len(s) == 0 {
 		return false
 	}
-	if !IsDigit(rune(s[0])) {
-		if len(s) < 2 || s[0] != '-' || !IsDigit(rune(s[1])) {
-			return false
-		}
+
+	i := 0
+	if s[i] == '-' {
+		i++
 	}
-	return true
+	if i < len(s) && s[i] == '.' {
+		i++
+	}
+	return i < len(s) && IsDigit(rune(s[i]))
 }
 
 // IsInteger returns true for strings containing exclusively digits, with an
-- 
2.43.0


From 9c01b5fdafae1e0342b9827c71bf11ee1b0a652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:10 +0000
Subject: [PATCH 66/66] fix: SpaceMax consumed more than max characters of
 mixed space

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 645ed75..557607c 100644
--- a/lexer.go
+++ b/lexer.go
@@ -341,7 +341,7 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 		} else {
 			tabs++
 		}
-		if spaces == max || tabs == max {
+		if spaces+tabs == max {
 			break
 		}
 	}
-- 
2.43.0

