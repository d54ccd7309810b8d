From 44dd96f71242c28b169ff792a2877b743bfa7e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 01/31] fix: give every parse and subset option its own bit

---
 interface.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interface.go b/interface.go
index 8c9fb1f..9acc20e 100644
--- a/interface.go
+++ b/interface.go
@@ -12,7 +12,7 @@ const (
 type LoadSubsetOption int
 
 const (
-	DetectIDs LoadSubsetOption = 1<<iota+1
+	DetectIDs LoadSubsetOption = 1 << (iota + 1)
 	CompleteAttrs
 	SkipIDs
 )
@@ -31,7 +31,7 @@ const (
 	ParsePedantic                          /* pedantic error reporting */
 	ParseNoBlanks                          /* remove blank nodes */
 	// gap here: ParseSAX1 is not implemented
-	ParseXInclude   ParseOption = 1<<iota + 10 /* Implement XInclude substitition  */
+	ParseXInclude   ParseOption = 1 << (iota + 1) /* Implement XInclude substitition  */
 	ParseNoNet                                 /* Forbid network access */
 	ParseNoDict                                /* Do not reuse the context dictionnary */
 	ParseNsClean                               /* remove redundant namespaces declarations */
@@ -39,11 +39,11 @@ const (
 	ParseNoXIncNode                            /* do not generate XINCLUDE START/END nodes */
 	ParseCompact                               /* compact small text nodes; no modification of the tree allowed afterwards (will possibly crash if you try to modify the tree) */
 	// ParseOld10 is not implemented
-	ParseNoBaseFix /* do not fixup XINCLUDE xml:base uris */
-	ParseHuge      /* relax any hardcoded limit from the parser */
+	ParseNoBaseFix ParseOption = 1 << (iota + 2) /* do not fixup XINCLUDE xml:base uris */
+	ParseHuge                                    /* relax any hardcoded limit from the parser */
 	// ParseOldSAX is not implemented
-	ParseIgnoreEnc ParseOption = 1<<iota + 21 /* ignore internal document encoding hint */
-	ParseBigLines  ParseOption = 1 << 22      /* Store big lines numbers in text PSVI field */
+	ParseIgnoreEnc ParseOption = 1 << 21 /* ignore internal document encoding hint */
+	ParseBigLines  ParseOption = 1 << 22 /* Store big lines numbers in text PSVI field */
 )
 
 type AttributeType int
-- 
2.43.0


From 8185b3cafce9ee631894bc090bc38e39422254af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 02/31] fix: pass the Error handler its arguments one by one

---
 sax/gencbsax.pl | 2 +-
 sax/sax2.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sax/gencbsax.pl b/sax/gencbsax.pl
index 70ae3ee..6990813 100644
--- a/sax/gencbsax.pl
+++ b/sax/gencbsax.pl
@@ -79,7 +79,7 @@ foreach my $func (@handler_funcs) {
         join ", ",
             map { $_ eq "error" ? "ErrHandlerUnspecified" : $_ eq "bool" ? "false" : "nil" }
             split /\s*,\s*/, $ret =~ s{\(([^\)]+)\)}{$1}r;
-    my $bare_args = join ", ", map { (split /\s+/, $_)[0] } split /\s*,\s*/, $args;
+    my $bare_args = join ", ", map { my ($n, $t) = split /\s+/, $_; $t =~ /^\.\.\./ ? "$n..." : $n } split /\s*,\s*/, $args;
     print $out <<EOM
 func (s $klass) $func($args) $ret {
 \tif h := s.${func}Handler; h != nil {
diff --git a/sax/sax2.go b/sax/sax2.go
index 54f2d7b..3f3a61e 100644
--- a/sax/sax2.go
+++ b/sax/sax2.go
@@ -132,7 +132,7 @@ func (s SAX2) EntityDecl(ctx Context, name string, typ int, publicID string, sys
 
 func (s SAX2) Error(ctx Context, message string, args ...interface{}) error {
 	if h := s.ErrorHandler; h != nil {
-		return h(ctx, message, args)
+		return h(ctx, message, args...)
 	}
 	return ErrHandlerUnspecified;
 }
-- 
2.43.0


From b63b834c64c6022eea5641962fc58e397849ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 03/31] fix: parse the XML declaration strictly, with blanks
 wherever they are allowed

---
 parserctx.go | 56 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index a11dde6..7760817 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -407,7 +407,7 @@ func (ctx *parserCtx) parseDocument() error {
 	}
 
 	// XML prolog
-	if bcur.HasPrefix(xmlDeclHint) {
+	if bcur.HasPrefix(xmlDeclHint) && isBlankCh(rune(bcur.PeekN(len(xmlDeclHint)+1))) {
 		if err := ctx.parseXMLDecl(); err != nil {
 			return ctx.error(err)
 		}
@@ -1138,12 +1138,11 @@ func (ctx *parserCtx) skipBlankBytes(cur *strcursor.ByteCursor) bool {
 			g.IRelease("END skipBlankBytes (skipped %d)", i)
 		}()
 	}
-	for c := cur.PeekN(i + 1); c != 0x0 && isBlankCh(rune(c)); c = cur.PeekN(i + 1) {
+	for isBlankCh(rune(cur.Peek())) {
+		cur.Advance(1)
 		i++
 	}
 	if i > 0 {
-		cur.Advance(i)
-
 		if cur.Peek() == '%' {
 			pdebug.Printf("Found possible parameter entity reference")
 			ctx.handlePEReference()
@@ -1174,47 +1173,56 @@ func (ctx *parserCtx) parseXMLDecl() error {
 	}
 	ctx.version = v
 
-	if !isBlankCh(rune(cur.Peek())) {
-		// if the next character isn't blank, we expect the
-		// end of XML decl, so return success
-		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-			cur.Advance(2)
-			return nil
-		}
-
-		// otherwise, we just saw something unexpected
+	blanks := ctx.skipBlankBytes(cur)
+	if ctx.consumeXMLDeclEnd(cur) {
+		return nil
+	}
+	if !blanks {
+		// we just saw something unexpected
 		return ctx.error(ErrSpaceRequired)
 	}
 
 	// we *may* have encoding decl
-	v, err = ctx.parseEncodingDecl()
-	if err == nil {
+	if cur.HasPrefix(encodingBytes) {
+		v, err = ctx.parseEncodingDecl()
+		if err != nil {
+			return ctx.error(err)
+		}
 		// ctx.encoding contains the explicit encoding specified
 		ctx.encoding = v
 
 		// if the encoding decl is found, then we *could* have
 		// the end of the XML declaration
-		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-			cur.Advance(2)
+		blanks = ctx.skipBlankBytes(cur)
+		if ctx.consumeXMLDeclEnd(cur) {
 			return nil
 		}
-	} else if _, ok := err.(ErrAttrNotFound); ok {
-		return ctx.error(err)
+		if !blanks {
+			return ctx.error(ErrSpaceRequired)
+		}
 	}
 
 	vb, err := ctx.parseStandaloneDecl()
 	if err != nil {
-		return err
+		return ctx.error(err)
 	}
 	ctx.standalone = vb
 
-	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-		cur.Advance(2)
+	ctx.skipBlankBytes(cur)
+	if ctx.consumeXMLDeclEnd(cur) {
 		return nil
 	}
 	return ctx.error(errors.New("XML declaration not closed"))
 }
 
+func (ctx *parserCtx) consumeXMLDeclEnd(cur *strcursor.ByteCursor) bool {
+	if cur.Peek() != '?' || cur.PeekN(2) != '>' {
+		return false
+	}
+	cur.Advance(2)
+	return true
+}
+
 func (e ErrAttrNotFound) Error() string {
 	return "attribute token '" + e.Token + "' not found"
 }
@@ -1279,8 +1287,6 @@ func (ctx *parserCtx) parseNamedAttributeBytes(name []byte, valueParser qtextHan
  *
  * [26] VersionNum ::= '1.' [0-9]+
  *
- * In practice allow [0-9].[0-9]+ at that level
- *
  * Returns the string giving the XML version number
  */
 func (ctx *parserCtx) parseVersionNum(_ rune) (string, error) {
@@ -1289,7 +1295,7 @@ func (ctx *parserCtx) parseVersionNum(_ rune) (string, error) {
 		return "", ErrByteCursorRequired
 	}
 
-	if v := cur.Peek(); v > '9' || v < '0' {
+	if cur.Peek() != '1' {
 		return "", ErrInvalidVersionNum
 	}
 
-- 
2.43.0


From ac749834ebeea73a874cd321df973af0af0d33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 04/31] fix: read iso-8859-1 as ISO-8859-1, and know koi8u by
 its name

---
 encoding/encoding.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 9bce45e..a3fe32a 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -62,7 +62,7 @@ func Load(name string) enc.Encoding {
 		return charmap.ISO8859_8
 	case "koi8r":
 		return charmap.KOI8R
-	case "koir8u":
+	case "koi8u", "koir8u":
 		return charmap.KOI8U
 	case "macintosh":
 		return charmap.Macintosh
@@ -72,7 +72,9 @@ func Load(name string) enc.Encoding {
 		return charmap.Windows1250
 	case "windows1251":
 		return charmap.Windows1251
-	case "iso-8859-1", "windows1252":
+	case "iso-8859-1":
+		return charmap.ISO8859_1
+	case "windows1252":
 		return charmap.Windows1252
 	case "windows1253":
 		return charmap.Windows1253
-- 
2.43.0


From 9d86b04370dc4b6e7696ec41b495ef263e49d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 05/31] fix: normalise line endings, and never accept input
 that could not be decoded

---
 parser_interface.go |  2 ++
 parserctx.go        | 60 +++++++++++++++++++++++++++++++++++++++------
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/parser_interface.go b/parser_interface.go
index 9f36949..c63506d 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -114,6 +114,8 @@ type parserCtx struct {
 	// <?xml version="1.0"?> vs <?xml version="1.0" encoding="utf-8"?>
 	encoding          string
 	detectedEncoding  string
+	hasBOM            bool            // was there an UTF-8 byte order mark
+	input             *documentReader // the decoded document
 	in                io.Reader
 	nbread            int
 	instate           parserState
diff --git a/parserctx.go b/parserctx.go
index 7760817..a3cf055 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -313,6 +313,7 @@ func (ctx *parserCtx) detectEncoding() (encoding string, err error) {
 	}
 
 	if cur.Consume(patUTF8) {
+		ctx.hasBOM = true
 		encoding = encUTF8
 		return
 	}
@@ -343,7 +344,9 @@ func (ctx *parserCtx) switchEncoding() error {
 	}
 
 	encName := ctx.encoding
-	if encName == "" {
+	if encName == "" || ctx.hasBOM || ctx.detectedEncoding != encUTF8 {
+		// a byte order mark (or a byte pattern that no ASCII compatible
+		// encoding can produce) beats the encoding declaration
 		encName = ctx.detectedEncoding
 		if encName == "" {
 			encName = "utf8"
@@ -363,13 +366,59 @@ func (ctx *parserCtx) switchEncoding() error {
 		return ErrByteCursorRequired
 	}
 
-	b := enc.NewDecoder().Reader(cur)
+	ctx.input = &documentReader{in: enc.NewDecoder().Reader(cur)}
 	ctx.popInput()
-	ctx.pushInput(strcursor.NewRuneCursor(b))
+	ctx.pushInput(strcursor.NewRuneCursor(ctx.input))
 
 	return nil
 }
 
+// documentReader sits between the decoder and the cursor. It turns every
+// CRLF and every lone CR into a single LF (XML 1.0 section 2.11), and
+// remembers if the decoder had to substitute something that it could not
+// decode: the cursor takes that for the end of the input.
+type documentReader struct {
+	in      io.Reader
+	lastCR  bool
+	matched int
+	invalid bool
+}
+
+func (r *documentReader) Read(p []byte) (int, error) {
+	for {
+		n, err := r.in.Read(p)
+		o := 0
+		for _, b := range p[:n] {
+			if b == '\n' && r.lastCR {
+				r.lastCR = false
+				continue
+			}
+			r.lastCR = b == '\r'
+			if r.lastCR {
+				b = '\n'
+			}
+
+			// U+FFFD is 0xEF 0xBF 0xBD
+			switch {
+			case b == 0xEF:
+				r.matched = 1
+			case r.matched == 1 && b == 0xBF:
+				r.matched = 2
+			default:
+				if r.matched == 2 && b == 0xBD {
+					r.invalid = true
+				}
+				r.matched = 0
+			}
+			p[o] = b
+			o++
+		}
+		if o > 0 || n == 0 || err != nil {
+			return o, err
+		}
+	}
+}
+
 var xmlDeclHint = []byte{'<', '?', 'x', 'm', 'l'}
 
 func (ctx *parserCtx) parseDocument() error {
@@ -486,7 +535,7 @@ func (ctx *parserCtx) parseDocument() error {
 		if err := ctx.parseMisc(); err != nil {
 			return ctx.error(err)
 		}
-		if !cur.Done() {
+		if !cur.Done() || ctx.input.invalid {
 			return ctx.error(ErrDocumentEnd)
 		}
 		ctx.instate = psEOF
@@ -627,9 +676,6 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 
 	cur.Advance(i)
 	str := buf.String()
-
-	// XXX This is not right, but it's for now the best place to do this
-	str = strings.Replace(str, "\r\n", "\n", -1)
 	if ctx.instate == psCDATA {
 		if s := ctx.sax; s != nil {
 			switch err := s.CDataBlock(ctx.userData, []byte(str)); err {
-- 
2.43.0


From 139eee4bbb4af306ba865ed710818534dba0dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 06/31] fix: accept exactly the name characters of XML 1.0, and
 stop at the end of a name token

---
 parserctx.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index a3cf055..053533a 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1663,7 +1663,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 
 	// first letter
 	c := cur.Peek()
-	if c == ' ' || c == '>' || c == '/' || /* accelerators */ (!unicode.IsLetter(c) && c != '_' && c != ':') {
+	if c == ' ' || c == '>' || c == '/' || /* accelerators */ !isNameStartChar(c) {
 		err = ctx.error(fmt.Errorf("invalid first letter '%c'", c))
 		return
 	}
@@ -1675,7 +1675,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 			i--
 			break
 		}
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '.' && c != '-' && c != '_' && c != ':' /* && !isCombining(c) && !isExtender(c) */ {
+		if !isNameChar(c) {
 			i--
 			break
 		}
@@ -1766,14 +1766,23 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	return
 }
 
+// [4] NameStartChar (XML 1.0, fifth edition)
 func isNameStartChar(r rune) bool {
-	return unicode.IsLetter(r) || r == '_' || r == ':'
+	if r < 0x80 {
+		return r == ':' || r == '_' || ('a' <= r && r <= 'z') || ('A' <= r && r <= 'Z')
+	}
+	return (0xc0 <= r && r <= 0x2ff && r != 0xd7 && r != 0xf7) ||
+		(0x370 <= r && r <= 0x1fff && r != 0x37e) ||
+		(0x200c <= r && r <= 0x200d) || (0x2070 <= r && r <= 0x218f) ||
+		(0x2c00 <= r && r <= 0x2fef) || (0x3001 <= r && r <= 0xd7ff) ||
+		(0xf900 <= r && r <= 0xfdcf) || (0xfdf0 <= r && r <= 0xfffd && r != utf8.RuneError) ||
+		(0x10000 <= r && r <= 0xeffff)
 }
 
+// [4a] NameChar (XML 1.0, fifth edition)
 func isNameChar(r rune) bool {
-	return r == '.' || r == '-' || r == '_' || r == ':' ||
-		unicode.IsLetter(r) || unicode.IsDigit(r) ||
-		unicode.In(r, unicode.Extender)
+	return isNameStartChar(r) || r == '.' || r == '-' || ('0' <= r && r <= '9') ||
+		r == 0xb7 || (0x300 <= r && r <= 0x36f) || (0x203f <= r && r <= 0x2040)
 }
 
 /**
@@ -1799,12 +1808,14 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	for c := cur.PeekN(i); c != 0x0; i++ {
-		if !isNameChar(c) {
-			break
-		}
+	for c := cur.PeekN(i); isNameChar(c); c = cur.PeekN(i) {
 		buf.WriteRune(c)
+		i++
+	}
+	if i <= 1 {
+		return "", ctx.error(ErrNmtokenRequired)
 	}
+	cur.Advance(i - 1)
 
 	return buf.String(), nil
 }
@@ -1840,7 +1851,7 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	defer releaseBuffer(buf)
 
 	var c rune
-	if c = cur.Peek(); c == ' ' || c == '>' || c == '/' || !isNameStartChar(c) {
+	if c = cur.Peek(); c == ' ' || c == '>' || c == '/' || c == ':' || !isNameStartChar(c) {
 		err = ctx.error(errors.New("invalid name start char"))
 		return
 	}
@@ -1850,7 +1861,7 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	// see how much more we got here
 	i := 2
 	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
+		if c == ':' || !isNameChar(c) {
 			i--
 			break
 		}
-- 
2.43.0


From e3ba7b6fe0a4dfe71d25c5bbb7495fffccc4e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 07/31] fix: keep CDATA text, and reject unterminated comments
 and reserved PI targets

---
 comment.go   |  2 +-
 parserctx.go | 25 ++++++++++++++-----------
 tree.go      |  4 ++--
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/comment.go b/comment.go
index eb00975..01e6c86 100644
--- a/comment.go
+++ b/comment.go
@@ -3,7 +3,7 @@ package helium
 func newComment(b []byte) *Comment {
 	t := Comment{}
 	t.etype = CommentNode
-	t.content = b
+	t.content = append([]byte(nil), b...)
 	return &t
 }
 
diff --git a/parserctx.go b/parserctx.go
index 053533a..32391fc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -651,10 +651,8 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 
 	i := 0
 	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
-		if !cdata {
-			if c == '<' || c == '&' || !isChar(c) {
-				break
-			}
+		if !isChar(c) || (!cdata && (c == '<' || c == '&')) {
+			break
 		}
 
 		if c == ']' && cur.PeekN(i+2) == ']' && cur.PeekN(i+3) == '>' {
@@ -670,8 +668,7 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	}
 
 	if i <= 0 {
-		pdebug.Dump(cur)
-		return errors.New("Invalid char data")
+		return ctx.error(errors.New("Invalid char data"))
 	}
 
 	cur.Advance(i)
@@ -1888,7 +1885,7 @@ func (ctx *parserCtx) parsePITarget() (string, error) {
 		return "", ctx.error(err)
 	}
 
-	if name == "xml" {
+	if strings.ToLower(name) == "xml" {
 		return "", errors.New("XML declaration allowed only at the start of the document")
 	}
 
@@ -2002,8 +1999,10 @@ func (ctx *parserCtx) parseCDSect() error {
 	ctx.instate = psCDATA
 	defer func() { ctx.instate = psContent }()
 
-	if err := ctx.parseCharData(true); err != nil {
-		return ctx.error(err)
+	if !cur.HasPrefixString("]]>") {
+		if err := ctx.parseCharData(true); err != nil {
+			return ctx.error(err)
+		}
 	}
 
 	if !cur.ConsumeString("]]>") {
@@ -2054,14 +2053,18 @@ func (ctx *parserCtx) parseComment() error {
 		i++
 	}
 
+	if q != '-' || r != '-' || cur.PeekN(i+1) != '>' {
+		cur.Advance(i)
+		return ctx.error(ErrInvalidComment)
+	}
+
 	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
 	buf.Truncate(buf.Len() - 2)
-	str := buf.Bytes()
+	str := append([]byte(nil), buf.Bytes()...)
 	// i+1 because '>' was not consumed in the loop
 	cur.Advance(i + 1)
 
 	if sh := ctx.sax; sh != nil {
-		str = bytes.Replace(str, []byte{'\r', '\n'}, []byte{'\n'}, -1)
 		switch err := sh.Comment(ctx, str); err {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
diff --git a/tree.go b/tree.go
index d1cfd2a..ce08888 100644
--- a/tree.go
+++ b/tree.go
@@ -175,12 +175,12 @@ func (t *TreeBuilder) Characters(ctxif sax.Context, data []byte) error {
 	return n.AddContent(data)
 }
 
-func (t *TreeBuilder) CDataBlock(_ sax.Context, data []byte) error {
+func (t *TreeBuilder) CDataBlock(ctxif sax.Context, data []byte) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START tree.CDATABlock")
 		defer g.IRelease("END tree.CDATABlock")
 	}
-	return nil
+	return t.Characters(ctxif, data)
 }
 
 func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
-- 
2.43.0


From e65b8447906556aae01fa21bfaff5be5024c5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 08/31] fix: scope namespace bindings to their element, and
 check attributes and end tags strictly

---
 parserctx.go | 54 ++++++++++++++++++++++++++++++++++++----------------
 stack.go     |  4 +++-
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 32391fc..59b24d4 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -140,6 +140,10 @@ func (ctx *parserCtx) popNode() (elem *Element) {
 }
 
 func (ctx *parserCtx) lookupNamespace(prefix string) string {
+	if prefix == XMLPrefix {
+		// always bound, and can't be bound to anything else
+		return XMLNamespace
+	}
 	return ctx.nsTab.Lookup(prefix)
 }
 
@@ -713,6 +717,10 @@ func (ctx *parserCtx) parseElement() error {
 		defer g.IRelease("END parseElement (%d)", i)
 	}
 
+	// namespaces declared in this element are gone when it ends
+	nsLen := ctx.nsTab.Len()
+	defer func() { ctx.nsTab.Pop(ctx.nsTab.Len() - nsLen) }()
+
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
@@ -738,6 +746,13 @@ func (ctx *parserCtx) parseElement() error {
 	return nil
 }
 
+func joinQName(prefix, local string) string {
+	if prefix == "" {
+		return local
+	}
+	return prefix + ":" + local
+}
+
 func (ctx *parserCtx) parseStartTag() error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseStartTag")
@@ -766,7 +781,9 @@ func (ctx *parserCtx) parseStartTag() error {
 		return ctx.error(err)
 	}
 
+	elemName := joinQName(prefix, local)
 	nbNs := 0
+	names := []string{}
 	attrs := []sax.Attribute{}
 	for ctx.instate != psEOF {
 		ctx.skipBlanks()
@@ -778,11 +795,19 @@ func (ctx *parserCtx) parseStartTag() error {
 		if cur.Peek() == '/' && cur.PeekN(2) == '>' {
 			break
 		}
-		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
+		attname, aprefix, attvalue, err := ctx.parseAttribute(elemName)
 		if err != nil {
 			return ctx.error(err)
 		}
 
+		fullname := joinQName(aprefix, attname)
+		for _, seen := range names {
+			if seen == fullname {
+				return ctx.error(fmt.Errorf("duplicate attribute '%s' is not allowed", fullname))
+			}
+		}
+		names = append(names, fullname)
+
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
 			ctx.pushNS("", attvalue)
@@ -796,6 +821,7 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(ErrSpaceRequired)
 			}
 			ctx.skipBlanks()
+			continue
 		} else if aprefix == XMLNsPrefix {
 			var u *url.URL // predeclare, so we can use goto SkipNS
 
@@ -827,9 +853,6 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
-			if ctx.nsTab.Lookup(attname) != "" {
-				return ctx.error(errors.New("duplicate attribute is not allowed"))
-			}
 			ctx.pushNS(attname, attvalue)
 			nbNs++
 
@@ -855,18 +878,15 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 
 		attrs = append(attrs, attr)
+
+		if cur.Peek() != '>' && !cur.HasPrefixString("/>") && !isBlankCh(cur.Peek()) {
+			return ctx.error(ErrSpaceRequired)
+		}
 	}
 
 	// attributes defaulting
 	// XXX Punting a lot of stuff here. See xmlParseStartTag2
 	if len(ctx.attsDefault) > 0 {
-		var elemName string
-		if prefix != "" {
-			elemName = prefix + ":" + local
-		} else {
-			elemName = local
-		}
-
 		if pdebug.Enabled {
 			pdebug.Printf("-------> %s", elemName)
 		}
@@ -935,10 +955,11 @@ func (ctx *parserCtx) parseEndTag() error {
 		}
 
 		e := ctx.peekNode()
-		if !cur.ConsumeString(e.Name()) {
+		if name, err := ctx.parseName(); err != nil || name != e.Name() {
 			return ctx.error(errors.New("expected end tag '" + e.Name() + "'"))
 		}
 
+		ctx.skipBlanks()
 		if cur.Peek() != '>' {
 			return ctx.error(ErrGtRequired)
 		}
@@ -965,9 +986,9 @@ func (ctx *parserCtx) parseAttributeValue(normalize bool) (value string, entitie
 		defer g.IRelease("END parseAttributeValue")
 	}
 
-	ctx.parseQuotedText(func(qch rune) (string, error) {
-		value, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
-		return "", nil
+	value, err = ctx.parseQuotedText(func(qch rune) (v string, err error) {
+		v, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
+		return
 	})
 	return
 }
@@ -1093,7 +1114,7 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 
 	normalize := false
-	attType, ok := ctx.lookupSpecialAttribute(elemName, l)
+	attType, ok := ctx.lookupSpecialAttribute(elemName, joinQName(p, l))
 	if pdebug.Enabled {
 		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, l, attType, ok)
 	}
@@ -1108,6 +1129,7 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 	if cur.Peek() != '=' {
 		err = ctx.error(ErrEqualSignRequired)
+		return
 	}
 	cur.Advance(1)
 	ctx.skipBlanks()
diff --git a/stack.go b/stack.go
index 6d57cf8..6b02b5b 100644
--- a/stack.go
+++ b/stack.go
@@ -37,8 +37,10 @@ func newNsStack() nsStack {
 	return nsStack{}
 }
 
+// Push adds a binding. The prefix may already be bound by an enclosing
+// element, in which case the new binding shadows the old one.
 func (s *nsStack) Push(prefix, uri string) {
-	s.UniqueStack.Push(nsStackItem{prefix: prefix, href: uri})
+	s.UniqueStack = append(s.UniqueStack, nsStackItem{prefix: prefix, href: uri})
 }
 
 func (s *nsStack) Lookup(prefix string) string {
-- 
2.43.0


From 5f1cf75c63c33c97cd6861552ba9b2de80d2aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 09/31] fix: reject character references that overflow, or lack
 digits or the semicolon

---
 document.go  |  6 +++++-
 parserctx.go | 55 ++++++++++++++++++++++++++++------------------------
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/document.go b/document.go
index 1feb434..6ecc1ed 100644
--- a/document.go
+++ b/document.go
@@ -370,12 +370,16 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				rdr.UnreadRune()
 				accumulator = accumulateDecimalCharRef
 			}
-			for {
+			for digits := 0; ; digits++ {
 				r, _, err = rdr.ReadRune()
 				if err != nil {
 					return
 				}
 				if r == ';' {
+					if digits == 0 || !isChar(charval) {
+						err = ErrInvalidChar
+						return
+					}
 					break
 				}
 				charval, err = accumulator(charval, r)
diff --git a/parserctx.go b/parserctx.go
index 59b24d4..32622a9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4477,6 +4477,9 @@ func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid decimal CharRef")
 	}
+	if val > unicode.MaxRune {
+		return 0, errors.New("decimal CharRef out of range")
+	}
 	return val, nil
 }
 
@@ -4490,6 +4493,9 @@ func accumulateHexCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid hex CharRef")
 	}
+	if val > unicode.MaxRune {
+		return 0, errors.New("hex CharRef out of range")
+	}
 	return val, nil
 }
 
@@ -4513,6 +4519,13 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	width += 2
 	s = s[2:]
 
+	end := bytes.IndexByte(s, ';')
+	if end < 1 || end == 1 && s[0] == 'x' {
+		err = errors.New("invalid CharRef: no digits, or not terminated by ';'")
+		width = 0
+		return
+	}
+
 	var accumulator func(int32, rune) (int32, error)
 	if s[0] == 'x' {
 		s = s[1:]
@@ -4528,11 +4541,6 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 			width = 0
 			return
 		}
-		if rune(val) > unicode.MaxRune {
-			err = errors.New("hex CharRef out of range")
-			width = 0
-			return
-		}
 
 		s = s[1:]
 		width++
@@ -4842,43 +4850,40 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
+	digits := 0
 	if cur.ConsumeString("&#x") {
 		for c := cur.Peek(); !cur.Done() && c != ';'; c = cur.Peek() {
-			if c >= '0' && c <= '9' {
-				val = val*16 + (c - '0')
-			} else if c >= 'a' && c <= 'f' {
-				val = val*16 + (c - 'a') + 10
-			} else if c >= 'A' && c <= 'F' {
-				val = val*16 + (c - 'A') + 10
-			} else {
-				err = errors.New("invalid hex CharRef")
+			val, err = accumulateHexCharRef(val, c)
+			if err != nil {
 				return
 			}
 			cur.Advance(1)
-		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+			digits++
 		}
 	} else if cur.ConsumeString("&#") {
 		for !cur.Done() && cur.Peek() != ';' {
-			c := cur.Peek()
-			if c >= '0' && c <= '9' {
-				val = val*10 + (c - '0')
-			} else {
-				err = errors.New("invalid decimal CharRef")
+			val, err = accumulateDecimalCharRef(val, cur.Peek())
+			if err != nil {
 				return
 			}
 			cur.Advance(1)
-		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+			digits++
 		}
 	} else {
 		err = errors.New("invalid char ref")
 		return
 	}
+	if digits == 0 {
+		err = errors.New("invalid CharRef: no digits")
+		return
+	}
+	if cur.Peek() != ';' {
+		err = ErrSemicolonRequired
+		return
+	}
+	cur.Advance(1)
 
-	if isChar(val) && val <= unicode.MaxRune {
+	if isChar(val) {
 		r = rune(val)
 		return
 	}
-- 
2.43.0


From 6925e57f6eab6d6e5b323340eb45dddb24b85bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 10/31] fix: keep entity declarations out of their references'
 child lists, and complete created nodes

---
 attr.go      |  7 ++++++
 document.go  | 52 +++++++++++++++++--------------------------
 dtd.go       |  5 +++++
 node.go      |  5 +++++
 reference.go | 63 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 100 insertions(+), 32 deletions(-)

diff --git a/attr.go b/attr.go
index 080f304..2f4bf69 100644
--- a/attr.go
+++ b/attr.go
@@ -28,6 +28,7 @@ func (n *AttributeDecl) SetTreeDoc(doc *Document) {
 
 func newAttribute(name string, ns *Namespace) *Attribute {
 	attr := &Attribute{}
+	attr.etype = AttributeNode
 	attr.name = name
 	attr.ns = ns
 	return attr
@@ -76,9 +77,15 @@ func (n Attribute) Value() string {
 }
 
 func (n Attribute) Prefix() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.Prefix()
 }
 
 func (n Attribute) URI() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.URI()
 }
diff --git a/document.go b/document.go
index 6ecc1ed..4a970cc 100644
--- a/document.go
+++ b/document.go
@@ -122,11 +122,8 @@ func (d *Document) CreateReference(name string) (*EntityRef, error) {
 	ent, ok := d.GetEntity(n.name)
 	if ok {
 		n.content = []byte(ent.content)
-		// Original code says:
-		// The parent pointer in entity is a DTD pointer and thus is NOT
-		// updated.  Not sure if this is 100% correct.
-		n.setFirstChild(ent)
-		n.setLastChild(ent)
+		// Unlike the original code, the entity doesn't become a child of
+		// the reference: it stays where it was declared. See Content()
 	}
 
 	return n, nil
@@ -153,11 +150,12 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 			n.SetParent(attr)
 			x := n.NextSibling()
 			if x == nil {
-				n.setLastChild(x)
+				attr.setLastChild(n)
 			}
 			n = x
 		}
 	}
+	attr.doc = d
 	return attr, nil
 }
 
@@ -168,10 +166,13 @@ func (d *Document) CreateNamespace(prefix, uri string) (*Namespace, error) {
 }
 
 func (d *Document) CreatePI(target, data string) (*ProcessingInstruction, error) {
-	return &ProcessingInstruction{
+	pi := &ProcessingInstruction{
 		target: target,
 		data:   data,
-	}, nil
+	}
+	pi.name = target
+	pi.doc = d
+	return pi, nil
 }
 
 func (d *Document) CreateDTD() (*DTD, error) {
@@ -259,8 +260,9 @@ func (d *Document) GetEntity(name string) (ent *Entity, found bool) {
 		if pdebug.Enabled {
 			pdebug.Printf("Looking into internal subset...")
 		}
-		ent, found = ints.LookupEntity(name)
-		return
+		if ent, found = ints.LookupEntity(name); found {
+			return
+		}
 	}
 
 	if exts := d.extSubset; exts != nil {
@@ -276,7 +278,9 @@ func (d *Document) GetEntity(name string) (ent *Entity, found bool) {
 
 func (d *Document) GetParameterEntity(name string) (*Entity, bool) {
 	if ints := d.intSubset; ints != nil {
-		return ints.LookupParameterEntity(name)
+		if ent, ok := ints.LookupParameterEntity(name); ok {
+			return ent, true
+		}
 	}
 
 	if exts := d.extSubset; exts != nil {
@@ -407,11 +411,14 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 			}
 
 			val := entbuf.String()
-			ent, ok := d.GetEntity(val)
+			if _, width, nerr := parseStringName([]byte(val + ";")); nerr != nil || width != len(val) {
+				err = ErrInvalidName
+				return
+			}
 
 			// XXX I *believe* libxml2 SKIPS entities that it can't resolve
 			// at this point?
-			if ok && ent.EntityType() == int(InternalPredefinedEntity) {
+			if ent, perr := resolvePredefinedEntity(val); perr == nil {
 				buf.Write(ent.Content())
 			} else {
 				// flush the buffer so far
@@ -442,25 +449,6 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 					return
 				}
 
-				// no children
-				if ok && ent.FirstChild() == nil {
-					// XXX WTF am I doing here...?
-					var refchildren Node
-					refchildren, err = d.stringToNodeList(string(node.Content()))
-					if err != nil {
-						return
-					}
-					ent.setFirstChild(refchildren)
-					for n := refchildren; n != nil; {
-						n.SetParent(ent)
-						if x := n.NextSibling(); x != nil {
-							n = x
-						} else {
-							n = nil
-						}
-					}
-				}
-
 				if last == nil {
 					last = node
 					ret = node
diff --git a/dtd.go b/dtd.go
index 63e72b2..a39c4c0 100644
--- a/dtd.go
+++ b/dtd.go
@@ -34,6 +34,11 @@ func (dtd *DTD) AddEntity(name string, typ EntityType, publicID, systemID, conte
 		return nil, errors.Errorf("invalid entity type: %d", typ)
 	}
 
+	// the first declaration of an entity is binding
+	if ent, ok := table[name]; ok {
+		return ent, nil
+	}
+
 	ent := newEntity(name, typ, publicID, systemID, content, "")
 	ent.doc = dtd.doc
 	table[name] = ent
diff --git a/node.go b/node.go
index 74c637c..9eaea85 100644
--- a/node.go
+++ b/node.go
@@ -50,6 +50,11 @@ func (n docnode) Parent() Node {
 func (n docnode) Content() []byte {
 	b := bytes.Buffer{}
 	for e := n.firstChild; e != nil; e = e.NextSibling() {
+		switch e.Type() {
+		case CommentNode, ProcessingInstructionNode, DTDNode:
+			// these are not text
+			continue
+		}
 		b.Write(e.Content())
 	}
 	return b.Bytes()
diff --git a/reference.go b/reference.go
index 1eb07e8..a391ce4 100644
--- a/reference.go
+++ b/reference.go
@@ -1,5 +1,7 @@
 package helium
 
+import "bytes"
+
 func newEntityRef() *EntityRef {
 	n := &EntityRef{}
 	n.etype = EntityRefNode
@@ -26,3 +28,64 @@ func (n *EntityRef) SetTreeDoc(doc *Document) {
 	setTreeDoc(n, doc)
 }
 
+// Content returns the text that the entity expands to
+func (e *EntityRef) Content() []byte {
+	out := bytes.Buffer{}
+	expandEntity(&out, e.doc, e.name, 0)
+	return out.Bytes()
+}
+
+// expandEntity writes the text that a reference to an entity stands for.
+// Nothing is written for entities that are not known
+func expandEntity(out *bytes.Buffer, doc *Document, name string, depth int) {
+	if depth > 40 {
+		return
+	}
+	if ent, err := resolvePredefinedEntity(name); err == nil {
+		out.WriteString(ent.content)
+		return
+	}
+	if doc == nil {
+		return
+	}
+	ent, ok := doc.GetEntity(name)
+	if !ok || ent.entityType != InternalGeneralEntity {
+		return
+	}
+
+	if ent.firstChild != nil {
+		expandChildren(out, ent, depth)
+		return
+	}
+
+	// Not parsed yet. If there's no markup in it, it's just text
+	// and references
+	n, err := doc.stringToNodeList(ent.content)
+	if err != nil {
+		return
+	}
+	for ; n != nil; n = n.NextSibling() {
+		expandNode(out, n, depth)
+	}
+}
+
+func expandChildren(out *bytes.Buffer, n Node, depth int) {
+	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
+		expandNode(out, c, depth)
+	}
+}
+
+func expandNode(out *bytes.Buffer, n Node, depth int) {
+	switch n.Type() {
+	case EntityRefNode:
+		if ref, ok := n.(*EntityRef); ok {
+			expandEntity(out, ref.doc, ref.name, depth+1)
+		}
+	case ElementNode:
+		expandChildren(out, n, depth)
+	case CommentNode, ProcessingInstructionNode:
+		// not text
+	default:
+		out.Write(n.Content())
+	}
+}
-- 
2.43.0


From 8e793c468b54704f0dabf4327d67b26961dc9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 11/31] fix: expand internal entities soundly, and let the
 first attribute or entity declaration win

---
 parser_interface.go |  18 +-
 parserctx.go        | 686 ++++++++++++++++++--------------------------
 2 files changed, 284 insertions(+), 420 deletions(-)

diff --git a/parser_interface.go b/parser_interface.go
index c63506d..3b774ea 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -133,22 +133,24 @@ type parserCtx struct {
 	extSubURI         string
 	version           string
 	attsSpecial       map[string]AttributeType
-	attsDefault       map[string]map[string]*Attribute
+	attsDefault       map[string][]*attrData
 	valid             bool
 	hasPERefs         bool
 	pedantic          bool
 	wellFormed        bool
 	depth             int
+	attrEntities      map[*Entity]bool // entities used in attribute values: was the check completed
 	loadsubset        LoadSubsetOption
 	elem              *Element // current context element
 
-	nsTab      nsStack
-	doc        *Document
-	userData   interface{}
-	nodeTab    nodeStack
-	elemidx    int
-	nbentities int
-	inputTab   inputStack
+	nsTab       nsStack
+	doc         *Document
+	userData    interface{}
+	nodeTab     nodeStack
+	elemidx     int
+	nbentities  int
+	sizeentcopy int // amount of text copied from entities
+	inputTab    inputStack
 }
 
 type SubstitutionType int
diff --git a/parserctx.go b/parserctx.go
index 32622a9..99ca09f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -207,7 +207,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.userData = ctx // circular dep?!
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
-	ctx.attsDefault = map[string]map[string]*Attribute{}
+	ctx.attsDefault = map[string][]*attrData{}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -808,6 +808,14 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 		names = append(names, fullname)
 
+		if fullname == XMLNsPrefix || aprefix == XMLNsPrefix {
+			// the value may hold references
+			attvalue, err = ctx.decodeEntities([]byte(attvalue), SubstituteRef)
+			if err != nil {
+				return ctx.error(err)
+			}
+		}
+
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
 			ctx.pushNS("", attvalue)
@@ -892,7 +900,28 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 		defaults, ok := ctx.lookupAttributeDefault(elemName)
 		if ok {
+		DEFAULTS:
 			for _, attr := range defaults {
+				fullname := joinQName(attr.prefix, attr.localname)
+				for _, seen := range names {
+					if seen == fullname {
+						continue DEFAULTS
+					}
+				}
+				if fullname == XMLNsPrefix || attr.prefix == XMLNsPrefix {
+					// a namespace declaration: the prefix is its local name
+					uri, err := ctx.decodeEntities([]byte(attr.value), SubstituteRef)
+					if err != nil {
+						return ctx.error(err)
+					}
+					if attr.prefix == "" {
+						ctx.pushNS("", uri)
+					} else {
+						ctx.pushNS(attr.localname, uri)
+					}
+					nbNs++
+					continue
+				}
 				attrs = append(attrs, attr)
 			}
 		}
@@ -1011,6 +1040,10 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 	b := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(b)
 
+	oldstate := ctx.instate
+	ctx.instate = psAttributeValue
+	defer func() { ctx.instate = oldstate }()
+
 	for {
 		c := cur.Peek()
 		// qch == quote character.
@@ -3005,10 +3038,18 @@ func (ctx *parserCtx) decodeEntities(s []byte, what SubstitutionType) (ret strin
 	return
 }
 
+// how much text is copied from entities at most
+const maxEntityCopy = 10000000
+
 func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, depth int) (string, error) {
 	if depth > 40 {
 		return "", errors.New("entity loop (depth > 40)")
 	}
+	// nested references may multiply
+	ctx.sizeentcopy += len(s) + 1
+	if ctx.sizeentcopy > maxEntityCopy && depth > 0 {
+		return "", errors.New("entity expands to too much text")
+	}
 
 	out := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(out)
@@ -3043,8 +3084,8 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 				}
 
 				out.WriteString(rep)
-			} else {
-				out.WriteString(ent.Name())
+			} else if EntityType(ent.EntityType()) != InternalGeneralEntity {
+				return "", fmt.Errorf("external entity '%s' can't be expanded", ent.Name())
 			}
 			s = s[width:]
 		} else if s[0] == '%' && what&SubstitutePERef == SubstitutePERef {
@@ -3088,6 +3129,12 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	literal, err := ctx.parseQuotedText(func(qch rune) (string, error) {
 		return ctx.parseEntityValueInternal(qch)
 	})
+	if err != nil {
+		return "", "", ctx.error(err)
+	}
+	if err := checkEntityValue([]byte(literal)); err != nil {
+		return "", "", ctx.error(err)
+	}
 
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
@@ -3101,6 +3148,31 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	return literal, val, nil
 }
 
+// checkEntityValue makes sure that '&' and '%' only appear as the start of
+// a reference in the literal value of an entity.
+func checkEntityValue(s []byte) error {
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '%':
+			// [ WFC: PEs in Internal Subset ]
+			// we don't read external subsets, so this must be the internal one
+			return errors.New("'%' is forbidden in entity values of the internal subset")
+		case '&':
+			if bytes.HasPrefix(s[i:], []byte{'&', '#'}) {
+				continue // checked when it's decoded
+			}
+			_, width, err := parseStringName(s[i+1:])
+			if err != nil {
+				return err
+			}
+			if s[i+1+width] != ';' {
+				return ErrSemicolonRequired
+			}
+		}
+	}
+	return nil
+}
+
 /*
  * parse <!ENTITY declarations
  *
@@ -3177,7 +3249,9 @@ func (ctx *parserCtx) parseEntityDecl() error {
 				pdebug.Printf("entity declaration '%s' -> '%s'", name, value)
 			}
 
-			if err == nil {
+			if err != nil {
+				return ctx.error(err)
+			} else {
 				switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
 				case nil, sax.ErrHandlerUnspecified:
 					// no op
@@ -3220,7 +3294,9 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 		if c := cur.Peek(); c == '"' || c == '\'' {
 			literal, value, err = ctx.parseEntityValue()
-			if err == nil {
+			if err != nil {
+				return ctx.error(err)
+			} else {
 				if s := ctx.sax; s != nil {
 					switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
 					case nil, sax.ErrHandlerUnspecified:
@@ -3343,8 +3419,12 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			*/
 		}
 	}
-	if curent != nil {
-		curent.SetOrig(literal)
+	// Only if it's this declaration: an earlier one is binding
+	if e, ok := curent.(*Entity); ok && e != nil && e.orig == "" && e.content == value {
+		switch e.entityType {
+		case InternalGeneralEntity, InternalParameterEntity:
+			e.SetOrig(literal)
+		}
 	}
 
 	return nil
@@ -3701,7 +3781,7 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 		out = append(out, 0x20) // append a single space
 	}
 
-	if out[len(out)-1] == 0x20 {
+	if len(out) > 0 && out[len(out)-1] == 0x20 {
 		out = out[:len(out)-1]
 	}
 	value = string(out)
@@ -3728,16 +3808,20 @@ func (ctx *parserCtx) cleanSpecialAttributes() {
 }
 
 func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ AttributeType) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName // neither may contain a blank
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
 	}
+	// the first declaration is binding
+	if _, ok := ctx.attsSpecial[key]; ok {
+		return
+	}
 	ctx.attsSpecial[key] = typ
 }
 
 func (ctx *parserCtx) lookupSpecialAttribute(elemName, attrName string) (AttributeType, bool) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START lookupSpecialAttribute(%s)", key)
 		defer g.IRelease("END lookupSpecialAttribute")
@@ -3797,8 +3881,11 @@ func (ctx *parserCtx) addAttributeDecl(dtd *DTD, elem string, name string, prefi
 	attr.tree = tree
 	attr.defvalue = defvalue
 
-	// Validity Check: Search the DTD for previous declarations of the ATTLIST
-	// (RegisterAttribute should return error if this attr already exists)
+	// Search the DTD for previous declarations of the ATTLIST. When an
+	// attribute is declared more than once, the first declaration is binding
+	if old, ok := dtd.LookupAttribute(name, prefix, elem); ok {
+		return old, nil
+	}
 	if err = dtd.RegisterAttribute(attr); err != nil {
 		attr = nil
 		return
@@ -3862,15 +3949,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 		return
 	}
 
-	// XXX seems like when your language has a map, you can do just
-	// kinda do away with a bunch of stuff..  See xmlAddDefAttrs for
-	// details of what the original code is doing
-	m, ok := ctx.attsDefault[elemName]
-	if !ok {
-		m = map[string]*Attribute{}
-		ctx.attsDefault[elemName] = m
-	}
-
+	// See xmlAddDefAttrs for details of what the original code is doing
 	var prefix string
 	var local string
 	if i := strings.IndexByte(attrName, ':'); i > -1 {
@@ -3880,15 +3959,12 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 		local = attrName
 	}
 
-	uri := ctx.lookupNamespace(prefix)
-	attr, err := ctx.doc.CreateAttribute(local, defaultValue, newNamespace(prefix, uri))
-	if err != nil {
-		// XXX Unhandled?!
-		return
-	}
-
-	attr.SetDefault(true)
-	m[attrName] = attr
+	ctx.attsDefault[elemName] = append(ctx.attsDefault[elemName], &attrData{
+		localname: local,
+		prefix:    prefix,
+		value:     defaultValue,
+		isDefault: true,
+	})
 
 	/*
 	   	hmm, let's think about this when the time comes
@@ -3899,7 +3975,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 	*/
 }
 
-func (ctx *parserCtx) lookupAttributeDefault(elemName string) (map[string]*Attribute, bool) {
+func (ctx *parserCtx) lookupAttributeDefault(elemName string) ([]*attrData, bool) {
 	v, ok := ctx.attsDefault[elemName]
 	return v, ok
 }
@@ -3934,7 +4010,9 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 	if err != nil {
 		return ctx.error(err)
 	}
-	ctx.skipBlanks()
+	if !ctx.skipBlanks() && cur.Peek() != '>' {
+		return ctx.error(ErrSpaceRequired)
+	}
 
 	for cur.Peek() != '>' && ctx.instate != psEOF {
 		attrName, err := ctx.parseName()
@@ -3991,7 +4069,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			}
 		}
 
-		if defvalue != "" && def != AttrDefaultImplied && def != AttrDefaultRequired {
+		if def != AttrDefaultImplied && def != AttrDefaultRequired {
 			ctx.addAttributeDefault(elemName, attrName, defvalue)
 		}
 
@@ -4007,10 +4085,13 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			                                NULL, NULL);
 			           }
 			*/
-			cur.Advance(1)
 			break
 		}
 	}
+	if cur.Peek() != '>' {
+		return ctx.error(ErrGtRequired)
+	}
+	cur.Advance(1)
 	return nil
 }
 
@@ -4060,6 +4141,9 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 
 	newctx := &parserCtx{}
 	newctx.init(nil, bytes.NewReader(chunk))
+	// the chunk is already decoded, and its line endings are normalised
+	newctx.popInput()
+	newctx.pushInput(strcursor.NewRuneCursor(bytes.NewReader(chunk)))
 	defer newctx.release()
 
 	if userData != nil {
@@ -4072,19 +4156,18 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		ctx.doc = NewDocument("1.0", "", StandaloneExplicitNo)
 	}
 
-	// save the document's children
-	fc := ctx.doc.FirstChild()
-	lc := ctx.doc.LastChild()
-	ctx.doc.setFirstChild(nil)
-	ctx.doc.setLastChild(nil)
-	defer func() {
-		ctx.doc.setFirstChild(fc)
-		ctx.doc.setLastChild(lc)
-	}()
 	newctx.doc = ctx.doc
 	newctx.sax = ctx.sax
+	newctx.options = ctx.options
+	newctx.loadsubset = ctx.loadsubset
+	newctx.standalone = ctx.standalone
+	newctx.hasExternalSubset = ctx.hasExternalSubset
+	newctx.hasPERefs = ctx.hasPERefs
 	newctx.attsDefault = ctx.attsDefault
-	newctx.depth = ctx.depth + 1
+	newctx.attsSpecial = ctx.attsSpecial
+	newctx.attrEntities = ctx.attrEntities
+	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
+	newctx.depth = ctx.depth
 
 	// create a dummy node
 	newRoot, err := newctx.doc.CreateElement("pseudoroot")
@@ -4092,20 +4175,20 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		return nil, ctx.error(err)
 	}
 	newctx.pushNode(newRoot)
-	newctx.doc.AddChild(newRoot)
-	newctx.switchEncoding()
+	newctx.elem = newRoot
 	if err := newctx.parseContent(); err != nil {
 		return nil, err
 	}
+	if cur := newctx.getCursor(); !cur.Done() {
+		return nil, newctx.error(errors.New("entity content is not well balanced"))
+	}
 
-	if child := newctx.doc.FirstChild(); child != nil {
-		if grandchild := child.FirstChild(); grandchild != nil {
-			for e := grandchild; e != nil; e = e.NextSibling() {
-				e.SetTreeDoc(ctx.doc)
-				e.SetParent(nil)
-			}
-			return grandchild, nil
+	if grandchild := newRoot.FirstChild(); grandchild != nil {
+		for e := grandchild; e != nil; e = e.NextSibling() {
+			e.SetTreeDoc(ctx.doc)
+			e.SetParent(nil)
 		}
+		return grandchild, nil
 	}
 
 	// this means that the parsing was successful, but there weren't
@@ -4188,287 +4271,42 @@ func (ctx *parserCtx) parseReference() error {
 	// of validating, or substituting entities were given. Doing so is
 	// far more secure as the parser will only process data coming from
 	// the document entity by default.
-	var parsedEnt Node
-	if (wasChecked == 0 || (ent.firstChild == nil && ctx.options.IsSet(ParseNoEnt))) && (EntityType(ent.EntityType()) != ExternalGeneralParsedEntity || ctx.options.IsSet(ParseNoEnt|ParseDTDValid)) {
-		var userData interface{}
-		if ctx.userData != ctx {
-			userData = ctx.userData
-		}
-
-		if EntityType(ent.EntityType()) == InternalGeneralEntity {
-			parsedEnt, err = ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
-			switch err {
-			case nil, ErrParseSucceeded:
-				// may not have generated nodes, but parse was successful
-			default:
-				return err
-			}
-		} else if EntityType(ent.EntityType()) == ExternalGeneralParsedEntity {
-			parsedEnt, err = ctx.parseExternalEntityPrivate(ent.uri, ent.externalID)
-			switch err {
-			case nil, ErrParseSucceeded:
-				// may not have generated nodes, but parse was successful
-			default:
-				return err
+	if EntityType(ent.EntityType()) == InternalGeneralEntity && (wasChecked == 0 || ent.firstChild == nil) {
+		// The content has to be parsed again if there are no children: we're
+		// probably running in SAX mode and the callbacks don't build the
+		// entity content, but they expect the events of this reference
+		parsedEnt, err := ctx.parseBalancedChunkInternal([]byte(ent.Content()), nil)
+		switch err {
+		case nil, ErrParseSucceeded:
+			// may not have generated nodes, but parse was successful
+		default:
+			// report where it was referenced
+			if pe, ok := err.(ErrParseError); ok {
+				err = pe.Err
 			}
-		} else {
-			return errors.New("invalid entity type")
+			return ctx.error(err)
 		}
+		ent.MarkChecked()
 
-		/*
-		           // Store the number of entities needing parsing for this entity
-		           // content and do checkings
-		           ent->checked = (ctxt->nbentities - oldnbent + 1) * 2;
-		           if ((ent->content != NULL) && (xmlStrchr(ent->content, '<')))
-		               ent->checked |= 1;
-		           if (ret == XML_ERR_ENTITY_LOOP) {
-		               xmlFatalErr(ctxt, XML_ERR_ENTITY_LOOP, NULL);
-		               xmlFreeNodeList(list);
-		               return;
-		           }
-		           if (xmlParserEntityCheck(ctxt, 0, ent, 0)) {
-		               xmlFreeNodeList(list);
-		               return;
-		           }
-
-		           if ((ret == XML_ERR_OK) && (list != NULL)) {
-		               if (((ent->etype == XML_INTERNAL_GENERAL_ENTITY) ||
-		                (ent->etype == XML_EXTERNAL_GENERAL_PARSED_ENTITY))&&
-		                   (ent->children == NULL)) {
-		                   ent->children = list;
-		                   if (ctxt->replaceEntities) {
-		                       // Prune it directly in the generated document
-		                       // except for single text nodes.
-		                       if (((list->type == XML_TEXT_NODE) &&
-		                            (list->next == NULL)) ||
-		                           (ctxt->parseMode == XML_PARSE_READER)) {
-		                           list->parent = (xmlNodePtr) ent;
-		                           list = NULL;
-		                           ent->owner = 1;
-		                       } else {
-		                           ent->owner = 0;
-		                           while (list != NULL) {
-		                               list->parent = (xmlNodePtr) ctxt->node;
-		                               list->doc = ctxt->myDoc;
-		                               if (list->next == NULL)
-		                                   ent->last = list;
-		                               list = list->next;
-		                           }
-		                           list = ent->children;
-		   #ifdef LIBXML_LEGACY_ENABLED
-		                           if (ent->etype == XML_EXTERNAL_GENERAL_PARSED_ENTITY)
-		                             xmlAddEntityReference(ent, list, NULL);
-		   #endif
-		                       }
-		                   } else {
-		                       ent->owner = 1;
-		                       while (list != NULL) {
-		                           list->parent = (xmlNodePtr) ent;
-		                           xmlSetTreeDoc(list, ent->doc);
-		                           if (list->next == NULL)
-		                               ent->last = list;
-		                           list = list->next;
-		                       }
-		                   }
-		               } else {
-		                   xmlFreeNodeList(list);
-		                   list = NULL;
-		               }
-		           } else if ((ret != XML_ERR_OK) &&
-		                      (ret != XML_WAR_UNDECLARED_ENTITY)) {
-		               xmlFatalErrMsgStr(ctxt, XML_ERR_UNDECLARED_ENTITY,
-		                        "Entity '%s' failed to parse\n", ent->name);
-		               xmlParserEntityCheck(ctxt, 0, ent, 0);
-		           } else if (list != NULL) {
-		               xmlFreeNodeList(list);
-		               list = NULL;
-		           }
-		           if (ent->checked == 0)
-		               ent->checked = 2;
-		       } else if (ent->checked != 1) {
-		           ctxt->nbentities += ent->checked / 2;
-		       }
-		*/
-
-		// Now that the entity content has been gathered
-		// provide it to the application, this can take different forms based
-		// on the parsing modes.
-		if ent.firstChild == nil {
-			// Probably running in SAX mode and the callbacks don't
-			// build the entity content. So unless we already went
-			// though parsing for first checking go though the entity
-			// content to generate callbacks associated to the entity
-			if wasChecked != 0 {
-				var userData interface{}
-				if ctx.userData != ctx {
-					userData = ctx.userData
-				}
-				if EntityType(ent.EntityType()) == InternalGeneralEntity {
-					parsedEnt, err = ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
-					switch err {
-					case nil, ErrParseSucceeded:
-						// may not have generated nodes, but parse was successful
-					default:
-						return err
-					}
-				} else if EntityType(ent.EntityType()) == ExternalGeneralParsedEntity {
-					parsedEnt, err = ctx.parseExternalEntityPrivate(ent.URI(), ent.externalID)
-					switch err {
-					case nil, ErrParseSucceeded:
-						// may not have generated nodes, but parse was successful
-					default:
-						return err
-					}
-				} else {
-					return errors.New("invalid entity type")
-				}
-			}
-			if s := ctx.sax; s != nil && !ctx.replaceEntities {
-				// Entity reference callback comes second, it's somewhat
-				// superfluous but a compatibility to historical behaviour
-				switch err := s.Reference(ctx.userData, ent.name); err {
-				case nil, sax.ErrHandlerUnspecified:
-					// no op
-				default:
-					return err
-				}
+		if parsedEnt != nil && ent.firstChild == nil {
+			ent.setFirstChild(parsedEnt)
+			for n := parsedEnt; n != nil; n = n.NextSibling() {
+				n.SetParent(ent)
+				ent.setLastChild(n)
 			}
-			return nil
 		}
+	}
 
-		// If we didn't get any children for the entity being built
-		if s := ctx.sax; s != nil && !ctx.replaceEntities {
-			// Create a node.
-			switch err := s.Reference(ctx.userData, ent.name); err {
-			case nil, sax.ErrHandlerUnspecified:
-				// no op
-			default:
-				return err
-			}
-			return nil
+	// Now that the entity content has been gathered, create a node
+	if s := ctx.sax; s != nil && !ctx.replaceEntities {
+		switch err := s.Reference(ctx.userData, ent.name); err {
+		case nil, sax.ErrHandlerUnspecified:
+			// no op
+		default:
+			return ctx.error(err)
 		}
-		_ = parsedEnt
-
-		/*
-			if ctx.replaceEntities || ent.firstChild == nil {
-			           // There is a problem on the handling of _private for entities
-			           // (bug 155816): Should we copy the content of the field from
-			           // the entity (possibly overwriting some value set by the user
-			           // when a copy is created), should we leave it alone, or should
-			           // we try to take care of different situations?  The problem
-			           // is exacerbated by the usage of this field by the xmlReader.
-			           // To fix this bug, we look at _private on the created node
-			           // and, if it's NULL, we copy in whatever was in the entity.
-			           // If it's not NULL we leave it alone.  This is somewhat of a
-			           // hack - maybe we should have further tests to determine
-			           // what to do.
-				if ctx.peekNode() == nil && ent.firstChild == nil {
-			               // Seems we are generating the DOM content, do
-			               // a simple tree copy for all references except the first
-			               // In the first occurrence list contains the replacement.
-					if (parsedEnt == nil && ent.owner == nil) || ctx.parseMode == ParseReaderMode {
-
-
-
-			               if (((list == NULL) && (ent->owner == 0)) ||
-			                   (ctxt->parseMode == XML_PARSE_READER)) {
-			                   xmlNodePtr nw = NULL, cur, firstChild = NULL;
-			                   // We are copying here, make sure there is no abuse
-			                   ctxt->sizeentcopy += ent->length + 5;
-			                   if (xmlParserEntityCheck(ctxt, 0, ent, ctxt->sizeentcopy))
-			                       return;
-
-			                   // when operating on a reader, the entities definitions
-			                   // are always owning the entities subtree.
-			                   // if (ctxt->parseMode == XML_PARSE_READER)
-			                   //    ent->owner = 1;
-			                   cur = ent->children;
-			                   while (cur != NULL) {
-			                       nw = xmlDocCopyNode(cur, ctxt->myDoc, 1);
-			                       if (nw != NULL) {
-			                           if (nw->_private == NULL)
-			                               nw->_private = cur->_private;
-			                           if (firstChild == NULL){
-			                               firstChild = nw;
-			                           }
-			                           nw = xmlAddChild(ctxt->node, nw);
-			                       }
-			                       if (cur == ent->last) {
-			                           // needed to detect some strange empty
-			                           // node cases in the reader tests
-			                           if ((ctxt->parseMode == XML_PARSE_READER) &&
-			                               (nw != NULL) &&
-			                               (nw->type == XML_ELEMENT_NODE) &&
-			                               (nw->children == NULL))
-			                               nw->extra = 1;
-
-			                           break;
-			                       }
-			                       cur = cur->next;
-			                   }
-			               } else if ((list == NULL) || (ctxt->inputNr > 0)) {
-			                   xmlNodePtr nw = NULL, cur, next, last,
-			                              firstChild = NULL;
-
-			                   // We are copying here, make sure there is no abuse
-			                   ctxt->sizeentcopy += ent->length + 5;
-			                   if (xmlParserEntityCheck(ctxt, 0, ent, ctxt->sizeentcopy))
-			                       return;
-
-			                   // Copy the entity child list and make it the new
-			                   // entity child list. The goal is to make sure any
-			                   // ID or REF referenced will be the one from the
-			                   // document content and not the entity copy.
-			                   cur = ent->children;
-			                   ent->children = NULL;
-			                   last = ent->last;
-			                   ent->last = NULL;
-			                   while (cur != NULL) {
-			                       next = cur->next;
-			                       cur->next = NULL;
-			                       cur->parent = NULL;
-			                       nw = xmlDocCopyNode(cur, ctxt->myDoc, 1);
-			                       if (nw != NULL) {
-			                           if (nw->_private == NULL)
-			                               nw->_private = cur->_private;
-			                           if (firstChild == NULL){
-			                               firstChild = cur;
-			                           }
-			                           xmlAddChild((xmlNodePtr) ent, nw);
-			                           xmlAddChild(ctxt->node, cur);
-			                       }
-			                       if (cur == last)
-			                           break;
-			                       cur = next;
-			                   }
-			                   if (ent->owner == 0)
-			                       ent->owner = 1;
-			               } else {
-			                   const xmlChar *nbktext;
-			                   // the name change is to avoid coalescing of the
-			                   // node with a possible previous text one which
-			                   // would make ent->children a dangling pointer
-			                   nbktext = xmlDictLookup(ctxt->dict, BAD_CAST "nbktext",
-			                                           -1);
-			                   if (ent->children->type == XML_TEXT_NODE)
-			                       ent->children->name = nbktext;
-			                   if ((ent->last != ent->children) &&
-			                       (ent->last->type == XML_TEXT_NODE))
-			                       ent->last->name = nbktext;
-			                   xmlAddChildList(ctxt->node, ent->children);
-			               }
-
-			               // This is to avoid a nasty side effect, see
-			               // characters() in SAX.c
-			               ctxt->nodemem = 0;
-			               ctxt->nodelen = 0;
-			               return;
-			           }
-			       }
-		*/
 	}
-
-	return ErrUnimplemented{target: "parseReference"}
+	return nil
 }
 
 func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
@@ -4599,14 +4437,18 @@ func parseStringName(s []byte) (string, int, error) {
 // the rest of the processing to work.
 func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 	if ctx.inSubset == 0 {
-		if ret, err := resolvePredefinedEntity(name); err != nil {
+		if ret, err := resolvePredefinedEntity(name); err == nil {
 			return ret, nil
 		}
 	}
 
+	if ctx.doc == nil {
+		return nil, ErrEntityNotFound
+	}
+
 	var ret *Entity
 	var ok bool
-	if ctx.doc == nil || ctx.doc.standalone != 1 {
+	if ctx.doc.standalone != 1 {
 		ret, _ = ctx.doc.GetEntity(name)
 	} else {
 		if ctx.inSubset == 2 {
@@ -4618,10 +4460,10 @@ func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 			if !ok {
 				ctx.doc.standalone = 0
 				ret, ok = ctx.doc.GetEntity(name)
+				ctx.doc.standalone = 1
 				if !ok {
 					return nil, errors.New("Entity(" + name + ") document marked standalone but requires eternal subset")
 				}
-				ctx.doc.standalone = 1
 			}
 		}
 	}
@@ -4667,7 +4509,8 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 		return nil, 0, errors.New("invalid entity ref")
 	}
 
-	i := 0
+	i := 1
+	s = s[1:]
 	name, width, err := parseStringName(s)
 	if err != nil {
 		return nil, 0, errors.New("failed to parse name")
@@ -4681,26 +4524,12 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	s = s[1:]
 	i++
 
-	var loadedEnt sax.Entity
-
 	/*
 	 * Ask first SAX for entity resolution, otherwise try the
 	 * entities which may have stored in the parser context.
 	 */
-	if h := ctx.sax; h != nil {
-		loadedEnt, err = h.GetEntity(ctx.userData, name)
-		if err != nil {
-			// Note: libxml2 would try to ask for xmlGetPredefinedEntity
-			// next, but that's only when XML_PARSE_OLDSAX is enabled.
-			// we won't do that.
-			if ctx.wellFormed && ctx.userData == ctx {
-				loadedEnt, err = ctx.getEntity(name)
-				if err != nil {
-					return nil, 0, err
-				}
-			}
-		}
-	}
+	loadedEnt := ctx.resolveEntity(name)
+
 	/*
 	 * [ WFC: Entity Declared ]
 	 * In a document without any DTD, a document with only an
@@ -4723,10 +4552,7 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	 * standalone='yes'.
 	 */
 	if loadedEnt == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
-			return nil, 0, fmt.Errorf("entity '%s' not defined", name)
-		}
-		// xmlParserEntityCheck ?!
+		return nil, 0, fmt.Errorf("entity '%s' not defined", name)
 	}
 
 	/*
@@ -4748,16 +4574,6 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 		return nil, 0, fmt.Errorf("attribute references enternal entity '%s'", name)
 	}
 
-	/*
-	 * [ WFC: No < in Attribute Values ]
-	 * The replacement text of any entity referred to directly or
-	 * indirectly in an attribute value (other than "&lt;") must
-	 * not contain a <.
-	 */
-	if ctx.instate == psAttributeValue && len(loadedEnt.Content()) > 0 && EntityType(loadedEnt.EntityType()) == InternalPredefinedEntity && bytes.IndexByte(loadedEnt.Content(), '<') > -1 {
-		return nil, 0, fmt.Errorf("'<' in entity '%s' is not allowed in attribute values", name)
-	}
-
 	/*
 	 * Internal check, no parameter entities here ...
 	 */
@@ -4775,7 +4591,8 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 		return nil, 0, errors.New("invalid PEreference")
 	}
 
-	i := 0
+	i := 1
+	s = s[1:]
 	name, width, err := parseStringName(s)
 	if err != nil {
 		return nil, 0, err
@@ -4806,12 +4623,7 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 	 * any reference to it...
 	 */
 	if loadedEnt == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
-			return nil, 0, fmt.Errorf("not found: PE rerefence '%%%s'", name)
-		} else {
-			ctx.valid = false
-		}
-		// xmlParseEntityCheck(ctxt, 0, NULL, 0)
+		return nil, 0, fmt.Errorf("not found: PE rerefence '%%%s'", name)
 	} else {
 		switch EntityType(loadedEnt.EntityType()) {
 		case InternalParameterEntity, ExternalParameterEntity:
@@ -4947,23 +4759,7 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	}
 	cur.Advance(1)
 
-	if ent, err = resolvePredefinedEntity(name); err == nil {
-		return
-	}
-
-	if s := ctx.sax; s != nil {
-		// ask the SAX2 handler nicely
-		var loadedEnt sax.Entity
-		loadedEnt, err = s.GetEntity(ctx.userData, name)
-		if err == nil {
-			ent = loadedEnt.(*Entity)
-			return
-		}
-
-		if loadedEnt == nil && ctx == ctx.userData {
-			ent, _ = ctx.getEntity(name)
-		}
-	}
+	ent = ctx.resolveEntity(name)
 
 	// [ WFC: Entity Declared ]
 	// In a document without any DTD, a document with only an
@@ -4985,25 +4781,14 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	// declared is a well-formedness constraint only if
 	// standalone='yes'.
 	if ent == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && ctx.hasPERefs) {
+		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, ctx.error(ErrUndeclaredEntity)
-		} else {
-			if ctx.inSubset == 0 {
-				if s := ctx.sax; s != nil {
-					switch err := s.Reference(ctx.userData, name); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return nil, ctx.error(err)
-					}
-				}
-			}
-			// ent is nil, no? why check?
-			if err := ctx.entityCheck(ent, 0, 0); err != nil {
-				return nil, ctx.error(err)
-			}
-			ctx.valid = false
 		}
+		// It may have been declared in something we haven't read. There's
+		// nothing to expand, so this is just a reference to that name
+		ctx.valid = false
+		ent = newEntity(name, ExternalGeneralParsedEntity, "", "", "", "")
+		return ent, nil
 	} else if ent.entityType == ExternalGeneralUnparsedEntity {
 		// [ WFC: Parsed Entity ]
 		// An entity reference must not contain the name of an
@@ -5015,25 +4800,17 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		// entity references to external entities.
 		return nil, ctx.error(errors.New("attribute references external entity"))
 	} else if ctx.instate == psAttributeValue && ent.entityType != InternalPredefinedEntity {
-		// [ WFC: No < in Attribute Values ]
-		// The replacement text of any entity referred to directly or
-		// indirectly in an attribute value (other than "&lt;") must
-		// not contain a <.
-		if (ent.checked&1 == 1 || ent.checked == 0) && ent.content != "" && strings.IndexByte(ent.content, '<') > -1 {
-			return nil, ctx.error(errors.New("'<' in entity is not allowed in attribute values"))
+		if err := ctx.checkAttributeEntity(ent); err != nil {
+			return nil, ctx.error(err)
 		}
 	} else {
 		// Internal check, no parameter entities here ...
 		switch ent.entityType {
-		case InternalParameterEntity:
-		case ExternalParameterEntity:
+		case InternalParameterEntity, ExternalParameterEntity:
 			return nil, ctx.error(errors.New("attempt to reference the parameter entity"))
 		}
 	}
 
-	if ent == nil {
-		panic("at the end of parseEntityRef, ent == nil")
-	}
 	// [ WFC: No Recursion ]
 	// A parsed entity must not contain a recursive reference
 	// to itself, either directly or indirectly.
@@ -5041,6 +4818,91 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	return ent, nil
 }
 
+// checkAttributeEntity checks an entity referenced in an attribute value.
+//
+// [ WFC: No External Entity References ]
+// Attribute values cannot contain direct or indirect
+// entity references to external entities.
+//
+// [ WFC: No < in Attribute Values ]
+// The replacement text of any entity referred to directly or
+// indirectly in an attribute value (other than "&lt;") must
+// not contain a <.
+//
+// [ WFC: No Recursion ]
+// A parsed entity must not contain a recursive reference
+// to itself, either directly or indirectly.
+func (ctx *parserCtx) checkAttributeEntity(ent *Entity) error {
+	if done, ok := ctx.attrEntities[ent]; ok {
+		if !done {
+			return fmt.Errorf("entity '%s' refers to itself", ent.name)
+		}
+		return nil
+	}
+	if ctx.attrEntities == nil {
+		ctx.attrEntities = map[*Entity]bool{}
+	}
+	ctx.attrEntities[ent] = false
+
+	s := []byte(ent.content)
+	for i := 0; i < len(s); {
+		if s[i] == '<' {
+			return errors.New("'<' in entity is not allowed in attribute values")
+		}
+		if s[i] != '&' {
+			i++
+			continue
+		}
+		if bytes.HasPrefix(s[i:], []byte{'&', '#'}) {
+			_, width, err := parseStringCharRef(s[i:])
+			if err != nil {
+				return err
+			}
+			i += width
+			continue
+		}
+		sub, width, err := ctx.parseStringEntityRef(s[i:])
+		if err != nil {
+			return err
+		}
+		if e, ok := sub.(*Entity); ok && e.entityType != InternalPredefinedEntity {
+			if e.entityType != InternalGeneralEntity {
+				return errors.New("attribute references external entity")
+			}
+			if err := ctx.checkAttributeEntity(e); err != nil {
+				return err
+			}
+		}
+		i += width
+	}
+	ctx.attrEntities[ent] = true
+	return nil
+}
+
+// resolveEntity looks for a general entity: the predefined ones, then
+// those the SAX handler knows, then those stored in the document.
+// It returns nil if there's no such entity
+func (ctx *parserCtx) resolveEntity(name string) *Entity {
+	if ent, err := resolvePredefinedEntity(name); err == nil {
+		return ent
+	}
+
+	if s := ctx.sax; s != nil {
+		// ask the SAX2 handler nicely
+		if loaded, err := s.GetEntity(ctx.userData, name); err == nil {
+			if ent, ok := loaded.(*Entity); ok && ent != nil {
+				return ent
+			}
+		}
+		if ctx == ctx.userData {
+			if ent, err := ctx.getEntity(name); err == nil {
+				return ent
+			}
+		}
+	}
+	return nil
+}
+
 /* Function to check non-linear entity expansion behaviour
  * This is here to detect and stop exponential linear entity expansion
  * This is not a limitation of the parser but a safety
-- 
2.43.0


From d665a47c22aaa51e0f77d4b006232bfbddeb24ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 12/31] fix: serialise DTDs, instructions, quotes and the
 document's encoding so that they read back

---
 document.go  |   2 +-
 dump.go      | 112 +++++++++++++++++++++++++++++++++++----------------
 parserctx.go |  10 ++++-
 pi.go        |   5 +++
 tree.go      |  11 ++++-
 5 files changed, 101 insertions(+), 39 deletions(-)

diff --git a/document.go b/document.go
index 4a970cc..0a77494 100644
--- a/document.go
+++ b/document.go
@@ -380,7 +380,7 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 					return
 				}
 				if r == ';' {
-					if digits == 0 || !isChar(charval) {
+					if digits == 0 || !isCharRef(charval) {
 						err = ErrInvalidChar
 						return
 					}
diff --git a/dump.go b/dump.go
index 0e1983b..b2de53b 100644
--- a/dump.go
+++ b/dump.go
@@ -8,7 +8,10 @@ import (
 	"strings"
 	"unicode/utf8"
 
+	"github.com/lestrrat-go/helium/encoding"
 	"github.com/lestrrat-go/pdebug"
+	textenc "golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 var (
@@ -35,11 +38,12 @@ func dumpQuotedString(out io.Writer, s string) error {
 	}
 
 	// Grr, can't use " or '. Well, let's escape all the double
-	// quotes to &quot;, and quote the string
+	// quotes, and quote the string
 
 	out.Write(qch_dquote)
 	for len(s) > 0 && dqi > -1 {
 		io.WriteString(out, s[:dqi])
+		out.Write(esc_quot)
 		s = s[dqi+1:]
 		dqi = strings.IndexByte(s, qch_dquote[0])
 	}
@@ -60,7 +64,7 @@ var (
 	esc_tab  = []byte("&#9;")
 	esc_nl   = []byte("&#10;")
 	esc_cr   = []byte("&#13;")
-	esc_fffd = []byte("\uFFFD") // Unicode replacement character
+	esc_fffd = []byte("&#xFFFD;") // Unicode replacement character
 )
 
 // Decide whether the given rune is in the XML Character Range, per
@@ -112,7 +116,7 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 					break
 				}
 			}
-			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
+			if !isInCharacterRange(r) || r == 0xFFFD {
 				esc = esc_fffd
 				break
 			}
@@ -172,7 +176,7 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 					break
 				}
 			}
-			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
+			if !isInCharacterRange(r) || r == 0xFFFD {
 				esc = esc_fffd
 				break
 			}
@@ -208,6 +212,19 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
+	// Write what the XML declaration says. Characters that the encoding
+	// doesn't have are written as character references
+	if e := encoding.Load(doc.encoding); e != nil && e != encoding.Load(encUTF8) {
+		enc := transform.NewWriter(out, textenc.HTMLEscapeUnsupported(e.NewEncoder()))
+		if err := d.dumpDocNodes(enc, doc); err != nil {
+			return err
+		}
+		return enc.Close()
+	}
+	return d.dumpDocNodes(out, doc)
+}
+
+func (d *Dumper) dumpDocNodes(out io.Writer, doc *Document) error {
 	if err := d.DumpNode(out, doc); err != nil {
 		return err
 	}
@@ -256,17 +273,18 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 	io.WriteString(out, " ")
 
 	if dtd.externalID != "" {
-		io.WriteString(out, " PUBLIC ")
-		io.WriteString(out, dtd.externalID)
+		io.WriteString(out, "PUBLIC ")
+		dumpQuotedString(out, dtd.externalID)
+		io.WriteString(out, " ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	} else if dtd.systemID != "" {
-		io.WriteString(out, " SYSTEM ")
-		io.WriteString(out, dtd.systemID)
+		io.WriteString(out, "SYSTEM ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	}
 
-	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 {
-		/* (dtd.notations == NULL) && */
+	if dtd.FirstChild() == nil {
 		io.WriteString(out, ">")
 		return nil
 	}
@@ -392,12 +410,10 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 	return nil
 }
 
+// dumpEntityContent writes the replacement text of an entity as a literal.
+// Character references are expanded when that is read, so the references that
+// are in the replacement text have to be escaped
 func dumpEntityContent(out io.Writer, content string) error {
-	if strings.IndexByte(content, '%') == -1 {
-		dumpQuotedString(out, content)
-		return nil
-	}
-
 	io.WriteString(out, `"`)
 	rdr := strings.NewReader(content)
 	buf := bytes.Buffer{}
@@ -412,13 +428,25 @@ func dumpEntityContent(out io.Writer, content string) error {
 				buf.WriteTo(out)
 				buf.Reset()
 			}
-			io.WriteString(out, "&quot;")
+			out.Write(esc_quot)
 		case '%':
 			if buf.Len() > 0 {
 				buf.WriteTo(out)
 				buf.Reset()
 			}
 			io.WriteString(out, "&#x25;")
+		case '\r':
+			buf.Write(esc_cr)
+		case '&':
+			next, err := rdr.ReadByte()
+			if err == nil {
+				rdr.UnreadByte()
+			}
+			if next == '#' {
+				buf.WriteString("&#38;")
+			} else {
+				buf.WriteByte(c)
+			}
 		default:
 			buf.WriteByte(c)
 		}
@@ -450,7 +478,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 	case ExternalGeneralParsedEntity, ExternalGeneralUnparsedEntity:
 		io.WriteString(out, "<!ENTITY ")
 		io.WriteString(out, ent.name)
-		if ent.externalID == "" {
+		if ent.externalID != "" {
 			io.WriteString(out, " PUBLIC ")
 			dumpQuotedString(out, ent.externalID)
 			io.WriteString(out, " ")
@@ -463,11 +491,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 		if etype == ExternalGeneralUnparsedEntity {
 			if ent.content != "" {
 				io.WriteString(out, " NDATA ")
-				if ent.orig != "" {
-					io.WriteString(out, ent.orig)
-				} else {
-					io.WriteString(out, ent.content)
-				}
+				io.WriteString(out, ent.content)
 			}
 		}
 		io.WriteString(out, ">\n")
@@ -493,6 +517,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 			io.WriteString(out, " SYSTEM ")
 			dumpQuotedString(out, ent.systemID)
 		}
+		io.WriteString(out, ">\n")
 	default:
 		return errors.New("invalid entity type")
 	}
@@ -540,6 +565,8 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		io.WriteString(out, " IDREFS")
 	case AttrEntity:
 		io.WriteString(out, " ENTITY")
+	case AttrEntities:
+		io.WriteString(out, " ENTITIES")
 	case AttrNmtoken:
 		io.WriteString(out, " NMTOKEN")
 	case AttrNmtokens:
@@ -571,9 +598,18 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		return errors.New("invalid AttributeDecl default value type")
 	}
 
-	if n.defvalue != "" {
-		io.WriteString(out, " ")
-		dumpQuotedString(out, n.defvalue)
+	if n.def == AttrDefaultNone || n.def == AttrDefaultFixed {
+		// the value holds references, but no other escapes
+		io.WriteString(out, ` "`)
+		for i, s := range strings.Split(n.defvalue, "&") {
+			if i > 0 {
+				io.WriteString(out, "&")
+			}
+			if err := escapeAttrValue(out, []byte(s)); err != nil {
+				return err
+			}
+		}
+		io.WriteString(out, `"`)
 	}
 	io.WriteString(out, ">\n")
 	return nil
@@ -589,7 +625,7 @@ func (d *Dumper) dumpNsList(out io.Writer, nslist []*Namespace) error {
 }
 
 func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
-	if ns.href == "" {
+	if ns.href == "" && ns.prefix != "" {
 		// no op
 		return nil
 	}
@@ -602,8 +638,11 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 		io.WriteString(out, "xmlns:")
 		io.WriteString(out, ns.prefix)
 	}
-	io.WriteString(out, "=")
-	dumpQuotedString(out, ns.href)
+	io.WriteString(out, `="`)
+	if err := escapeAttrValue(out, []byte(ns.href)); err != nil {
+		return err
+	}
+	io.WriteString(out, `"`)
 	return nil
 }
 
@@ -630,18 +669,23 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		out.Write(n.Content())
 		io.WriteString(out, "-->")
 		return nil
+	case ProcessingInstructionNode:
+		pi := n.(*ProcessingInstruction)
+		io.WriteString(out, "<?")
+		io.WriteString(out, pi.target)
+		if pi.data != "" {
+			io.WriteString(out, " ")
+			io.WriteString(out, pi.data)
+		}
+		io.WriteString(out, "?>")
+		return nil
 	case EntityRefNode:
 		io.WriteString(out, "&")
 		io.WriteString(out, n.Name())
 		io.WriteString(out, ";")
 		return nil
 	case TextNode:
-		c := n.Content()
-		if string(c) == XMLTextNoEnc {
-			panic("unimplemented")
-		} else {
-			escapeText(out, c, false)
-		}
+		escapeText(out, n.Content(), false)
 		return nil // no recursing down
 	case ElementDeclNode:
 		if err = d.dumpElementDecl(out, n.(*ElementDecl)); err != nil {
diff --git a/parserctx.go b/parserctx.go
index 99ca09f..5a4df2a 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2020,6 +2020,12 @@ func (ctx *parserCtx) areBlanks(s string, blankChars bool) (ret bool) {
 	return
 }
 
+// isCharRef tells if a character reference may name r. This is isChar, but
+// U+FFFD doesn't stand for undecodable input in a reference
+func isCharRef(r rune) bool {
+	return r == utf8.RuneError || isChar(r)
+}
+
 func isChar(r rune) bool {
 	if r == utf8.RuneError {
 		return false
@@ -4390,7 +4396,7 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	}
 
 	r = rune(val)
-	if !isChar(val) {
+	if !isCharRef(val) {
 		return utf8.RuneError, 0, fmt.Errorf("invalid XML char value %d", val)
 	}
 	return
@@ -4695,7 +4701,7 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 	}
 	cur.Advance(1)
 
-	if isChar(val) {
+	if isCharRef(val) {
 		r = rune(val)
 		return
 	}
diff --git a/pi.go b/pi.go
index fdd76b6..284567b 100644
--- a/pi.go
+++ b/pi.go
@@ -4,6 +4,11 @@ func (p *ProcessingInstruction) Type() ElementType {
 	return ProcessingInstructionNode
 }
 
+// Content returns the data of the instruction
+func (p *ProcessingInstruction) Content() []byte {
+	return []byte(p.data)
+}
+
 func (p *ProcessingInstruction) AddChild(cur Node) error {
 	return addChild(p, cur)
 }
diff --git a/tree.go b/tree.go
index ce08888..54ea3ac 100644
--- a/tree.go
+++ b/tree.go
@@ -57,9 +57,9 @@ func (t *TreeBuilder) ProcessingInstruction(ctxif sax.Context, target, data stri
 
 	switch ctx.inSubset {
 	case 1:
-		doc.IntSubset().AddChild(pi)
+		return doc.IntSubset().AddChild(pi)
 	case 2:
-		doc.ExtSubset().AddChild(pi)
+		return doc.ExtSubset().AddChild(pi)
 	}
 
 	parent := ctx.elem
@@ -200,6 +200,13 @@ func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
 		return err
 	}
 
+	switch ctx.inSubset {
+	case 1:
+		return doc.IntSubset().AddChild(e)
+	case 2:
+		return doc.ExtSubset().AddChild(e)
+	}
+
 	n := ctx.elem
 	if n == nil {
 		doc.AddChild(e)
-- 
2.43.0


From 8f65bd85564d8dad1d97adeb0554a23f260e8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 13/31] fix: parse DTDs strictly, with content models, external
 identifiers and parameter entities

---
 dtd.go       |   8 +-
 parserctx.go | 356 +++++++++++++++++++++++++++++++++------------------
 tree.go      |   5 +-
 3 files changed, 236 insertions(+), 133 deletions(-)

diff --git a/dtd.go b/dtd.go
index a39c4c0..b2616d3 100644
--- a/dtd.go
+++ b/dtd.go
@@ -171,8 +171,12 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 }
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
-	ret, ok := dtd.elements[name]
-	return ret, ok
+	var prefix string
+	if i := strings.IndexByte(name, ':'); i > -1 {
+		prefix = name[:i]
+		name = name[i+1:]
+	}
+	return dtd.LookupElement(name, prefix)
 }
 
 func (dtd *DTD) AddChild(cur Node) error {
diff --git a/parserctx.go b/parserctx.go
index 5a4df2a..3124a5c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -497,13 +497,6 @@ func (ctx *parserCtx) parseDocument() error {
 			return ctx.error(err)
 		}
 
-		if cur.HasPrefixString("[") {
-			ctx.instate = psDTD
-			if err := ctx.parseInternalSubset(); err != nil {
-				return ctx.error(err)
-			}
-		}
-
 		ctx.inSubset = inExternalSubset
 		if s := ctx.sax; s != nil {
 			switch err := s.ExternalSubset(ctx.userData, ctx.intSubName, ctx.extSubSystem, ctx.extSubURI); err {
@@ -2151,7 +2144,9 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 		return ctx.error(ErrInvalidDTD)
 	}
 
-	ctx.skipBlanks()
+	if !ctx.skipBlanks() {
+		return ctx.error(ErrSpaceRequired)
+	}
 
 	name, err := ctx.parseName()
 	if err != nil {
@@ -2159,20 +2154,18 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 	}
 	ctx.intSubName = name
 
-	ctx.skipBlanks()
-	u, eid, err := ctx.parseExternalID()
-	if err != nil {
-		return ctx.error(err)
-	}
-
-	if u != "" || eid != "" {
+	var u, eid string
+	if ctx.skipBlanks() && ctx.atExternalID() {
+		eid, u, err = ctx.parseExternalID()
+		if err != nil {
+			return ctx.error(err)
+		}
 		ctx.hasExternalSubset = true
+		ctx.skipBlanks()
 	}
 	ctx.extSubURI = u
 	ctx.extSubSystem = eid
 
-	ctx.skipBlanks()
-
 	if s := ctx.sax; s != nil {
 		switch err := s.InternalSubset(ctx.userData, name, eid, u); err {
 		case nil, sax.ErrHandlerUnspecified:
@@ -2188,7 +2181,7 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 	 */
 	c := cur.Peek()
 	if c == '[' {
-		return nil
+		return ctx.parseInternalSubset()
 	}
 
 	// Otherwise this should be the end of DTD
@@ -2212,28 +2205,21 @@ func (ctx *parserCtx) parseInternalSubset() error {
 		panic("did not get rune cursor")
 	}
 	if cur.Peek() != '[' {
-		goto FinishDTD
+		return ctx.error(ErrDocTypeNotFinished)
 	}
 	ctx.instate = psDTD
 	cur.Advance(1)
 
-	for !cur.Done() && cur.Peek() != ']' {
-		ctx.skipBlanks()
-		if err := ctx.parseMarkupDecl(); err != nil {
-			return ctx.error(err)
-		}
-		if err := ctx.parsePEReference(); err != nil {
-			return ctx.error(err)
-		}
-
+	if err := ctx.parseDeclarations(); err != nil {
+		return ctx.error(err)
 	}
 
-	if cur.Peek() == ']' {
-		cur.Advance(1)
-		ctx.skipBlanks()
+	if cur.Peek() != ']' {
+		return ctx.error(ErrDocTypeNotFinished)
 	}
+	cur.Advance(1)
+	ctx.skipBlanks()
 
-FinishDTD:
 	if cur.Peek() != '>' {
 		return ctx.error(ErrDocTypeNotFinished)
 	}
@@ -2242,6 +2228,34 @@ FinishDTD:
 	return nil
 }
 
+// parseDeclarations parses declarations, up to something that can't start one
+//
+// [28b] intSubset ::= (markupdecl | DeclSep)*
+//
+// [28a] DeclSep ::= PEReference | S
+func (ctx *parserCtx) parseDeclarations() error {
+	cur := ctx.getCursor()
+	if cur == nil {
+		panic("did not get rune cursor")
+	}
+	for {
+		ctx.instate = psDTD
+		ctx.skipBlanks()
+		switch cur.Peek() {
+		case '<':
+			if err := ctx.parseMarkupDecl(); err != nil {
+				return ctx.error(err)
+			}
+		case '%':
+			if err := ctx.parsePEReference(); err != nil {
+				return ctx.error(err)
+			}
+		default:
+			return nil
+		}
+	}
+}
+
 /**
  * parse Markup declarations
  *
@@ -2271,51 +2285,27 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
-	if cur.Peek() == '<' {
-		if cur.PeekN(2) == '!' {
-			switch cur.PeekN(3) {
-			case 'E':
-				c := cur.PeekN(4)
-				if c == 'L' { // <!EL...
-					if _, err := ctx.parseElementDecl(); err != nil {
-						return ctx.error(err)
-					}
-				} else if c == 'N' { // <!EN....
-					if err := ctx.parseEntityDecl(); err != nil {
-						return ctx.error(err)
-					}
-				}
-			case 'A': // <!A...
-				if err := ctx.parseAttributeListDecl(); err != nil {
-					return ctx.error(err)
-				}
-			case 'N': // <!N...
-				if err := ctx.parseNotationDecl(); err != nil {
-					return ctx.error(err)
-				}
-			case '-': // <!-...
-				if err := ctx.parseComment(); err != nil {
-					return ctx.error(err)
-				}
-			default:
-				// no op: error detected later?
-			}
-		} else if cur.PeekN(2) == '?' {
-			return ctx.parsePI()
-		}
+	var err error
+	switch {
+	case cur.HasPrefixString("<!ELEMENT"):
+		_, err = ctx.parseElementDecl()
+	case cur.HasPrefixString("<!ENTITY"):
+		err = ctx.parseEntityDecl()
+	case cur.HasPrefixString("<!ATTLIST"):
+		err = ctx.parseAttributeListDecl()
+	case cur.HasPrefixString("<!NOTATION"):
+		err = ctx.parseNotationDecl()
+	case cur.HasPrefixString("<!--"):
+		err = ctx.parseComment()
+	case cur.HasPrefixString("<?"):
+		err = ctx.parsePI()
+	default:
+		err = ErrInvalidDTD
 	}
-
-	if ctx.instate == psEOF {
-		return nil
+	if err != nil {
+		return ctx.error(err)
 	}
 
-	// This is only for internal subset. On external entities,
-	// the replacement is done before parsing stage
-	if !ctx.external && ctx.inputTab.Len() == 1 {
-		if err := ctx.parsePEReference(); err != nil {
-			return ctx.error(err)
-		}
-	}
 	/*
 	    // Conditional sections are allowed from entities included
 	    // by PE References in the internal subset.
@@ -2443,9 +2433,13 @@ func (ctx *parserCtx) parsePEReference() error {
 			               return;
 			*/
 		} else {
-			// TODO !!!
-			// handle the extra spaces added before and after
-			// c.f. http://www.w3.org/TR/REC-xml#as-PE
+			if etype == InternalParameterEntity {
+				if err := ctx.parsePEContent(entity); err != nil {
+					return ctx.error(err)
+				}
+			}
+			// Note: external parameter entities will not be loaded, it
+			// is not required for a non-validating parser
 			/*
 			   input = xmlNewEntityInputStream(ctxt, entity);
 			   if (xmlPushInput(ctxt, input) < 0)
@@ -2470,6 +2464,47 @@ func (ctx *parserCtx) parsePEReference() error {
 	return nil
 }
 
+// parsePEContent parses the declarations in a parameter entity
+func (ctx *parserCtx) parsePEContent(entity sax.Entity) error {
+	ctx.depth++
+	defer func() { ctx.depth-- }()
+	if ctx.depth > 40 {
+		return errors.New("entity loop")
+	}
+
+	content := entity.Content()
+	if err := ctx.countEntityCopy(content); err != nil {
+		return err
+	}
+
+	ctx.pushInput(strcursor.NewRuneCursor(bytes.NewReader(content)))
+	err := ctx.parseDeclarations()
+	if err == nil && !ctx.getCursor().Done() {
+		err = ErrInvalidDTD
+	}
+	ctx.popInput()
+
+	// report where it was referenced
+	if pe, ok := err.(ErrParseError); ok {
+		err = pe.Err
+	}
+	return err
+}
+
+// countEntityCopy limits how much text entities are replaced with, because
+// nested references may multiply. The parser can't tell U+FFFD from text that
+// could not be decoded, so that's not allowed either.
+func (ctx *parserCtx) countEntityCopy(content []byte) error {
+	if bytes.ContainsRune(content, utf8.RuneError) {
+		return ErrInvalidChar
+	}
+	ctx.sizeentcopy += len(content) + 1
+	if ctx.sizeentcopy > maxEntityCopy {
+		return errors.New("entity expands to too much text")
+	}
+	return nil
+}
+
 /*
  * parse an Element declaration.
  *
@@ -2509,10 +2544,9 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 	       xmlPopInput(ctxt);
 	*/
 
-	if !isBlankCh(cur.Peek()) {
+	if !ctx.skipBlanks() {
 		return UndefinedElementType, ctx.error(ErrSpaceRequired)
 	}
-	ctx.skipBlanks()
 
 	var etype ElementTypeVal
 	var content *ElementContent
@@ -2538,6 +2572,7 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 		      }
 		      return(-1);
 		*/
+		return UndefinedElementType, ctx.error(ErrInvalidElementDecl)
 	}
 
 	ctx.skipBlanks()
@@ -2652,6 +2687,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	if !cur.ConsumeString("#PCDATA") {
 		return nil, ctx.error(ErrPCDATARequired)
 	}
+	ctx.skipBlanks()
 
 	if cur.Peek() == ')' {
 		/*
@@ -2678,7 +2714,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	var err error
 	var retelem *ElementContent
 	var curelem *ElementContent
-	if c := cur.Peek(); c == '(' || c == '|' {
+	if cur.Peek() == '|' {
 		retelem, err = ctx.doc.CreateElementContent("", ElementContentPCDATA)
 		if err != nil {
 			return nil, ctx.error(err)
@@ -2705,7 +2741,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 			if err != nil {
 				return nil, ctx.error(err)
 			}
-			n.c1, err = ctx.doc.CreateElementContent("", ElementContentElement)
+			n.c1, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
 			if err != nil {
 				return nil, ctx.error(err)
 			}
@@ -2741,6 +2777,8 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		                                    NULL, NULL);
 		   					}
 		*/
+	} else {
+		return nil, ctx.error(ErrElementContentNotFinished)
 	}
 	return retelem, nil
 }
@@ -2792,7 +2830,8 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	if cur.Peek() == '(' {
 		cur.Advance(1)
 		ctx.skipBlanks()
-		retelem, err := ctx.parseElementChildrenContentDeclPriv(depth + 1)
+		var err error
+		retelem, err = ctx.parseElementChildrenContentDeclPriv(depth + 1)
 		if err != nil {
 			return nil, ctx.error(err)
 		}
@@ -2864,7 +2903,7 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	}
 
 LOOP:
-	for !cur.Done() {
+	for {
 		c := cur.Peek()
 		switch c {
 		case ')': // end
@@ -2936,7 +2975,7 @@ LOOP:
 	case '?':
 		// XXX why would ret be null?
 		if retelem != nil {
-			if retelem.coccur == ElementContentPlus {
+			if retelem.coccur == ElementContentPlus || retelem.coccur == ElementContentMult {
 				retelem.coccur = ElementContentMult
 			} else {
 				retelem.coccur = ElementContentOpt
@@ -2962,8 +3001,9 @@ LOOP:
 				curelem = curelem.c2
 			}
 		}
+		cur.Advance(1)
 	case '+':
-		if retelem.coccur == ElementContentOpt {
+		if retelem.coccur == ElementContentOpt || retelem.coccur == ElementContentMult {
 			retelem.coccur = ElementContentMult
 		} else {
 			retelem.coccur = ElementContentPlus
@@ -2990,6 +3030,7 @@ LOOP:
 		if found {
 			retelem.coccur = ElementContentMult
 		}
+		cur.Advance(1)
 	}
 
 	return retelem, nil
@@ -3179,6 +3220,18 @@ func checkEntityValue(s []byte) error {
 	return nil
 }
 
+// checkEntityURI checks the system identifier of an entity
+func checkEntityURI(uri string) error {
+	u, err := url.Parse(uri)
+	if err != nil {
+		return err
+	}
+	if u.Fragment != "" {
+		return errors.New("err uri fragment")
+	}
+	return nil
+}
+
 /*
  * parse <!ENTITY declarations
  *
@@ -3271,27 +3324,19 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			}
 			literal, uri, err = ctx.parseExternalID()
 			if err != nil {
-				return ctx.error(ErrValueRequired)
+				return ctx.error(err)
+			}
+			if err := checkEntityURI(uri); err != nil {
+				return ctx.error(err)
 			}
 
-			if uri != "" {
-				u, err := url.Parse(uri)
-				if err != nil {
+			if s := ctx.sax; s != nil {
+				switch err := s.EntityDecl(ctx.userData, name, int(ExternalParameterEntity), literal, uri, ""); err {
+				case nil, sax.ErrHandlerUnspecified:
+					// no op
+				default:
 					return ctx.error(err)
 				}
-
-				if u.Fragment != "" {
-					return ctx.error(errors.New("err uri fragment"))
-				} else {
-					if s := ctx.sax; s != nil {
-						switch err := s.EntityDecl(ctx.userData, name, int(ExternalParameterEntity), literal, uri, ""); err {
-						case nil, sax.ErrHandlerUnspecified:
-							// no op
-						default:
-							return ctx.error(err)
-						}
-					}
-				}
 			}
 		}
 	} else {
@@ -3315,27 +3360,10 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		} else {
 			literal, uri, err = ctx.parseExternalID()
 			if err != nil {
-				return ctx.error(ErrValueRequired)
+				return ctx.error(err)
 			}
-
-			if uri != "" {
-				u, err := url.Parse(uri)
-				if err != nil {
-					return ctx.error(err)
-				}
-
-				if u.Fragment != "" {
-					return ctx.error(errors.New("err uri fragment"))
-				} else {
-					if s := ctx.sax; s != nil {
-						switch err := s.EntityDecl(ctx.userData, name, int(ExternalGeneralParsedEntity), literal, uri, ""); err {
-						case nil, sax.ErrHandlerUnspecified:
-							// no op
-						default:
-							return ctx.error(err)
-						}
-					}
-				}
+			if err := checkEntityURI(uri); err != nil {
+				return ctx.error(err)
 			}
 
 			if c := cur.Peek(); c != '>' && !isBlankCh(c) {
@@ -3353,7 +3381,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 					return ctx.error(err)
 				}
 				if s := ctx.sax; s != nil {
-					switch err := s.EntityDecl(ctx.userData, name, int(ExternalParameterEntity), literal, uri, ndata); err {
+					switch err := s.UnparsedEntityDecl(ctx.userData, name, literal, uri, ndata); err {
 					case nil, sax.ErrHandlerUnspecified:
 						// no op
 					default:
@@ -3365,7 +3393,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 					if pdebug.Enabled {
 						pdebug.Printf("Calling s.EntityDecl with %s -> %s", name, literal)
 					}
-					switch err := s.EntityDecl(ctx.userData, name, int(ExternalParameterEntity), literal, uri, ""); err {
+					switch err := s.EntityDecl(ctx.userData, name, int(ExternalGeneralParsedEntity), literal, uri, ""); err {
 					case nil, sax.ErrHandlerUnspecified:
 						// no op
 					default:
@@ -4106,15 +4134,84 @@ func (ctx *parserCtx) parseNotationDecl() error {
 		g := pdebug.IPrintf("START parseNotationDecl")
 		defer g.IRelease("END parseNotationDecl")
 	}
-	return nil
+	return ErrUnimplemented{target: "NOTATION declaration"}
+}
+
+// atExternalID tells if what follows is an external identifier
+func (ctx *parserCtx) atExternalID() bool {
+	cur := ctx.getCursor()
+	return cur.HasPrefixString("SYSTEM") || cur.HasPrefixString("PUBLIC")
 }
 
-func (ctx *parserCtx) parseExternalID() (string, string, error) {
+// parseExternalID parses an external identifier, and returns its public and
+// system identifiers.
+//
+// [75] ExternalID ::= 'SYSTEM' S SystemLiteral
+//                   | 'PUBLIC' S PubidLiteral S SystemLiteral
+func (ctx *parserCtx) parseExternalID() (publicID string, systemID string, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseExternalID")
 		defer g.IRelease("END parseExternalID")
 	}
-	return "", "", nil
+
+	cur := ctx.getCursor()
+	if cur == nil {
+		panic("did not get rune cursor")
+	}
+
+	if cur.ConsumeString("PUBLIC") {
+		if !ctx.skipBlanks() {
+			return "", "", ErrSpaceRequired
+		}
+		publicID, err = ctx.parseQuotedText(func(qch rune) (string, error) {
+			return ctx.parseIDLiteral(qch, isPubidChar)
+		})
+		if err != nil {
+			return "", "", err
+		}
+	} else if !cur.ConsumeString("SYSTEM") {
+		return "", "", ErrValueRequired
+	}
+
+	if !ctx.skipBlanks() {
+		return "", "", ErrSpaceRequired
+	}
+	systemID, err = ctx.parseQuotedText(func(qch rune) (string, error) {
+		return ctx.parseIDLiteral(qch, isChar)
+	})
+	if err != nil {
+		return "", "", err
+	}
+	return publicID, systemID, nil
+}
+
+// parseIDLiteral parses the characters up to the closing quote
+//
+// [11] SystemLiteral ::= ('"' [^"]* '"') | ("'" [^']* "'")
+//
+// [12] PubidLiteral ::= '"' PubidChar* '"' | "'" (PubidChar - "'")* "'"
+func (ctx *parserCtx) parseIDLiteral(qch rune, allowed func(rune) bool) (string, error) {
+	cur := ctx.getCursor()
+	buf := bytes.Buffer{}
+	for c := cur.Peek(); c != qch; c = cur.Peek() {
+		if cur.Done() || !allowed(c) {
+			return "", ErrInvalidChar
+		}
+		buf.WriteRune(c)
+		cur.Advance(1)
+	}
+	return buf.String(), nil
+}
+
+// [13] PubidChar ::= #x20 | #xD | #xA | [a-zA-Z0-9] | [-'()+,./:=?;!*#@$_%]
+func isPubidChar(r rune) bool {
+	switch {
+	case r == ' ' || r == '\n' || r == '\r':
+		return true
+	case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9':
+		return true
+	}
+	return strings.ContainsRune("-'()+,./:=?;!*#@$_%", r)
 }
 
 func (ctx *parserCtx) parseEpilogue() error {
@@ -4144,8 +4241,13 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	if ctx.depth > 40 {
 		return nil, errors.New("entity loop")
 	}
+	if err := ctx.countEntityCopy(chunk); err != nil {
+		return nil, err
+	}
 
 	newctx := &parserCtx{}
+	newctx.sizeentcopy = ctx.sizeentcopy
+	defer func() { ctx.sizeentcopy = newctx.sizeentcopy }()
 	newctx.init(nil, bytes.NewReader(chunk))
 	// the chunk is already decoded, and its line endings are normalised
 	newctx.popInput()
diff --git a/tree.go b/tree.go
index 54ea3ac..9442e45 100644
--- a/tree.go
+++ b/tree.go
@@ -560,10 +560,7 @@ func (t *TreeBuilder) UnparsedEntityDecl(ctxif sax.Context, name string, publicI
 		defer g.IRelease("END tree.UnparsedEntityDecl")
 	}
 
-	// Because the parser needs to know about entities even in cases where
-	// there isn't a SAX handler registered, call to Document.RegisterEntry
-	// is done in the main parser -- and not here.
-	return nil
+	return t.EntityDecl(ctxif, name, int(ExternalGeneralUnparsedEntity), publicID, systemID, notation)
 }
 
 func (t *TreeBuilder) Error(ctxif sax.Context, message string, args ...interface{}) error {
-- 
2.43.0


From 4d5901fc4ce8efdfb80984abcc34454e0cf32c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 14/31] fix: keep sibling text merged and replaced nodes
 unlinked

---
 node.go | 13 +++++++++++++
 text.go |  3 ---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 9eaea85..b7cd77e 100644
--- a/node.go
+++ b/node.go
@@ -142,6 +142,10 @@ func (n docnode) PrevSibling() Node {
 func addSibling(n, cur Node) error {
 	for n != nil {
 		if n.NextSibling() == nil {
+			if t, ok := n.(*Text); ok && cur.Type() == TextNode {
+				// text next to text is merged
+				return t.AddContent(cur.Content())
+			}
 			n.SetNextSibling(cur)
 			cur.SetPrevSibling(n)
 			parent := n.Parent()
@@ -170,6 +174,10 @@ func (n *docnode) SetParent(cur Node) {
 }
 
 func replaceNode(n Node, cur Node) {
+	if n == cur {
+		return
+	}
+
 	if next := n.NextSibling(); next != nil {
 		cur.SetNextSibling(next) // cur.next = n.next
 		next.SetPrevSibling(cur) // n.next.prev = cur
@@ -189,6 +197,11 @@ func replaceNode(n Node, cur Node) {
 		}
 		cur.SetParent(parent)
 	}
+
+	// the replaced node isn't in the tree any more
+	n.SetParent(nil)
+	n.SetPrevSibling(nil)
+	n.SetNextSibling(nil)
 }
 
 func (n node) Namespace() *Namespace {
diff --git a/text.go b/text.go
index 6cfdf15..f40c8ec 100644
--- a/text.go
+++ b/text.go
@@ -39,9 +39,6 @@ func (n *Text) AddSibling(cur Node) error {
 		g := pdebug.IPrintf("START Text.AddSibling '%s'", cur.Content())
 		defer g.IRelease("END Text.AddSibling")
 	}
-	if cur.Type() == TextNode {
-		return n.AddContent(cur.Content())
-	}
 	return addSibling(n, cur)
 }
 
-- 
2.43.0


From 45864392600818e8619689240518ef1321edbe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 15/31] fix: report write errors when a document is serialised,
 and set the owner of added text

---
 dump.go | 23 +++++++++++++++++++++++
 node.go |  1 +
 2 files changed, 24 insertions(+)

diff --git a/dump.go b/dump.go
index b2de53b..c6d1d7b 100644
--- a/dump.go
+++ b/dump.go
@@ -212,6 +212,29 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
+	ew := &errorWriter{out: out}
+	if err := d.dumpDoc(ew, doc); err != nil {
+		return err
+	}
+	return ew.err
+}
+
+// errorWriter remembers the first error from the underlying writer
+type errorWriter struct {
+	out io.Writer
+	err error
+}
+
+func (w *errorWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.out.Write(p)
+	w.err = err
+	return n, err
+}
+
+func (d *Dumper) dumpDoc(out io.Writer, doc *Document) error {
 	// Write what the XML declaration says. Characters that the encoding
 	// doesn't have are written as character references
 	if e := encoding.Load(doc.encoding); e != nil && e != encoding.Load(encUTF8) {
diff --git a/node.go b/node.go
index b7cd77e..2d7c08d 100644
--- a/node.go
+++ b/node.go
@@ -62,6 +62,7 @@ func (n docnode) Content() []byte {
 
 func addContent(n Node, b []byte) error {
 	t := newText(b)
+	t.doc = n.OwnerDocument()
 	return n.AddChild(t)
 }
 
-- 
2.43.0


From 9bc5afd5a891b76b9a8c9509d68648d318cee644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 16/31] fix: let helium-lint report every failure to open,
 parse or write

---
 cmd/helium-lint/helium-lint.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index f13cf43..96d1511 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -46,7 +46,9 @@ func _main() int {
 	}
 
 	inputCh := make(chan io.Reader)
-	errCh := make(chan error)
+	// there's at most one error, which has to wait until the inputs
+	// before it are processed
+	errCh := make(chan error, 1)
 	switch {
 	case len(args) > 0: // filename present
 		go func() {
@@ -84,12 +86,15 @@ func _main() int {
 		}
 
 		d := helium.Dumper{}
-		d.DumpDoc(os.Stdout, doc)
+		if err := d.DumpDoc(os.Stdout, doc); err != nil {
+			fmt.Fprintf(os.Stderr, "%s\n", err)
+			return 1
+		}
 	}
 
 	select {
 	case err := <-errCh:
-		fmt.Fprintf(os.Stderr, "%s", err)
+		fmt.Fprintf(os.Stderr, "%s\n", err)
 		return 1
 	default:
 	}
-- 
2.43.0


From 8ddb750d5a1e590f4624a5354bc72808665b5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 17/31] fix: recognise empty-element tags only in tags, and do
 not swallow a NUL after a name

---
 parserctx.go | 88 +++++++++++++++++++++++-----------------------------
 1 file changed, 38 insertions(+), 50 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 3124a5c..a46b105 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -718,21 +718,18 @@ func (ctx *parserCtx) parseElement() error {
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
 	// be />
-	if err := ctx.parseStartTag(); err != nil {
+	empty, err := ctx.parseStartTag()
+	if err != nil {
 		return ctx.error(err)
 	}
 
-	cur := ctx.getCursor()
-	if cur == nil {
-		panic("did not get rune cursor")
-	}
-	if !cur.HasPrefixString("/>") {
+	if !empty {
 		if err := ctx.parseContent(); err != nil {
 			return ctx.error(err)
 		}
 	}
 
-	if err := ctx.parseEndTag(); err != nil {
+	if err := ctx.parseEndTag(empty); err != nil {
 		return ctx.error(err)
 	}
 
@@ -746,7 +743,7 @@ func joinQName(prefix, local string) string {
 	return prefix + ":" + local
 }
 
-func (ctx *parserCtx) parseStartTag() error {
+func (ctx *parserCtx) parseStartTag() (empty bool, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseStartTag")
 		defer g.IRelease("END parseStartTag")
@@ -757,21 +754,21 @@ func (ctx *parserCtx) parseStartTag() error {
 		panic("did not get rune cursor")
 	}
 	if cur.Peek() != '<' {
-		return ctx.error(ErrStartTagRequired)
+		return false, ctx.error(ErrStartTagRequired)
 	}
 	cur.Advance(1)
 
 	local, prefix, err := ctx.parseQName()
 	if local == "" {
-		return ctx.error(fmt.Errorf("local name empty! local = %s, prefix = %s, err = %s", local, prefix, err))
+		return false, ctx.error(fmt.Errorf("local name empty! local = %s, prefix = %s, err = %s", local, prefix, err))
 	}
 	if err != nil {
-		return ctx.error(err)
+		return false, ctx.error(err)
 	}
 
 	elem, err := ctx.doc.CreateElement(local)
 	if err != nil {
-		return ctx.error(err)
+		return false, ctx.error(err)
 	}
 
 	elemName := joinQName(prefix, local)
@@ -786,17 +783,18 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 
 		if cur.Peek() == '/' && cur.PeekN(2) == '>' {
+			empty = true
 			break
 		}
 		attname, aprefix, attvalue, err := ctx.parseAttribute(elemName)
 		if err != nil {
-			return ctx.error(err)
+			return false, ctx.error(err)
 		}
 
 		fullname := joinQName(aprefix, attname)
 		for _, seen := range names {
 			if seen == fullname {
-				return ctx.error(fmt.Errorf("duplicate attribute '%s' is not allowed", fullname))
+				return false, ctx.error(fmt.Errorf("duplicate attribute '%s' is not allowed", fullname))
 			}
 		}
 		names = append(names, fullname)
@@ -805,7 +803,7 @@ func (ctx *parserCtx) parseStartTag() error {
 			// the value may hold references
 			attvalue, err = ctx.decodeEntities([]byte(attvalue), SubstituteRef)
 			if err != nil {
-				return ctx.error(err)
+				return false, ctx.error(err)
 			}
 		}
 
@@ -819,7 +817,7 @@ func (ctx *parserCtx) parseStartTag() error {
 			}
 
 			if !isBlankCh(cur.Peek()) {
-				return ctx.error(ErrSpaceRequired)
+				return false, ctx.error(ErrSpaceRequired)
 			}
 			ctx.skipBlanks()
 			continue
@@ -829,29 +827,29 @@ func (ctx *parserCtx) parseStartTag() error {
 			// <elem xmlns:foo="...">
 			if attname == XMLPrefix { // xmlns:xml
 				if attvalue != XMLNamespace {
-					return ctx.error(errors.New("xml namespace prefix mapped to wrong URI"))
+					return false, ctx.error(errors.New("xml namespace prefix mapped to wrong URI"))
 				}
 				// skip storing namespace definition
 				goto SkipNS
 			}
 			if attname == XMLNsPrefix { // xmlns:xmlns="..."
-				return ctx.error(errors.New("redefinition of the xmlns prefix forbidden"))
+				return false, ctx.error(errors.New("redefinition of the xmlns prefix forbidden"))
 			}
 
 			if attvalue == "http://www.w3.org/2000/xmlns/" {
-				return ctx.error(errors.New("reuse of the xmlns namespace name if forbidden"))
+				return false, ctx.error(errors.New("reuse of the xmlns namespace name if forbidden"))
 			}
 
 			if attvalue == "" {
-				return ctx.error(fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", attname))
+				return false, ctx.error(fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", attname))
 			}
 
 			u, err = url.Parse(attvalue)
 			if err != nil {
-				return ctx.error(fmt.Errorf("xmlns:%s: '%s' is not a validURI", attname, attvalue))
+				return false, ctx.error(fmt.Errorf("xmlns:%s: '%s' is not a validURI", attname, attvalue))
 			}
 			if ctx.pedantic && u.Scheme == "" {
-				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
+				return false, ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
 			ctx.pushNS(attname, attvalue)
@@ -863,7 +861,7 @@ func (ctx *parserCtx) parseStartTag() error {
 			}
 
 			if !isBlankCh(cur.Peek()) {
-				return ctx.error(ErrSpaceRequired)
+				return false, ctx.error(ErrSpaceRequired)
 			}
 			ctx.skipBlanks()
 			// ctx.input.base != base || inputNr != ctx.inputNr; goto base_changed
@@ -881,7 +879,7 @@ func (ctx *parserCtx) parseStartTag() error {
 		attrs = append(attrs, attr)
 
 		if cur.Peek() != '>' && !cur.HasPrefixString("/>") && !isBlankCh(cur.Peek()) {
-			return ctx.error(ErrSpaceRequired)
+			return false, ctx.error(ErrSpaceRequired)
 		}
 	}
 
@@ -905,7 +903,7 @@ func (ctx *parserCtx) parseStartTag() error {
 					// a namespace declaration: the prefix is its local name
 					uri, err := ctx.decodeEntities([]byte(attr.value), SubstituteRef)
 					if err != nil {
-						return ctx.error(err)
+						return false, ctx.error(err)
 					}
 					if attr.prefix == "" {
 						ctx.pushNS("", uri)
@@ -925,7 +923,7 @@ func (ctx *parserCtx) parseStartTag() error {
 	// via lookupNamespace
 	nsuri := ctx.lookupNamespace(prefix)
 	if prefix != "" && nsuri == "" {
-		return ctx.error(errors.New("namespace '" + prefix + "' not found"))
+		return false, ctx.error(errors.New("namespace '" + prefix + "' not found"))
 	}
 	if nsuri != "" {
 		elem.SetNamespace(prefix, nsuri, true)
@@ -944,12 +942,12 @@ func (ctx *parserCtx) parseStartTag() error {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
 		default:
-			return ctx.error(err)
+			return false, ctx.error(err)
 		}
 	}
 	ctx.pushNode(elem)
 
-	return nil
+	return empty, nil
 }
 
 /**
@@ -961,7 +959,7 @@ func (ctx *parserCtx) parseStartTag() error {
  *
  * [NS 9] ETag ::= '</' QName S? '>'
  */
-func (ctx *parserCtx) parseEndTag() error {
+func (ctx *parserCtx) parseEndTag(empty bool) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseEndTag")
 		defer g.IRelease("END parseEndTag")
@@ -971,7 +969,11 @@ func (ctx *parserCtx) parseEndTag() error {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
-	if !cur.ConsumeString("/>") {
+	if empty {
+		if !cur.ConsumeString("/>") {
+			return ctx.error(ErrGtRequired)
+		}
+	} else {
 		if !cur.ConsumeString("</") {
 			return ctx.error(ErrLtSlashRequired)
 		}
@@ -1514,14 +1516,11 @@ func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
 	buf.WriteRune(c)
 
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '.' && c != '_' && c != '-' {
-			i--
-			break
-		}
+	for c = cur.PeekN(i); (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '.' || c == '_' || c == '-'; c = cur.PeekN(i) {
 		buf.WriteRune(c)
 		i++
 	}
+	i--
 
 	cur.Advance(i)
 
@@ -1715,19 +1714,11 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 	buf.WriteRune(c)
 
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if c == ' ' || c == '>' || c == '/' { /* accelerator */
-			i--
-			break
-		}
-		if !isNameChar(c) {
-			i--
-			break
-		}
+	for c = cur.PeekN(i); isNameChar(c); c = cur.PeekN(i) {
 		buf.WriteRune(c)
-
 		i++
 	}
+	i--
 	if i > MaxNameLength {
 		err = ctx.error(ErrNameTooLong)
 		return
@@ -1905,14 +1896,11 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	// at this point we have at least 1 character name.
 	// see how much more we got here
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if c == ':' || !isNameChar(c) {
-			i--
-			break
-		}
+	for c = cur.PeekN(i); c != ':' && isNameChar(c); c = cur.PeekN(i) {
 		buf.WriteRune(c)
 		i++
 	}
+	i--
 	if i > MaxNameLength {
 		err = ctx.error(ErrNameTooLong)
 		return
-- 
2.43.0


From 4ab23c44d753e31ebd61f306ebbd5d382b3a2484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 18/31] fix: set the owner of text added to the document

---
 document.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 0a77494..3a20bde 100644
--- a/document.go
+++ b/document.go
@@ -42,7 +42,9 @@ func (d *Document) AddChild(cur Node) error {
 }
 
 func (d *Document) AddContent(b []byte) error {
-	return addContent(d, b)
+	t := newText(b)
+	t.doc = d
+	return d.AddChild(t)
 }
 
 func (d *Document) AddSibling(n Node) error {
-- 
2.43.0


From f19ae017e61b00ee4c600649db270ada01b0a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:02 +0000
Subject: [PATCH 19/31] fix: attributes with the same expanded name were
 accepted under different prefixes

---
 parserctx.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index a46b105..d5209a6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -929,6 +929,22 @@ func (ctx *parserCtx) parseStartTag() (empty bool, err error) {
 		elem.SetNamespace(prefix, nsuri, true)
 	}
 
+	// different prefixes may be bound to the same namespace
+	for i, attr := range attrs {
+		uri := ""
+		if p := attr.Prefix(); p != "" {
+			uri = ctx.lookupNamespace(p)
+		}
+		if uri == "" {
+			continue
+		}
+		for _, other := range attrs[:i] {
+			if p := other.Prefix(); p != "" && other.LocalName() == attr.LocalName() && ctx.lookupNamespace(p) == uri {
+				return false, ctx.error(fmt.Errorf("duplicate attribute '%s' in namespace '%s' is not allowed", attr.LocalName(), uri))
+			}
+		}
+	}
+
 	if s := ctx.sax; s != nil {
 		var nslist []sax.Namespace
 		if nbNs > 0 {
-- 
2.43.0


From 79e594a7de424c0605a64d0ef5826e6752154acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 20/31] fix: a character split by a buffer's end behind a CRLF
 was misread, or crashed the parser

---
 parserctx.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d5209a6..64c978c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -388,11 +388,13 @@ type documentReader struct {
 	invalid bool
 }
 
+// Read fills p unless the input ends: the cursor can't tell a character
+// that is cut off at the end of a short read from a complete one.
 func (r *documentReader) Read(p []byte) (int, error) {
-	for {
-		n, err := r.in.Read(p)
-		o := 0
-		for _, b := range p[:n] {
+	o := 0
+	for o < len(p) {
+		n, err := r.in.Read(p[o:])
+		for _, b := range p[o : o+n] {
 			if b == '\n' && r.lastCR {
 				r.lastCR = false
 				continue
@@ -417,10 +419,11 @@ func (r *documentReader) Read(p []byte) (int, error) {
 			p[o] = b
 			o++
 		}
-		if o > 0 || n == 0 || err != nil {
+		if err != nil {
 			return o, err
 		}
 	}
+	return o, nil
 }
 
 var xmlDeclHint = []byte{'<', '?', 'x', 'm', 'l'}
-- 
2.43.0


From 187f603f2f0e37133927cd679e0080a4696031ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 21/31] fix: error line numbers left out line feeds in the XML
 declaration, and before ']]>' or bad characters in text and comments

---
 parser_interface.go |  1 +
 parserctx.go        | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/parser_interface.go b/parser_interface.go
index 3b774ea..20273eb 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -116,6 +116,7 @@ type parserCtx struct {
 	detectedEncoding  string
 	hasBOM            bool            // was there an UTF-8 byte order mark
 	input             *documentReader // the decoded document
+	declLines         int             // line feeds in the XML declaration
 	in                io.Reader
 	nbread            int
 	instate           parserState
diff --git a/parserctx.go b/parserctx.go
index 64c978c..429a4a2 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -225,6 +225,10 @@ func (ctx *parserCtx) error(err error) error {
 	if cur := ctx.getCursor(); cur != nil {
 		e.Column = cur.Column()
 		e.LineNumber = cur.LineNumber()
+		if ctx.inputTab.Len() == 1 {
+			// the cursor doesn't know about the XML declaration
+			e.LineNumber += ctx.declLines
+		}
 		e.Line = cur.Line()
 	}
 	return e
@@ -371,6 +375,7 @@ func (ctx *parserCtx) switchEncoding() error {
 	}
 
 	ctx.input = &documentReader{in: enc.NewDecoder().Reader(cur)}
+	ctx.declLines = cur.LineNumber() - 1
 	ctx.popInput()
 	ctx.pushInput(strcursor.NewRuneCursor(ctx.input))
 
@@ -660,6 +665,8 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 				break
 			}
 
+			// so that the error is reported where it is
+			cur.Advance(i)
 			return ctx.error(ErrMisplacedCDATAEnd)
 		}
 
@@ -2099,6 +2106,8 @@ func (ctx *parserCtx) parseComment() error {
 
 	r := cur.PeekN(i + 1)
 	if !isChar(r) {
+		// so that the error is reported where it is
+		cur.Advance(i)
 		return ctx.error(ErrInvalidChar)
 	}
 	i++
@@ -2106,6 +2115,7 @@ func (ctx *parserCtx) parseComment() error {
 
 	for c := cur.PeekN(i + 1); isChar(c) && (q != '-' || r != '-' || c != '>'); c = cur.PeekN(i + 1) {
 		if q == '-' && r == '-' {
+			cur.Advance(i)
 			return ctx.error(ErrHyphenInComment)
 		}
 		buf.WriteRune(c)
-- 
2.43.0


From 0274c4c3c970870620c6b1abdf18d91a789da77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 22/31] fix: a document without XML declaration has version
 1.0, also before it is serialised

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index 429a4a2..f6683ab 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -205,6 +205,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.keepBlanks = true
 	ctx.instate = psStart
 	ctx.userData = ctx // circular dep?!
+	ctx.version = "1.0"
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
 	ctx.attsDefault = map[string][]*attrData{}
-- 
2.43.0


From 2a01b648cd2b50aee4cb1994eca03a3fee134666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 23/31] fix: a document of four bytes behind a byte order mark
 was rejected

---
 parserctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index f6683ab..a857323 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -469,7 +469,8 @@ func (ctx *parserCtx) parseDocument() error {
 	}
 
 	// XML prolog
-	if bcur.HasPrefix(xmlDeclHint) && isBlankCh(rune(bcur.PeekN(len(xmlDeclHint)+1))) {
+	// (don't ask for more bytes than there may be: the cursor drops what it has)
+	if bcur.PeekN(2) == '?' && bcur.HasPrefix(xmlDeclHint) && isBlankCh(rune(bcur.PeekN(len(xmlDeclHint)+1))) {
 		if err := ctx.parseXMLDecl(); err != nil {
 			return ctx.error(err)
 		}
-- 
2.43.0


From 5208b7633ab31b4ef83b7d3536064a6af5eddb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 24/31] fix: blanks in entities referenced from attributes were
 not normalised

---
 attr.go      | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 parserctx.go |  3 +++
 tree.go      |  8 +++++++
 3 files changed, 71 insertions(+)

diff --git a/attr.go b/attr.go
index 2f4bf69..5a8276d 100644
--- a/attr.go
+++ b/attr.go
@@ -1,5 +1,7 @@
 package helium
 
+import "bytes"
+
 func newAttributeDecl() *AttributeDecl {
 	attr := &AttributeDecl{}
 	attr.etype = AttributeDeclNode
@@ -76,6 +78,64 @@ func (n Attribute) Value() string {
 	return string(n.Content())
 }
 
+// Content returns the normalized value, with all entities expanded
+func (n Attribute) Content() []byte {
+	out := bytes.Buffer{}
+	for c := n.firstChild; c != nil; c = c.NextSibling() {
+		if ref, ok := c.(*EntityRef); ok {
+			expandAttrEntity(&out, ref.doc, ref.name, 0)
+		} else {
+			out.Write(c.Content())
+		}
+	}
+	if n.atype != AttrInvalid && n.atype != AttrCDATA {
+		return []byte(normalizeSpace(out.String()))
+	}
+	return out.Bytes()
+}
+
+// expandAttrEntity writes the text that a reference to an entity stands for
+// within an attribute. Unlike elsewhere, blanks become spaces (but those that
+// are written as character references)
+func expandAttrEntity(out *bytes.Buffer, doc *Document, name string, depth int) {
+	if depth > 40 {
+		return
+	}
+	if ent, err := resolvePredefinedEntity(name); err == nil {
+		out.WriteString(ent.content)
+		return
+	}
+	if doc == nil {
+		return
+	}
+	ent, ok := doc.GetEntity(name)
+	if !ok || ent.entityType != InternalGeneralEntity {
+		return
+	}
+
+	n, err := doc.stringToNodeList(blanksToSpaces(ent.content))
+	if err != nil {
+		return
+	}
+	for ; n != nil; n = n.NextSibling() {
+		if ref, ok := n.(*EntityRef); ok {
+			expandAttrEntity(out, doc, ref.name, depth+1)
+		} else {
+			out.Write(n.Content())
+		}
+	}
+}
+
+func blanksToSpaces(s string) string {
+	b := []byte(s)
+	for i, c := range b {
+		if isBlankCh(rune(c)) {
+			b[i] = ' '
+		}
+	}
+	return string(b)
+}
+
 func (n Attribute) Prefix() string {
 	if n.ns == nil {
 		return ""
diff --git a/parserctx.go b/parserctx.go
index a857323..6e4319d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3801,7 +3801,10 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 			}
 		}()
 	}
+	return normalizeSpace(s)
+}
 
+func normalizeSpace(s string) (value string) {
 	// don't bother if we have zero length
 	if len(s) == 0 {
 		value = s
diff --git a/tree.go b/tree.go
index 9442e45..dac1c93 100644
--- a/tree.go
+++ b/tree.go
@@ -115,6 +115,14 @@ func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri s
 		}
 	}
 
+	// the values of attributes other than CDATA are normalized further
+	qname := joinQName(prefix, localname)
+	for _, attr := range e.Attributes() {
+		if typ, ok := ctx.lookupSpecialAttribute(qname, attr.Name()); ok {
+			attr.atype = typ
+		}
+	}
+
 	var parent Node
 	if e := ctx.elem; e != nil {
 		parent = e
-- 
2.43.0


From a6fcc5bcd6d0433c846e7f8f5f82773e71678bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 25/31] fix: an external entity's declaration changed the text
 of an empty internal one declared before

---
 parserctx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 6e4319d..ee5dc97 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3312,6 +3312,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 	var literal string
 	var value string
 	var uri string
+	internal := false
 
 	if isParameter {
 		if pdebug.Enabled {
@@ -3322,6 +3323,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			if pdebug.Enabled {
 				pdebug.Printf("parseEntityDecl, isParameter = true, calling parseEntityValue")
 			}
+			internal = true
 			literal, value, err = ctx.parseEntityValue()
 			if pdebug.Enabled {
 				pdebug.Printf("entity declaration '%s' -> '%s'", name, value)
@@ -3363,6 +3365,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			pdebug.Printf("Found entity")
 		}
 		if c := cur.Peek(); c == '"' || c == '\'' {
+			internal = true
 			literal, value, err = ctx.parseEntityValue()
 			if err != nil {
 				return ctx.error(err)
@@ -3473,7 +3476,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 	}
 	// Only if it's this declaration: an earlier one is binding
-	if e, ok := curent.(*Entity); ok && e != nil && e.orig == "" && e.content == value {
+	if e, ok := curent.(*Entity); internal && ok && e != nil && e.orig == "" && e.content == value {
 		switch e.entityType {
 		case InternalGeneralEntity, InternalParameterEntity:
 			e.SetOrig(literal)
-- 
2.43.0


From cd8f3cc7161bb60a409bf6c81046bec4c13c3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 26/31] fix: replacement text with an ampersand that begins no
 reference was serialised as is

---
 dump.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dump.go b/dump.go
index c6d1d7b..3ebef1e 100644
--- a/dump.go
+++ b/dump.go
@@ -461,11 +461,9 @@ func dumpEntityContent(out io.Writer, content string) error {
 		case '\r':
 			buf.Write(esc_cr)
 		case '&':
-			next, err := rdr.ReadByte()
-			if err == nil {
-				rdr.UnreadByte()
-			}
-			if next == '#' {
+			// only references to entities are left alone
+			rest := content[len(content)-rdr.Len():]
+			if _, width, err := parseStringName([]byte(rest)); err != nil || width >= len(rest) || rest[width] != ';' {
 				buf.WriteString("&#38;")
 			} else {
 				buf.WriteByte(c)
-- 
2.43.0


From 008f55b903bee8d4623f8461af063093a241d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 27/31] fix: DumpNode and Element.XML report errors of the
 writer

---
 dump.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dump.go b/dump.go
index 3ebef1e..8594975 100644
--- a/dump.go
+++ b/dump.go
@@ -673,6 +673,15 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		defer g.IRelease("END Dumper.DumpNode")
 	}
 
+	// the errors of the underlying writer are reported at the end
+	if _, ok := out.(*errorWriter); !ok {
+		ew := &errorWriter{out: out}
+		if err := d.DumpNode(ew, n); err != nil {
+			return err
+		}
+		return ew.err
+	}
+
 	var err error
 	switch n.Type() {
 	case DocumentNode:
-- 
2.43.0


From b008f518c3030f19bc925b11212db2d30632335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 28/31] fix: comments and processing instructions that can't be
 written are errors

---
 dump.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dump.go b/dump.go
index 8594975..716c55f 100644
--- a/dump.go
+++ b/dump.go
@@ -695,12 +695,18 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		}
 		return nil
 	case CommentNode:
+		if c := n.Content(); bytes.Contains(c, []byte("--")) || bytes.HasSuffix(c, []byte("-")) {
+			return errors.New("comments can't contain '--' or end with '-'")
+		}
 		io.WriteString(out, "<!--")
 		out.Write(n.Content())
 		io.WriteString(out, "-->")
 		return nil
 	case ProcessingInstructionNode:
 		pi := n.(*ProcessingInstruction)
+		if strings.Contains(pi.data, "?>") {
+			return errors.New("processing instructions can't contain '?>'")
+		}
 		io.WriteString(out, "<?")
 		io.WriteString(out, pi.target)
 		if pi.data != "" {
-- 
2.43.0


From 4595cd92fe0ca6c4edc0425ca44bf658c4b0abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 29/31] fix: AddElementDecl refuses sequences and choices
 without parts (they panicked when copied or written)

---
 dtd.go   |  3 +++
 valid.go | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/dtd.go b/dtd.go
index b2616d3..56b403d 100644
--- a/dtd.go
+++ b/dtd.go
@@ -62,6 +62,9 @@ func (dtd *DTD) AddElementDecl(name string, typ ElementTypeVal, content *Element
 		if content == nil {
 			return nil, errors.New("content must be non-nil for MIXED/ELEMENT elements")
 		}
+		if !content.complete() {
+			return nil, errors.New("content lacks the parts of a sequence or choice")
+		}
 	default:
 		return nil, errors.New("invalid ElementContent")
 	}
diff --git a/valid.go b/valid.go
index eae00b9..48dfd19 100644
--- a/valid.go
+++ b/valid.go
@@ -43,6 +43,19 @@ func newElementContent(name string, ctype ElementContentType) (*ElementContent,
 	return &ret, nil
 }
 
+// complete tells if all sequences and choices have their parts
+func (elem *ElementContent) complete() bool {
+	for ; elem != nil; elem = elem.c2 {
+		if elem.ctype != ElementContentSeq && elem.ctype != ElementContentOr {
+			return true
+		}
+		if elem.c1 == nil || !elem.c1.complete() {
+			return false
+		}
+	}
+	return false
+}
+
 func (elem *ElementContent) copyElementContent() *ElementContent {
 	if elem == nil {
 		return nil
-- 
2.43.0


From fad9dc9e1568ef52315106060ec1d94f26e0c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 30/31] fix: a leading colon is part of a declared name, not an
 empty prefix

---
 dtd.go       | 4 ++--
 parserctx.go | 2 +-
 tree.go      | 2 +-
 valid.go     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtd.go b/dtd.go
index 56b403d..1e73ac4 100644
--- a/dtd.go
+++ b/dtd.go
@@ -70,7 +70,7 @@ func (dtd *DTD) AddElementDecl(name string, typ ElementTypeVal, content *Element
 	}
 
 	var prefix string
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		prefix = name[:i]
 		name = name[i+1:]
 	}
@@ -175,7 +175,7 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
 	var prefix string
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		prefix = name[:i]
 		name = name[i+1:]
 	}
diff --git a/parserctx.go b/parserctx.go
index ee5dc97..1f114c6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4011,7 +4011,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 	// See xmlAddDefAttrs for details of what the original code is doing
 	var prefix string
 	var local string
-	if i := strings.IndexByte(attrName, ':'); i > -1 {
+	if i := strings.IndexByte(attrName, ':'); i > 0 {
 		prefix = attrName[:i]
 		local = attrName[i+1:]
 	} else {
diff --git a/tree.go b/tree.go
index dac1c93..fd2d7e4 100644
--- a/tree.go
+++ b/tree.go
@@ -326,7 +326,7 @@ func (t *TreeBuilder) AttributeDecl(ctxif sax.Context, eName string, aName strin
 	}
 	var prefix string
 	var local string
-	if i := strings.IndexByte(aName, ':'); i > -1 {
+	if i := strings.IndexByte(aName, ':'); i > 0 {
 		prefix = aName[:i]
 		local = aName[i+1:]
 	} else {
diff --git a/valid.go b/valid.go
index 48dfd19..8f3dee7 100644
--- a/valid.go
+++ b/valid.go
@@ -19,7 +19,7 @@ func newElementContent(name string, ctype ElementContentType) (*ElementContent,
 		if name == "" {
 			return nil, errors.New("ElementContent (element) must have name")
 		}
-		if i := strings.IndexByte(name, ':'); i > -1 {
+		if i := strings.IndexByte(name, ':'); i > 0 {
 			prefix = name[:i]
 			local = name[i+1:]
 		} else {
-- 
2.43.0


From dfb853fad14c982eccbe58e230d7e90fe424bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 31/31] fix: refuse namespace declarations that Namespaces in
 XML reserves

---
 parserctx.go | 57 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 1f114c6..463ee3e 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -755,6 +755,28 @@ func joinQName(prefix, local string) string {
 	return prefix + ":" + local
 }
 
+// checkNSDecl refuses the namespace declarations that Namespaces in XML
+// reserves: "xml" is bound to its own namespace name and no other prefix is,
+// nothing is bound to the name of "xmlns", which can't be declared, and only
+// the default namespace may be undeclared.
+func checkNSDecl(prefix, uri string) error {
+	switch {
+	case prefix == XMLPrefix:
+		if uri != XMLNamespace {
+			return errors.New("xml namespace prefix mapped to wrong URI")
+		}
+	case prefix == XMLNsPrefix:
+		return errors.New("redefinition of the xmlns prefix forbidden")
+	case uri == XMLNamespace:
+		return errors.New("xml namespace URI mapped to wrong prefix")
+	case uri == "http://www.w3.org/2000/xmlns/":
+		return errors.New("reuse of the xmlns namespace name is forbidden")
+	case uri == "" && prefix != "":
+		return fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", prefix)
+	}
+	return nil
+}
+
 func (ctx *parserCtx) parseStartTag() (empty bool, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseStartTag")
@@ -821,6 +843,9 @@ func (ctx *parserCtx) parseStartTag() (empty bool, err error) {
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
+			if err := checkNSDecl("", attvalue); err != nil {
+				return false, ctx.error(err)
+			}
 			ctx.pushNS("", attvalue)
 			nbNs++
 			//    SkipDefaultNS:
@@ -837,24 +862,13 @@ func (ctx *parserCtx) parseStartTag() (empty bool, err error) {
 			var u *url.URL // predeclare, so we can use goto SkipNS
 
 			// <elem xmlns:foo="...">
+			if err := checkNSDecl(attname, attvalue); err != nil {
+				return false, ctx.error(err)
+			}
 			if attname == XMLPrefix { // xmlns:xml
-				if attvalue != XMLNamespace {
-					return false, ctx.error(errors.New("xml namespace prefix mapped to wrong URI"))
-				}
 				// skip storing namespace definition
 				goto SkipNS
 			}
-			if attname == XMLNsPrefix { // xmlns:xmlns="..."
-				return false, ctx.error(errors.New("redefinition of the xmlns prefix forbidden"))
-			}
-
-			if attvalue == "http://www.w3.org/2000/xmlns/" {
-				return false, ctx.error(errors.New("reuse of the xmlns namespace name if forbidden"))
-			}
-
-			if attvalue == "" {
-				return false, ctx.error(fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", attname))
-			}
 
 			u, err = url.Parse(attvalue)
 			if err != nil {
@@ -917,12 +931,17 @@ func (ctx *parserCtx) parseStartTag() (empty bool, err error) {
 					if err != nil {
 						return false, ctx.error(err)
 					}
-					if attr.prefix == "" {
-						ctx.pushNS("", uri)
-					} else {
-						ctx.pushNS(attr.localname, uri)
+					declared := ""
+					if attr.prefix != "" {
+						declared = attr.localname
+					}
+					if err := checkNSDecl(declared, uri); err != nil {
+						return false, ctx.error(err)
+					}
+					if declared != XMLPrefix {
+						ctx.pushNS(declared, uri)
+						nbNs++
 					}
-					nbNs++
 					continue
 				}
 				attrs = append(attrs, attr)
-- 
2.43.0

