From 90172a6585bf029f6fd670b9037c1ed4d610d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 01/33] fix: report writer failures while dumping

Most of the writes made by Dumper (and therefore Document.XML,
Document.XMLString and Element.XML) ignored the error returned by the
underlying writer, so a document could be truncated, or written with
holes in it, while nil was returned. Remember the first failure, stop
writing once it happened, and report it to the caller.
---
 dump.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index 0e1983b..d80304f 100644
--- a/dump.go
+++ b/dump.go
@@ -196,6 +196,34 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 
 type Dumper struct{}
 
+// dumpWriter remembers the first error from the underlying writer. Once a
+// write has failed nothing more is sent to the underlying writer, and every
+// subsequent write fails with that same error.
+type dumpWriter struct {
+	out io.Writer
+	err error
+}
+
+func (w *dumpWriter) Write(b []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+
+	n, err := w.out.Write(b)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	w.err = err
+	return n, err
+}
+
+func newDumpWriter(out io.Writer) *dumpWriter {
+	if w, ok := out.(*dumpWriter); ok {
+		return w
+	}
+	return &dumpWriter{out: out}
+}
+
 func (d *Dumper) writeString(out io.Writer, content string) error {
 	// punt all the magic for now
 	_, err := io.WriteString(out, content)
@@ -208,6 +236,7 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
+	out = newDumpWriter(out)
 	if err := d.DumpNode(out, doc); err != nil {
 		return err
 	}
@@ -216,7 +245,9 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		if err := d.DumpNode(out, e); err != nil {
 			return err
 		}
-		io.WriteString(out, "\n")
+		if _, err := io.WriteString(out, "\n"); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -608,6 +639,14 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 }
 
 func (d *Dumper) DumpNode(out io.Writer, n Node) error {
+	w := newDumpWriter(out)
+	if err := d.dumpNode(w, n); err != nil {
+		return err
+	}
+	return w.err
+}
+
+func (d *Dumper) dumpNode(out io.Writer, n Node) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START Dumper.DumpNode '%s'", n.Name())
 		defer g.IRelease("END Dumper.DumpNode")
-- 
2.43.0


From efefe743aedb16c34ff42fc0372268ac316fc5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 02/33] fix: helium-lint hangs on unreadable files and hides
 output errors

When a file could not be opened the goroutine feeding the inputs blocked
forever on the unbuffered error channel, before closing the input
channel, so the program never terminated. Errors writing the result to
stdout were dropped, and the program exited with status 0.
---
 cmd/helium-lint/helium-lint.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index f13cf43..f7aaae9 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -46,7 +46,7 @@ func _main() int {
 	}
 
 	inputCh := make(chan io.Reader)
-	errCh := make(chan error)
+	errCh := make(chan error, 1) // the sender must not block: nobody reads this until inputCh is closed
 	switch {
 	case len(args) > 0: // filename present
 		go func() {
@@ -84,12 +84,15 @@ func _main() int {
 		}
 
 		d := helium.Dumper{}
-		d.DumpDoc(os.Stdout, doc)
+		if err := d.DumpDoc(os.Stdout, doc); err != nil {
+			fmt.Fprintf(os.Stderr, "%s\n", err)
+			return 1
+		}
 	}
 
 	select {
 	case err := <-errCh:
-		fmt.Fprintf(os.Stderr, "%s", err)
+		fmt.Fprintf(os.Stderr, "%s\n", err)
 		return 1
 	default:
 	}
-- 
2.43.0


From bd90ff148232fb5505f30b9a8263d8d8845f9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 03/33] fix: do not loop forever on unrecognized internal
 subset content

parseInternalSubset never made any progress when it came across
something that is not a markup declaration that it knows how to consume
(e.g. <!DOCTYPE a [ x ]>, <!NOTATION ...>, or a truncated <!E).
---
 parserctx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index a11dde6..1b37924 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2091,6 +2091,7 @@ func (ctx *parserCtx) parseInternalSubset() error {
 	cur.Advance(1)
 
 	for !cur.Done() && cur.Peek() != ']' {
+		line, column := cur.LineNumber(), cur.Column()
 		ctx.skipBlanks()
 		if err := ctx.parseMarkupDecl(); err != nil {
 			return ctx.error(err)
@@ -2099,6 +2100,10 @@ func (ctx *parserCtx) parseInternalSubset() error {
 			return ctx.error(err)
 		}
 
+		if cur.LineNumber() == line && cur.Column() == column {
+			// nothing has been consumed, and nothing ever will be
+			return ctx.error(ErrInvalidDTD)
+		}
 	}
 
 	if cur.Peek() == ']' {
-- 
2.43.0


From 09b4a70e5eb160c6ed168714fca72dd6ffa038a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 04/33] fix: parseNmtoken never terminated

The loop never fetched the next character, so any enumerated attribute
type (<!ATTLIST a b (x|y) #IMPLIED>) looped forever, while growing the
buffer.
---
 parserctx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 1b37924..229cc9d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1747,12 +1747,15 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	for c := cur.PeekN(i); c != 0x0; i++ {
-		if !isNameChar(c) {
-			break
-		}
+	for c := cur.PeekN(i); isNameChar(c); c = cur.PeekN(i) {
 		buf.WriteRune(c)
+		i++
+	}
+
+	if i == 1 {
+		return "", ctx.error(ErrNmtokenRequired)
 	}
+	cur.Advance(i - 1)
 
 	return buf.String(), nil
 }
-- 
2.43.0


From f3b2684380d03fdd839174c8cd7c11b092650246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 05/33] fix: do not loop forever on unterminated CDATA sections

At the end of the input the cursor keeps returning utf8.RuneError, which
parseCharData happily kept on appending to its buffer.
---
 parserctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 229cc9d..548e519 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -606,6 +606,9 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 			if c == '<' || c == '&' || !isChar(c) {
 				break
 			}
+		} else if !isChar(c) {
+			// an illegal character, or the end of the input
+			return ctx.error(ErrCDATANotFinished)
 		}
 
 		if c == ']' && cur.PeekN(i+2) == ']' && cur.PeekN(i+3) == '>' {
-- 
2.43.0


From 06ccf05fecf4ce60fe117570bbbd3c6bc74b5407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 06/33] fix: reject unterminated comments

A comment that is cut short by the end of the input (or by an illegal
character) was reported to the handler with its last two characters
chopped off, and in the epilogue the document was even accepted.
---
 parserctx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 548e519..6289381 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1997,6 +1997,11 @@ func (ctx *parserCtx) parseComment() error {
 		i++
 	}
 
+	if q != '-' || r != '-' || cur.PeekN(i+1) != '>' {
+		// an illegal character, or the end of the input
+		return ctx.error(ErrInvalidComment)
+	}
+
 	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
 	buf.Truncate(buf.Len() - 2)
 	str := buf.Bytes()
-- 
2.43.0


From 5d29d544801254e5c531526ab32b8a81163bc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 07/33] fix: do not panic on unterminated character references
 in entity values

<!ENTITY e '&#'> and <!ENTITY e '&#65'> ran off the end of the string.
---
 parserctx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 6289381..2c91976 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4442,7 +4442,7 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	s = s[2:]
 
 	var accumulator func(int32, rune) (int32, error)
-	if s[0] == 'x' {
+	if len(s) > 0 && s[0] == 'x' {
 		s = s[1:]
 		width++
 		accumulator = accumulateHexCharRef
@@ -4450,8 +4450,8 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 		accumulator = accumulateDecimalCharRef
 	}
 
-	for c := s[0]; c != ';'; c = s[0] {
-		val, err = accumulator(val, rune(c))
+	for len(s) > 0 && s[0] != ';' {
+		val, err = accumulator(val, rune(s[0]))
 		if err != nil {
 			width = 0
 			return
@@ -4466,10 +4466,10 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 		width++
 	}
 
-	if s[0] == ';' {
-		s = s[1:]
-		width++
+	if len(s) == 0 {
+		return utf8.RuneError, 0, ErrSemicolonRequired
 	}
+	width++ // ';'
 
 	r = rune(val)
 	if !isChar(val) {
-- 
2.43.0


From 0492bc78de72eba81de78dc67c6042fdf3f2850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 08/33] fix: do not panic on references to undeclared entities

The condition for the 'Entity Declared' well-formedness constraint was
inverted with regards to parameter entity references, so in a document
without any the parser went on with a nil entity, and panicked. When not
all declarations have been read the reference is not an error, and it is
skipped (in attribute values) or just reported to the handler (in
content). Also do not look for declarations in a document that has not
been created, which is the case for handlers that do not build one.
---
 parserctx.go | 66 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 2c91976..b955d5f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -975,13 +975,15 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 				}
 			} else {
 				var ent *Entity
-				ent, err = ctx.parseEntityRef()
+				ent, _, err = ctx.parseEntityRef()
 				if err != nil {
 					err = ctx.error(err)
 					return
 				}
 
-				if ent.entityType == InternalPredefinedEntity {
+				if ent == nil {
+					// undeclared, but that was not an error. skip it
+				} else if ent.entityType == InternalPredefinedEntity {
 					if ent.content == "&" && !ctx.replaceEntities {
 						b.WriteString("&#38;")
 					} else {
@@ -4084,11 +4086,23 @@ func (ctx *parserCtx) parseReference() error {
 	}
 
 	// &...
-	ent, err := ctx.parseEntityRef()
+	ent, name, err := ctx.parseEntityRef()
 	if err != nil {
 		return ctx.error(err)
 	}
 	// if !ctx.wellFormed { return } ??
+	if ent == nil {
+		// undeclared, but that was not an error. Just report the reference
+		if s := ctx.sax; s != nil {
+			switch err := s.Reference(ctx.userData, name); err {
+			case nil, sax.ErrHandlerUnspecified:
+				// no op
+			default:
+				return ctx.error(err)
+			}
+		}
+		return nil
+	}
 
 	wasChecked := ent.checked
 
@@ -4838,9 +4852,11 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
  * [ WFC: Parsed Entity ]
  * An entity reference must not contain the name of an unparsed entity
  *
- * Returns the xmlEntityPtr if found, or NULL otherwise.
+ * Returns the entity if found. If the entity is not declared, but that is
+ * not an error (because not all declarations have been read), returns nil.
+ * The name is the one that was referred to.
  */
-func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
+func (ctx *parserCtx) parseEntityRef() (ent *Entity, name string, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseEntityRef")
 		defer func() {
@@ -4858,7 +4874,7 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	}
 	cur.Advance(1)
 
-	name, err := ctx.parseName()
+	name, err = ctx.parseName()
 	if err != nil {
 		err = ctx.error(ErrNameRequired)
 		return
@@ -4878,12 +4894,12 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		// ask the SAX2 handler nicely
 		var loadedEnt sax.Entity
 		loadedEnt, err = s.GetEntity(ctx.userData, name)
-		if err == nil {
+		if err == nil && loadedEnt != nil {
 			ent = loadedEnt.(*Entity)
 			return
 		}
 
-		if loadedEnt == nil && ctx == ctx.userData {
+		if loadedEnt == nil && ctx == ctx.userData && ctx.doc != nil {
 			ent, _ = ctx.getEntity(name)
 		}
 	}
@@ -4908,22 +4924,15 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	// declared is a well-formedness constraint only if
 	// standalone='yes'.
 	if ent == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && ctx.hasPERefs) {
-			return nil, ctx.error(ErrUndeclaredEntity)
+		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
+			return nil, "", ctx.error(ErrUndeclaredEntity)
 		} else {
-			if ctx.inSubset == 0 {
-				if s := ctx.sax; s != nil {
-					switch err := s.Reference(ctx.userData, name); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return nil, ctx.error(err)
-					}
-				}
-			}
+			// References in content are reported to the handler by
+			// parseReference
+
 			// ent is nil, no? why check?
 			if err := ctx.entityCheck(ent, 0, 0); err != nil {
-				return nil, ctx.error(err)
+				return nil, "", ctx.error(err)
 			}
 			ctx.valid = false
 		}
@@ -4931,37 +4940,36 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		// [ WFC: Parsed Entity ]
 		// An entity reference must not contain the name of an
 		// unparsed entity
-		return nil, ctx.error(errors.New("entity reference to unparsed entity"))
+		return nil, "", ctx.error(errors.New("entity reference to unparsed entity"))
 	} else if ctx.instate == psAttributeValue && ent.entityType == ExternalGeneralParsedEntity {
 		// [ WFC: No External Entity References ]
 		// Attribute values cannot contain direct or indirect
 		// entity references to external entities.
-		return nil, ctx.error(errors.New("attribute references external entity"))
+		return nil, "", ctx.error(errors.New("attribute references external entity"))
 	} else if ctx.instate == psAttributeValue && ent.entityType != InternalPredefinedEntity {
 		// [ WFC: No < in Attribute Values ]
 		// The replacement text of any entity referred to directly or
 		// indirectly in an attribute value (other than "&lt;") must
 		// not contain a <.
 		if (ent.checked&1 == 1 || ent.checked == 0) && ent.content != "" && strings.IndexByte(ent.content, '<') > -1 {
-			return nil, ctx.error(errors.New("'<' in entity is not allowed in attribute values"))
+			return nil, "", ctx.error(errors.New("'<' in entity is not allowed in attribute values"))
 		}
 	} else {
 		// Internal check, no parameter entities here ...
 		switch ent.entityType {
 		case InternalParameterEntity:
 		case ExternalParameterEntity:
-			return nil, ctx.error(errors.New("attempt to reference the parameter entity"))
+			return nil, "", ctx.error(errors.New("attempt to reference the parameter entity"))
 		}
 	}
 
-	if ent == nil {
-		panic("at the end of parseEntityRef, ent == nil")
-	}
+	// Note: ent is nil if the reference is to be skipped (see above)
+
 	// [ WFC: No Recursion ]
 	// A parsed entity must not contain a recursive reference
 	// to itself, either directly or indirectly.
 	// Done somewhere else
-	return ent, nil
+	return ent, name, nil
 }
 
 /* Function to check non-linear entity expansion behaviour
-- 
2.43.0


From 0a00376a621ed08cf845e8b7ac9bc5e43660bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 09/33] fix: do not panic on entities supplied by SAX handlers

GetEntity handlers may return anything that satisfies sax.Entity, but
the parser insisted on its own type.
---
 parserctx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index b955d5f..2a116bd 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4895,7 +4895,11 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, name string, err error) {
 		var loadedEnt sax.Entity
 		loadedEnt, err = s.GetEntity(ctx.userData, name)
 		if err == nil && loadedEnt != nil {
-			ent = loadedEnt.(*Entity)
+			var ok bool
+			if ent, ok = loadedEnt.(*Entity); !ok {
+				// the handler has its own representation of entities
+				ent = newEntity(loadedEnt.Name(), EntityType(loadedEnt.EntityType()), "", "", string(loadedEnt.Content()), "")
+			}
 			return
 		}
 
-- 
2.43.0


From 47fdddac54d9a0a452e52c3a8751431546c95895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 10/33] fix: build entity content below its pseudo root element

While the content of an entity is parsed the tree builder had no current
element, so it panicked on references to other entities, and rejected
entities that contain text ('text content placed in wrong location').
---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index 2a116bd..6145a91 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4022,6 +4022,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		return nil, ctx.error(err)
 	}
 	newctx.pushNode(newRoot)
+	newctx.elem = newRoot
 	newctx.doc.AddChild(newRoot)
 	newctx.switchEncoding()
 	if err := newctx.parseContent(); err != nil {
-- 
2.43.0


From 5b9715a05eb7612cffb2e954238c9af2f96963a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 11/33] fix: do not overflow the stack on entities that refer
 to themselves

An attribute value with a reference to a (directly or indirectly)
recursive entity made stringToNodeList recurse until the process died.
Limit the depth like parseBalancedChunkInternal does.
---
 document.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index 1feb434..f0f4785 100644
--- a/document.go
+++ b/document.go
@@ -319,7 +319,11 @@ func (d *Document) IsMixedElement(name string) (bool, error) {
  * produce a flat tree with only TEXTs and ENTITY_REFs.
  * Returns a pointer to the first child
  */
-func (d *Document) stringToNodeList(value string) (ret Node, err error) {
+func (d *Document) stringToNodeList(value string) (Node, error) {
+	return d.stringToNodeListInternal(value, 0)
+}
+
+func (d *Document) stringToNodeListInternal(value string, depth int) (ret Node, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START document.stringToNodeList '%s'", value)
 		defer func() {
@@ -332,6 +336,12 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 			g.IRelease("END document.stringToNodeList '%s'", content)
 		}()
 	}
+	// same limit as when entities are expanded in content
+	if depth > 40 {
+		err = errors.New("entity loop")
+		return
+	}
+
 	rdr := strings.NewReader(value)
 	buf := bytes.Buffer{}
 	var last Node
@@ -442,7 +452,7 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				if ok && ent.FirstChild() == nil {
 					// XXX WTF am I doing here...?
 					var refchildren Node
-					refchildren, err = d.stringToNodeList(string(node.Content()))
+					refchildren, err = d.stringToNodeListInternal(string(node.Content()), depth+1)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From b63e09ccc30815b13c34675f5823a8e73299dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 12/33] fix: report default attributes in a deterministic order

The default attributes were kept in a map, so each parse of the very
same document reported them to the StartElementNS handler in some other
random order. Report them in the order of their declaration.
---
 parser_interface.go |  2 +-
 parserctx.go        | 14 +++++---------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/parser_interface.go b/parser_interface.go
index 9f36949..4af2f4f 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -131,7 +131,7 @@ type parserCtx struct {
 	extSubURI         string
 	version           string
 	attsSpecial       map[string]AttributeType
-	attsDefault       map[string]map[string]*Attribute
+	attsDefault       map[string][]*Attribute
 	valid             bool
 	hasPERefs         bool
 	pedantic          bool
diff --git a/parserctx.go b/parserctx.go
index 6145a91..45cfd97 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -203,7 +203,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.userData = ctx // circular dep?!
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
-	ctx.attsDefault = map[string]map[string]*Attribute{}
+	ctx.attsDefault = map[string][]*Attribute{}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -3795,12 +3795,6 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 	// XXX seems like when your language has a map, you can do just
 	// kinda do away with a bunch of stuff..  See xmlAddDefAttrs for
 	// details of what the original code is doing
-	m, ok := ctx.attsDefault[elemName]
-	if !ok {
-		m = map[string]*Attribute{}
-		ctx.attsDefault[elemName] = m
-	}
-
 	var prefix string
 	var local string
 	if i := strings.IndexByte(attrName, ':'); i > -1 {
@@ -3818,7 +3812,9 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 	}
 
 	attr.SetDefault(true)
-	m[attrName] = attr
+	// keep these in the order of declaration, as this is also the order in
+	// which they are reported to the handlers
+	ctx.attsDefault[elemName] = append(ctx.attsDefault[elemName], attr)
 
 	/*
 	   	hmm, let's think about this when the time comes
@@ -3829,7 +3825,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 	*/
 }
 
-func (ctx *parserCtx) lookupAttributeDefault(elemName string) (map[string]*Attribute, bool) {
+func (ctx *parserCtx) lookupAttributeDefault(elemName string) ([]*Attribute, bool) {
 	v, ok := ctx.attsDefault[elemName]
 	return v, ok
 }
-- 
2.43.0


From 9830aa5cad084a9061cc5f7dee67cb91d64201cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 13/33] fix: do not link instructions in the internal subset
 twice

---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index d1cfd2a..e3df9f2 100644
--- a/tree.go
+++ b/tree.go
@@ -57,9 +57,9 @@ func (t *TreeBuilder) ProcessingInstruction(ctxif sax.Context, target, data stri
 
 	switch ctx.inSubset {
 	case 1:
-		doc.IntSubset().AddChild(pi)
+		return doc.IntSubset().AddChild(pi)
 	case 2:
-		doc.ExtSubset().AddChild(pi)
+		return doc.ExtSubset().AddChild(pi)
 	}
 
 	parent := ctx.elem
-- 
2.43.0


From efbc10001195bba92798bb6c97d2f946216c07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 14/33] fix: do not deliver unterminated character references

---
 parserctx.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 45cfd97..3b12fb3 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4795,9 +4795,11 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else if cur.ConsumeString("&#") {
 		for !cur.Done() && cur.Peek() != ';' {
 			c := cur.Peek()
@@ -4809,9 +4811,11 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else {
 		err = errors.New("invalid char ref")
 		return
-- 
2.43.0


From 89226406a37c42469a4ac2c3eb4d7a92397621e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 15/33] fix: do not report defaults of attributes that are
 specified

---
 parserctx.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 3b12fb3..9b6c301 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -832,7 +832,14 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 		defaults, ok := ctx.lookupAttributeDefault(elemName)
 		if ok {
+			specified := len(attrs)
+		nextDefault:
 			for _, attr := range defaults {
+				for _, given := range attrs[:specified] {
+					if given.LocalName() == attr.LocalName() && given.Prefix() == attr.Prefix() {
+						continue nextDefault
+					}
+				}
 				attrs = append(attrs, attr)
 			}
 		}
-- 
2.43.0


From d775be2b26b83af180a26a6f2ace86d0c647aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 16/33] fix: copy the content given to new comments

---
 comment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comment.go b/comment.go
index eb00975..9355f73 100644
--- a/comment.go
+++ b/comment.go
@@ -3,7 +3,8 @@ package helium
 func newComment(b []byte) *Comment {
 	t := Comment{}
 	t.etype = CommentNode
-	t.content = b
+	t.content = make([]byte, len(b))
+	copy(t.content, b)
 	return &t
 }
 
-- 
2.43.0


From 107bb24cce6e84bda6adb15cac057fdbed399110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 17/33] fix: keep the first group of an element content model

---
 parserctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 9b6c301..6a838dd 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2690,7 +2690,8 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	if cur.Peek() == '(' {
 		cur.Advance(1)
 		ctx.skipBlanks()
-		retelem, err := ctx.parseElementChildrenContentDeclPriv(depth + 1)
+		var err error
+		retelem, err = ctx.parseElementChildrenContentDeclPriv(depth + 1)
 		if err != nil {
 			return nil, ctx.error(err)
 		}
-- 
2.43.0


From 7180406883d7e54afa8250eb5e76b94e2ce20a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 18/33] fix: do not report document type declarations that are
 cut short

---
 parserctx.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 6a838dd..4f2c2fc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2066,6 +2066,12 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 
 	ctx.skipBlanks()
 
+	// A declaration that was cut short is not reported
+	c := cur.Peek()
+	if c != '[' && c != '>' {
+		return ctx.error(ErrDocTypeNotFinished)
+	}
+
 	if s := ctx.sax; s != nil {
 		switch err := s.InternalSubset(ctx.userData, name, eid, u); err {
 		case nil, sax.ErrHandlerUnspecified:
@@ -2079,15 +2085,11 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 	 * Is there any internal subset declarations ?
 	 * they are handled separately in parseInternalSubset()
 	 */
-	c := cur.Peek()
 	if c == '[' {
 		return nil
 	}
 
-	// Otherwise this should be the end of DTD
-	if c != '>' {
-		return ctx.error(ErrDocTypeNotFinished)
-	}
+	// Otherwise this is the end of DTD
 	cur.Advance(1)
 
 	return nil
-- 
2.43.0


From d2aa53e90599e3f6066ccf7ba3b6e912e36dce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 19/33] fix: do not report entities whose value is cut short

---
 parserctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 4f2c2fc..bd61038 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3028,6 +3028,9 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	literal, err := ctx.parseQuotedText(func(qch rune) (string, error) {
 		return ctx.parseEntityValueInternal(qch)
 	})
+	if err != nil {
+		return "", "", ctx.error(err)
+	}
 
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
-- 
2.43.0


From 7614d1b60f0219b4c6d38b5e8d9659a7b44af999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 20/33] fix: do not panic on attribute defaults with entities
 when there is no tree

---
 document.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/document.go b/document.go
index f0f4785..63b57f9 100644
--- a/document.go
+++ b/document.go
@@ -255,6 +255,10 @@ func (d *Document) GetEntity(name string) (ent *Entity, found bool) {
 			}
 		}()
 	}
+	// without a tree there is no document to look into: see attribute defaults
+	if d == nil {
+		return
+	}
 	if ints := d.intSubset; ints != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Looking into internal subset...")
-- 
2.43.0


From 4652b671a519c5abbd307a6e58e233fdc6582f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 21/33] fix: do not panic on elements with two default
 namespace declarations

---
 parserctx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index bd61038..1571fd6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -727,6 +727,7 @@ func (ctx *parserCtx) parseStartTag() error {
 	}
 
 	nbNs := 0
+	hasDefaultNS := false
 	attrs := []sax.Attribute{}
 	for ctx.instate != psEOF {
 		ctx.skipBlanks()
@@ -745,6 +746,10 @@ func (ctx *parserCtx) parseStartTag() error {
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
+			if hasDefaultNS {
+				return ctx.error(errors.New("duplicate attribute is not allowed"))
+			}
+			hasDefaultNS = true
 			ctx.pushNS("", attvalue)
 			nbNs++
 			//    SkipDefaultNS:
-- 
2.43.0


From 4de9ff5b948c08f1293e33fabebe690b9d2782c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 22/33] fix: do not panic on attribute defaults made of spaces

---
 parserctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 1571fd6..85b077f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3649,8 +3649,8 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 		out = append(out, 0x20) // append a single space
 	}
 
-	if out[len(out)-1] == 0x20 {
-		out = out[:len(out)-1]
+	if n := len(out); n > 0 && out[n-1] == 0x20 { // nothing is left of a value of spaces only
+		out = out[:n-1]
 	}
 	value = string(out)
 	return
-- 
2.43.0


From f9073e0037c497d8a2d2b111b021932d6a92e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 23/33] fix: expand the content of the referenced entity only

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 63b57f9..3bc6851 100644
--- a/document.go
+++ b/document.go
@@ -456,7 +456,7 @@ func (d *Document) stringToNodeListInternal(value string, depth int) (ret Node,
 				if ok && ent.FirstChild() == nil {
 					// XXX WTF am I doing here...?
 					var refchildren Node
-					refchildren, err = d.stringToNodeListInternal(string(node.Content()), depth+1)
+					refchildren, err = d.stringToNodeListInternal(string(ent.Content()), depth+1)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From dbeac621276e91a00d6b6436548bb6bd1197a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 24/33] fix: serialize attribute declarations of type ENTITIES

---
 dump.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dump.go b/dump.go
index d80304f..604e98f 100644
--- a/dump.go
+++ b/dump.go
@@ -571,6 +571,8 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		io.WriteString(out, " IDREFS")
 	case AttrEntity:
 		io.WriteString(out, " ENTITY")
+	case AttrEntities:
+		io.WriteString(out, " ENTITIES")
 	case AttrNmtoken:
 		io.WriteString(out, " NMTOKEN")
 	case AttrNmtokens:
-- 
2.43.0


From 31abb990f209d96214fb1e0e67bcdfb52269ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 25/33] fix: reject mixed content declarations that are cut
 short

---
 parserctx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 85b077f..6744d52 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2646,6 +2646,8 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		                                    NULL, NULL);
 		   					}
 		*/
+	} else {
+		return nil, ctx.error(ErrElementContentNotFinished)
 	}
 	return retelem, nil
 }
-- 
2.43.0


From e20943a2f77676fa1b2c387c91f6d3061233b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 26/33] fix: Attribute.Name lacked the prefix

Default values of prefixed attributes (xml:lang, p:x) were reported to
handlers under their local name only, unlike attributes that are written.
---
 attr.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/attr.go b/attr.go
index 080f304..7f17466 100644
--- a/attr.go
+++ b/attr.go
@@ -71,6 +71,14 @@ func (n *Attribute) IsDefault() bool {
 	return n.defaultAttr
 }
 
+// Name returns the name including its prefix, if there is one
+func (n Attribute) Name() string {
+	if n.ns != nil && n.ns.Prefix() != "" {
+		return n.ns.Prefix() + ":" + n.name
+	}
+	return n.name
+}
+
 func (n Attribute) Value() string {
 	return string(n.Content())
 }
-- 
2.43.0


From 42c44ad3624211ae7f79f1a64e14023d9220fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 27/33] fix: declared attribute types were looked up without
 prefixes

An attribute with a prefix took the type that was declared for the
attribute of the same local name, so that its value was normalized by
mistake; declarations for prefixed elements and attributes had no effect.
---
 parserctx.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 6744d52..58fe22a 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -726,6 +726,11 @@ func (ctx *parserCtx) parseStartTag() error {
 		return ctx.error(err)
 	}
 
+	elemName := local
+	if prefix != "" {
+		elemName = prefix + ":" + local
+	}
+
 	nbNs := 0
 	hasDefaultNS := false
 	attrs := []sax.Attribute{}
@@ -739,7 +744,7 @@ func (ctx *parserCtx) parseStartTag() error {
 		if cur.Peek() == '/' && cur.PeekN(2) == '>' {
 			break
 		}
-		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
+		attname, aprefix, attvalue, err := ctx.parseAttribute(elemName)
 		if err != nil {
 			return ctx.error(err)
 		}
@@ -825,13 +830,6 @@ func (ctx *parserCtx) parseStartTag() error {
 	// attributes defaulting
 	// XXX Punting a lot of stuff here. See xmlParseStartTag2
 	if len(ctx.attsDefault) > 0 {
-		var elemName string
-		if prefix != "" {
-			elemName = prefix + ":" + local
-		} else {
-			elemName = local
-		}
-
 		if pdebug.Enabled {
 			pdebug.Printf("-------> %s", elemName)
 		}
@@ -1066,10 +1064,16 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 		return
 	}
 
+	// declarations have the name as it is written
+	attrName := l
+	if p != "" {
+		attrName = p + ":" + l
+	}
+
 	normalize := false
-	attType, ok := ctx.lookupSpecialAttribute(elemName, l)
+	attType, ok := ctx.lookupSpecialAttribute(elemName, attrName)
 	if pdebug.Enabled {
-		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, l, attType, ok)
+		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, attrName, attType, ok)
 	}
 	if ok && attType != AttrInvalid {
 		normalize = true
@@ -3677,8 +3681,13 @@ func (ctx *parserCtx) cleanSpecialAttributes() {
 	}
 }
 
+// both names can have a colon, but not a space
+func specialAttributeKey(elemName, attrName string) string {
+	return elemName + " " + attrName
+}
+
 func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ AttributeType) {
-	key := elemName + ":" + attrName
+	key := specialAttributeKey(elemName, attrName)
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
@@ -3687,7 +3696,7 @@ func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ Attribu
 }
 
 func (ctx *parserCtx) lookupSpecialAttribute(elemName, attrName string) (AttributeType, bool) {
-	key := elemName + ":" + attrName
+	key := specialAttributeKey(elemName, attrName)
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START lookupSpecialAttribute(%s)", key)
 		defer g.IRelease("END lookupSpecialAttribute")
-- 
2.43.0


From 40c4bbed0f75fb257689331aa3c6a1043541eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 28/33] fix: limit how deep elements may be nested

---
 parser_interface.go | 6 ++++++
 parserctx.go        | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/parser_interface.go b/parser_interface.go
index 4af2f4f..c4486a0 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -32,6 +32,10 @@ const (
 
 const MaxNameLength = 50000
 
+// MaxElementDepth is how deep elements may be nested. Parsing (and dumping)
+// recurses for each level, so there has to be a limit.
+const MaxElementDepth = 10000
+
 var (
 	ErrAmpersandRequired            = errors.New("'&' was required here")
 	ErrAttrListNotFinished          = errors.New("attrlist must finish with a ')'")
@@ -43,6 +47,7 @@ var (
 	ErrDocumentEnd                  = errors.New("extra content at document end")
 	ErrEOF                          = errors.New("end of file reached")
 	ErrElementContentNotFinished    = errors.New("element content not finished")
+	ErrElementTooDeep               = errors.New("elements nested too deep")
 	ErrEmptyDocument                = errors.New("start tag expected, '<' not found")
 	ErrEntityNotFound               = errors.New("entity not found")
 	ErrEqualSignRequired            = errors.New("'=' was required here")
@@ -137,6 +142,7 @@ type parserCtx struct {
 	pedantic          bool
 	wellFormed        bool
 	depth             int
+	elemDepth         int
 	loadsubset        LoadSubsetOption
 	elem              *Element // current context element
 
diff --git a/parserctx.go b/parserctx.go
index 58fe22a..2d2d99b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -673,6 +673,11 @@ func (ctx *parserCtx) parseElement() error {
 		defer g.IRelease("END parseElement (%d)", i)
 	}
 
+	ctx.elemDepth++
+	if ctx.elemDepth > MaxElementDepth {
+		return ctx.error(ErrElementTooDeep)
+	}
+
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
@@ -695,6 +700,7 @@ func (ctx *parserCtx) parseElement() error {
 		return ctx.error(err)
 	}
 
+	ctx.elemDepth--
 	return nil
 }
 
@@ -4040,6 +4046,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.sax = ctx.sax
 	newctx.attsDefault = ctx.attsDefault
 	newctx.depth = ctx.depth + 1
+	newctx.elemDepth = ctx.elemDepth
 
 	// create a dummy node
 	newRoot, err := newctx.doc.CreateElement("pseudoroot")
-- 
2.43.0


From 694498eabe9b54e8363631551cbb19f5500ebeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 29/33] fix: do not recurse for each item of a content model

---
 dump.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index 604e98f..d92acd2 100644
--- a/dump.go
+++ b/dump.go
@@ -348,6 +348,9 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 		io.WriteString(out, "(")
 	}
 
+	// the rest of a list is not dumped recursively, as lists may be long
+	top := n
+again:
 	switch n.ctype {
 	case ElementContentPCDATA:
 		io.WriteString(out, "#PCDATA")
@@ -374,6 +377,9 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 			if err := dumpElementContent(out, n.c2, true); err != nil {
 				return err
 			}
+		} else if ctype == ElementContentSeq {
+			n = n.c2
+			goto again
 		} else {
 			if err := dumpElementContent(out, n.c2, false); err != nil {
 				return err
@@ -396,6 +402,9 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 			if err := dumpElementContent(out, n.c2, true); err != nil {
 				return err
 			}
+		} else if ctype == ElementContentOr {
+			n = n.c2
+			goto again
 		} else {
 			if err := dumpElementContent(out, n.c2, false); err != nil {
 				return err
@@ -409,7 +418,7 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 		io.WriteString(out, ")")
 	}
 
-	switch n.coccur {
+	switch top.coccur {
 	case ElementContentOnce:
 		// no op
 	case ElementContentOpt:
-- 
2.43.0


From 74c75679dde07644932eed5046210856f5d94801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 30/33] fix: (a*)? was taken for (a)?

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 2d2d99b..e58b8d6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2854,7 +2854,7 @@ LOOP:
 	case '?':
 		// XXX why would ret be null?
 		if retelem != nil {
-			if retelem.coccur == ElementContentPlus {
+			if retelem.coccur == ElementContentPlus || retelem.coccur == ElementContentMult {
 				retelem.coccur = ElementContentMult
 			} else {
 				retelem.coccur = ElementContentOpt
-- 
2.43.0


From cf8810cc47074750fb7fb1e1493e27a5b61ddd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 31/33] fix: a default namespace declaration is not an
 attribute, too

Unless it was the last thing in its tag, xmlns="..." was reported to the
handler as a namespace and again as an attribute, and serializing the
document wrote it twice.
---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index e58b8d6..d5c5a51 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -772,6 +772,7 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(ErrSpaceRequired)
 			}
 			ctx.skipBlanks()
+			continue
 		} else if aprefix == XMLNsPrefix {
 			var u *url.URL // predeclare, so we can use goto SkipNS
 
-- 
2.43.0


From 08d0bae091e4a37dd8bd4236bb0b34a4b71db4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 32/33] fix: namespace declarations end with their element

They stayed in force until the end of the document: elements behind were in
namespaces that had been declared elsewhere, and a prefix could be declared
only once in the whole document, on whatever element.
---
 parserctx.go | 9 +++++++--
 stack.go     | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d5c5a51..7c73b87 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -678,6 +678,7 @@ func (ctx *parserCtx) parseElement() error {
 		return ctx.error(ErrElementTooDeep)
 	}
 
+	nbNs := ctx.nsTab.Len()
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
@@ -700,6 +701,8 @@ func (ctx *parserCtx) parseElement() error {
 		return ctx.error(err)
 	}
 
+	// the namespaces declared here end with the element
+	ctx.nsTab.Pop(ctx.nsTab.Len() - nbNs)
 	ctx.elemDepth--
 	return nil
 }
@@ -804,8 +807,10 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
-			if ctx.nsTab.Lookup(attname) != "" {
-				return ctx.error(errors.New("duplicate attribute is not allowed"))
+			for _, ns := range ctx.nsTab.Peek(nbNs) {
+				if ns.Key() == attname {
+					return ctx.error(errors.New("duplicate attribute is not allowed"))
+				}
 			}
 			ctx.pushNS(attname, attvalue)
 			nbNs++
diff --git a/stack.go b/stack.go
index 6d57cf8..5aefe02 100644
--- a/stack.go
+++ b/stack.go
@@ -37,8 +37,9 @@ func newNsStack() nsStack {
 	return nsStack{}
 }
 
+// Push adds a declaration, which hides those of the same prefix below
 func (s *nsStack) Push(prefix, uri string) {
-	s.UniqueStack.Push(nsStackItem{prefix: prefix, href: uri})
+	s.UniqueStack = append(s.UniqueStack, nsStackItem{prefix: prefix, href: uri})
 }
 
 func (s *nsStack) Lookup(prefix string) string {
-- 
2.43.0


From 4b2ae6b27af4f3e5e3802eb9ae167cd47299b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:28 +0000
Subject: [PATCH 33/33] fix: entities see the namespaces in scope where they
 are referenced

---
 parserctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 7c73b87..38c609e 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4053,6 +4053,9 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.attsDefault = ctx.attsDefault
 	newctx.depth = ctx.depth + 1
 	newctx.elemDepth = ctx.elemDepth
+	for _, ns := range ctx.nsTab.UniqueStack {
+		newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ns)
+	}
 
 	// create a dummy node
 	newRoot, err := newctx.doc.CreateElement("pseudoroot")
-- 
2.43.0

