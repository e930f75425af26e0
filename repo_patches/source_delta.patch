From 78c36c287e70c15ab8827bb6385eac816ada0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 01/23] fix: evaluate arguments with no content to empty
 content instead of panicking

---
 stages/evaluate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index ac0f986..50994b6 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -327,5 +327,10 @@ func (eval Evaluate) evalArg(node ast.Node) (booklit.Content, error) {
 		return nil, err
 	}
 
+	if subEval.Result == nil {
+		// argument resulted in no content (e.g. an invoke with no return value)
+		return booklit.Empty, nil
+	}
+
 	return subEval.Result, nil
 }
-- 
2.43.0


From 84dc8070f7af02c04d1e30a49cf25ccd485166be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 02/23] fix: accept nil content returned by plugin functions
 instead of panicking

---
 stages/evaluate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 50994b6..6ebb18a 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -249,7 +249,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 				}
 			}
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			if val != nil {
+				eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown return type: %s", valType)
 		}
@@ -277,7 +279,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		firstType := methodType.Out(0)
 		switch reflect.New(firstType).Interface().(type) {
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			if first != nil {
+				eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown first return type: %s", firstType)
 		}
-- 
2.43.0


From 2373106ff7bf23453505006ddda3c652e35c71c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 03/23] fix: do not panic stripping aux from references and
 targets without content

---
 aux_.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aux_.go b/aux_.go
index a480908..a8e2070 100644
--- a/aux_.go
+++ b/aux_.go
@@ -13,6 +13,11 @@ type Aux struct {
 // StripAux recurses through Content and removes any Aux content from any
 // nested sequences.
 func StripAux(content Content) Content {
+	if content == nil {
+		// e.g. a Reference with no Content or a Target with no Title
+		return nil
+	}
+
 	visitor := &stripAuxVisitor{}
 
 	_ = content.Visit(visitor)
-- 
2.43.0


From 998715653dd6a0cdacf0824e003294f53281a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 04/23] fix: strip aux content which is the sole content of
 styled text, links, etc.

---
 aux_.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/aux_.go b/aux_.go
index a8e2070..0fb8d28 100644
--- a/aux_.go
+++ b/aux_.go
@@ -51,7 +51,7 @@ func (strip *stripAuxVisitor) VisitPreformatted(con Preformatted) error {
 
 func (strip *stripAuxVisitor) VisitReference(con *Reference) error {
 	ref := *con
-	ref.Content = StripAux(ref.Content)
+	ref.Content = stripAuxContent(ref.Content)
 	strip.Result = &ref
 	return nil
 }
@@ -67,7 +67,7 @@ func (strip *stripAuxVisitor) VisitTableOfContents(con TableOfContents) error {
 }
 
 func (strip *stripAuxVisitor) VisitStyled(con Styled) error {
-	con.Content = StripAux(con.Content)
+	con.Content = stripAuxContent(con.Content)
 
 	strippedPartials := Partials{}
 	for k, v := range con.Partials {
@@ -75,7 +75,7 @@ func (strip *stripAuxVisitor) VisitStyled(con Styled) error {
 			continue
 		}
 
-		strippedPartials[k] = StripAux(v)
+		strippedPartials[k] = stripAuxContent(v)
 	}
 
 	con.Partials = strippedPartials
@@ -85,8 +85,8 @@ func (strip *stripAuxVisitor) VisitStyled(con Styled) error {
 }
 
 func (strip *stripAuxVisitor) VisitTarget(con Target) error {
-	con.Title = StripAux(con.Title)
-	con.Content = StripAux(con.Content)
+	con.Title = stripAuxContent(con.Title)
+	con.Content = stripAuxContent(con.Content)
 	strip.Result = con
 	return nil
 }
@@ -103,7 +103,7 @@ func (strip *stripAuxVisitor) VisitList(con List) error {
 }
 
 func (strip *stripAuxVisitor) VisitLink(con Link) error {
-	con.Content = StripAux(con.Content)
+	con.Content = stripAuxContent(con.Content)
 	strip.Result = con
 	return nil
 }
@@ -122,8 +122,8 @@ func (strip *stripAuxVisitor) VisitDefinitions(con Definitions) error {
 	stripped := Definitions{}
 	for _, def := range con {
 		stripped = append(stripped, Definition{
-			Subject:    StripAux(def.Subject),
-			Definition: StripAux(def.Definition),
+			Subject:    stripAuxContent(def.Subject),
+			Definition: stripAuxContent(def.Definition),
 		})
 	}
 
@@ -136,6 +136,16 @@ func (strip *stripAuxVisitor) VisitLazy(con *Lazy) error {
 	return nil
 }
 
+// stripAuxContent strips content nested directly in other content, i.e. not as
+// an element of a sequence that it can be removed from.
+func stripAuxContent(content Content) Content {
+	if _, isAux := content.(Aux); isAux {
+		return Empty
+	}
+
+	return StripAux(content)
+}
+
 func stripAuxSeq(seq []Content) []Content {
 	stripped := []Content{}
 
-- 
2.43.0


From f9743faf9a62ab326f522b5bddd2bd1d1a0dd83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 05/23] fix: set InvokeLocation to the function being called
 after evaluating its arguments

---
 stages/evaluate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 6ebb18a..0b90112 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -226,6 +226,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		}
 	}
 
+	// evaluating the arguments may have set it to the location of a nested invoke
+	eval.Section.InvokeLocation = invoke.Location
+
 	result := method.Call(argv)
 
 	switch methodType.NumOut() {
-- 
2.43.0


From 1d615d0ffc523793217828ccd73874af04b97fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 06/23] fix: annotate the right characters of the line in error
 pages

---
 errors.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/errors.go b/errors.go
index 1dd3bb0..dd880ec 100644
--- a/errors.go
+++ b/errors.go
@@ -382,13 +382,27 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 		data.EOF = true
 	}
 
-	offset := loc.NodeLocation.Col - 1
-	if len(line) >= offset+loc.Length {
-		data.Prefix = line[0:offset]
-		data.Annotated = line[offset : offset+loc.Length]
-		data.Suffix = line[offset+loc.Length:]
+	// columns count characters, not bytes, and the location may be past the end
+	// of the line, or just before its start if it is a linebreak
+	chars := []rune(line)
+
+	start := loc.NodeLocation.Col - 1
+	if start < 0 {
+		start = 0
+	}
+	if start > len(chars) {
+		start = len(chars)
 	}
 
+	end := start + loc.Length
+	if end > len(chars) {
+		end = len(chars)
+	}
+
+	data.Prefix = string(chars[:start])
+	data.Annotated = string(chars[start:end])
+	data.Suffix = string(chars[end:])
+
 	return errorTmpl.Lookup("annotated-line.tmpl").Execute(out, data)
 }
 
-- 
2.43.0


From d028b2bfb1643d55af43d3b8ebfd91b9e4df2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 07/23] fix: find the line in question when annotating errors
 in files with long lines

---
 errors.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/errors.go b/errors.go
index dd880ec..defadda 100644
--- a/errors.go
+++ b/errors.go
@@ -417,20 +417,16 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 	buf := bufio.NewReader(file)
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
-		_, _, err := buf.ReadLine()
+		_, err := buf.ReadString('\n')
 		if err != nil {
 			return "", err
 		}
 	}
 
-	lineInQuestion, _, err := buf.ReadLine()
-	if err != nil {
-		if err == io.EOF {
-			return "", nil
-		}
-
+	lineInQuestion, err := buf.ReadString('\n')
+	if err != nil && err != io.EOF {
 		return "", err
 	}
 
-	return string(lineInQuestion), nil
+	return strings.TrimSuffix(strings.TrimSuffix(lineInQuestion, "\n"), "\r"), nil
 }
-- 
2.43.0


From 9763573252b1a680d8beeddac07dc2d59d86e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 08/23] fix: escape tags in URLs so that links to tags with
 special characters work

---
 render/common.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/render/common.go b/render/common.go
index 4af1648..b40f22f 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,11 @@
 package render
 
-import "github.com/vito/booklit"
+import (
+	"net/url"
+	"strings"
+
+	"github.com/vito/booklit"
+)
 
 // WalkContext is a utility type constructed via the walkContext template
 // function.
@@ -32,11 +37,17 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 		return sectionURL(ext, owner, anchor)
 	}
 
-	filename := section.PrimaryTag.Name + "." + ext
+	filename := escapeURL((&url.URL{Path: section.PrimaryTag.Name + "." + ext}).EscapedPath())
 
 	if anchor != "" {
-		filename += "#" + anchor
+		filename += "#" + escapeURL((&url.URL{Fragment: anchor}).EscapedFragment())
 	}
 
 	return filename
 }
+
+// escapeURL additionally escapes colons, so that a tag containing one is not
+// mistaken for a URL scheme.
+func escapeURL(escaped string) string {
+	return strings.ReplaceAll(escaped, ":", "%3A")
+}
-- 
2.43.0


From c516a75f50e1bd5ffc471df347b139acf7eccfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 09/23] fix: append all of the given content, not just the
 first

---
 append.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/append.go b/append.go
index bfe65bf..006d8f3 100644
--- a/append.go
+++ b/append.go
@@ -16,9 +16,9 @@ func Append(first Content, rest ...Content) Content {
 		case nil:
 			appended = content
 		case Sequence:
-			return Sequence(append(v, content))
+			appended = Sequence(append(v, content))
 		default:
-			return Sequence([]Content{appended, content})
+			appended = Sequence([]Content{appended, content})
 		}
 	}
 
-- 
2.43.0


From dd3cd3ee68e4b039409c4bf5019af3309f5e0638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 10/23] fix: collect tags from partials in a consistent order

---
 stages/collect.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 05708e2..ad211d5 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -1,6 +1,10 @@
 package stages
 
-import "github.com/vito/booklit"
+import (
+	"sort"
+
+	"github.com/vito/booklit"
+)
 
 // Collect is a booklit.Visitor that collects all tag targets and sets them on
 // the section.
@@ -67,11 +71,9 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 		return err
 	}
 
-	for _, p := range con.Partials {
-		err = p.Visit(collect)
-		if err != nil {
-			return err
-		}
+	err = collect.visitPartials(con.Partials)
+	if err != nil {
+		return err
 	}
 
 	for _, child := range con.Children {
@@ -100,12 +102,25 @@ func (collect *Collect) VisitStyled(con booklit.Styled) error {
 		return err
 	}
 
-	for _, v := range con.Partials {
-		if v == nil {
+	return collect.visitPartials(con.Partials)
+}
+
+// visitPartials visits each partial, ordered by name so that the collected tags
+// are always in the same order.
+func (collect *Collect) visitPartials(partials booklit.Partials) error {
+	names := []string{}
+	for name := range partials {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		if partials[name] == nil {
 			continue
 		}
 
-		err := v.Visit(collect)
+		err := partials[name].Visit(collect)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a46beaaa7b4a7002fcf4866245312c2508691997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 11/23] fix: re-parse a file whose modification time went
 backwards

---
 load/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index 315da94..4d1411e 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -76,7 +76,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 	})
 
 	var node ast.Node
-	if found && !modTime.After(parsed.ModTime) {
+	if found && modTime.Equal(parsed.ModTime) {
 		log.Debug("already parsed section")
 		node = parsed.Node
 	} else {
-- 
2.43.0


From ed5e6df96afff9cf033d4478ff4003422f007de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 12/23] fix: have \single-page overrule \split-sections
 regardless of order

---
 baselit/plugin.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d78d873..12abf32 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -94,6 +94,17 @@ func (plugin Plugin) IncludeSection(path string) error {
 
 func (plugin Plugin) SinglePage() {
 	plugin.section.PreventSplitSections = true
+
+	// overrule any \split-sections that came before it
+	unsplitSections(plugin.section)
+}
+
+func unsplitSections(section *booklit.Section) {
+	section.SplitSections = false
+
+	for _, child := range section.Children {
+		unsplitSections(child)
+	}
 }
 
 func (plugin Plugin) SplitSections() {
-- 
2.43.0


From 18b2b348d99cb2e08a39a01cc4284a3a504389cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 13/23] fix: fall back to page.tmpl for styled sections in the
 text engine

---
 render/text.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/render/text.go b/render/text.go
index 04a1f0c..5d6ebc0 100644
--- a/render/text.go
+++ b/render/text.go
@@ -160,14 +160,23 @@ func (engine *TextEngine) URL(tag booklit.Tag) string {
 // If the section has Style set and a template named (Style)-page.tmpl exists
 // it will be used instead.
 func (engine *TextEngine) RenderSection(out io.Writer, con *booklit.Section) error {
-	tmpl := "page"
+	engine.data = con
+
+	try := []string{}
+
 	if con.Style != "" {
-		tmpl = con.Style + "-page"
+		try = append(try, con.Style+"-page")
 	}
 
-	engine.data = con
+	try = append(try, "page")
 
-	err := engine.setTmpl(tmpl)
+	var err error
+	for _, tmpl := range try {
+		err = engine.setTmpl(tmpl)
+		if err == nil {
+			break
+		}
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d8efb8d2dec23ad4de36302c06543b4842bef759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 14/23] fix: keep indentation of preformatted blocks
 independent of nested blocks

---
 ast/booklit.peg    |  37 +++-
 ast/booklit.peg.go | 506 ++++++++++++++++++++++++---------------------
 2 files changed, 299 insertions(+), 244 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index dc0c4dc..f33939a 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -29,6 +29,19 @@
 
     return nodes
   }
+
+  // pushIndentSkip starts a block whose first line is to determine how much
+  // indentation to skip, independently of any block it is nested in.
+  func pushIndentSkip(c *current) {
+    skips, _ := c.globalStore["indent-skip"].([]int)
+    c.globalStore["indent-skip"] = append(skips, -1)
+  }
+
+  // popIndentSkip goes back to the indentation of the enclosing block, if any.
+  func popIndentSkip(c *current) {
+    skips := c.globalStore["indent-skip"].([]int)
+    c.globalStore["indent-skip"] = skips[:len(skips)-1]
+  }
 }
 
 Booklit <- node:Paragraphs !. {
@@ -86,8 +99,8 @@ PreformattedBlockLine <- indent:Indent words:Word* LineBreak {
   return Sequence(line), nil
 }
 
-PreformattedBlock <- LineBreak lines:PreformattedBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
+PreformattedBlock <- LineBreak BlockIndent lines:PreformattedBlockLine* [ \t]* {
+  popIndentSkip(c)
   return Preformatted(ifaceSequences(lines)), nil
 }
 
@@ -101,8 +114,8 @@ VerbatimBlockLine <- indent:Indent words:VerbatimString* LineBreak {
   return Sequence(line), nil
 }
 
-VerbatimBlock <- LineBreak lines:VerbatimBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
+VerbatimBlock <- LineBreak BlockIndent lines:VerbatimBlockLine* [ \t]* {
+  popIndentSkip(c)
   return Preformatted(ifaceSequences(lines)), nil
 }
 
@@ -143,14 +156,18 @@ ParaArg <- paras:Paragraphs [ \t]* {
 
 Argument <- VerbatimArg / PreformattedArg / Arg
 
+BlockIndent <- &{
+  pushIndentSkip(c)
+  return true, nil
+}
+
 Indent <- [ \t]* {
-  skip := len(c.text)
+  skips := c.globalStore["indent-skip"].([]int)
 
-  i, found := c.globalStore["indent-skip"]
-  if found {
-    skip = i.(int)
-  } else {
-    c.globalStore["indent-skip"] = skip
+  skip := skips[len(skips)-1]
+  if skip == -1 {
+    skip = len(c.text)
+    skips[len(skips)-1] = skip
   }
 
   if skip <= len(c.text) {
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index d2bd5be..d64db6d 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -45,29 +45,42 @@ func ifaceNodes(val interface{}) []Node {
 	return nodes
 }
 
+// pushIndentSkip starts a block whose first line is to determine how much
+// indentation to skip, independently of any block it is nested in.
+func pushIndentSkip(c *current) {
+	skips, _ := c.globalStore["indent-skip"].([]int)
+	c.globalStore["indent-skip"] = append(skips, -1)
+}
+
+// popIndentSkip goes back to the indentation of the enclosing block, if any.
+func popIndentSkip(c *current) {
+	skips := c.globalStore["indent-skip"].([]int)
+	c.globalStore["indent-skip"] = skips[:len(skips)-1]
+}
+
 var g = &grammar{
 	rules: []*rule{
 		{
 			name: "Booklit",
-			pos:  position{line: 34, col: 1, offset: 581},
+			pos:  position{line: 47, col: 1, offset: 1101},
 			expr: &actionExpr{
-				pos: position{line: 34, col: 12, offset: 592},
+				pos: position{line: 47, col: 12, offset: 1112},
 				run: (*parser).callonBooklit1,
 				expr: &seqExpr{
-					pos: position{line: 34, col: 12, offset: 592},
+					pos: position{line: 47, col: 12, offset: 1112},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 34, col: 12, offset: 592},
+							pos:   position{line: 47, col: 12, offset: 1112},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 34, col: 17, offset: 597},
+								pos:  position{line: 47, col: 17, offset: 1117},
 								name: "Paragraphs",
 							},
 						},
 						&notExpr{
-							pos: position{line: 34, col: 28, offset: 608},
+							pos: position{line: 47, col: 28, offset: 1128},
 							expr: &anyMatcher{
-								line: 34, col: 29, offset: 609,
+								line: 47, col: 29, offset: 1129,
 							},
 						},
 					},
@@ -76,43 +89,43 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraphs",
-			pos:  position{line: 38, col: 1, offset: 635},
+			pos:  position{line: 51, col: 1, offset: 1155},
 			expr: &actionExpr{
-				pos: position{line: 38, col: 15, offset: 649},
+				pos: position{line: 51, col: 15, offset: 1169},
 				run: (*parser).callonParagraphs1,
 				expr: &seqExpr{
-					pos: position{line: 38, col: 15, offset: 649},
+					pos: position{line: 51, col: 15, offset: 1169},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 38, col: 15, offset: 649},
+							pos: position{line: 51, col: 15, offset: 1169},
 							expr: &ruleRefExpr{
-								pos:  position{line: 38, col: 15, offset: 649},
+								pos:  position{line: 51, col: 15, offset: 1169},
 								name: "CommentSpacing",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 38, col: 31, offset: 665},
+							pos:   position{line: 51, col: 31, offset: 1185},
 							label: "paragraphs",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 38, col: 42, offset: 676},
+								pos: position{line: 51, col: 42, offset: 1196},
 								expr: &actionExpr{
-									pos: position{line: 38, col: 43, offset: 677},
+									pos: position{line: 51, col: 43, offset: 1197},
 									run: (*parser).callonParagraphs7,
 									expr: &seqExpr{
-										pos: position{line: 38, col: 43, offset: 677},
+										pos: position{line: 51, col: 43, offset: 1197},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 38, col: 43, offset: 677},
+												pos:   position{line: 51, col: 43, offset: 1197},
 												label: "p",
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 45, offset: 679},
+													pos:  position{line: 51, col: 45, offset: 1199},
 													name: "Paragraph",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 38, col: 55, offset: 689},
+												pos: position{line: 51, col: 55, offset: 1209},
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 55, offset: 689},
+													pos:  position{line: 51, col: 55, offset: 1209},
 													name: "CommentSpacing",
 												},
 											},
@@ -127,18 +140,18 @@ var g = &grammar{
 		},
 		{
 			name: "LineBreak",
-			pos:  position{line: 42, col: 1, offset: 777},
+			pos:  position{line: 55, col: 1, offset: 1297},
 			expr: &choiceExpr{
-				pos: position{line: 42, col: 14, offset: 790},
+				pos: position{line: 55, col: 14, offset: 1310},
 				alternatives: []interface{}{
 					&litMatcher{
-						pos:        position{line: 42, col: 14, offset: 790},
+						pos:        position{line: 55, col: 14, offset: 1310},
 						val:        "\n",
 						ignoreCase: false,
 						want:       "\"\\n\"",
 					},
 					&litMatcher{
-						pos:        position{line: 42, col: 21, offset: 797},
+						pos:        position{line: 55, col: 21, offset: 1317},
 						val:        "\r\n",
 						ignoreCase: false,
 						want:       "\"\\r\\n\"",
@@ -148,16 +161,16 @@ var g = &grammar{
 		},
 		{
 			name: "CommentSpacing",
-			pos:  position{line: 44, col: 1, offset: 805},
+			pos:  position{line: 57, col: 1, offset: 1325},
 			expr: &choiceExpr{
-				pos: position{line: 44, col: 19, offset: 823},
+				pos: position{line: 57, col: 19, offset: 1343},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 19, offset: 823},
+						pos:  position{line: 57, col: 19, offset: 1343},
 						name: "LineBreak",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 31, offset: 835},
+						pos:  position{line: 57, col: 31, offset: 1355},
 						name: "Comment",
 					},
 				},
@@ -165,33 +178,33 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 46, col: 1, offset: 844},
+			pos:  position{line: 59, col: 1, offset: 1364},
 			expr: &actionExpr{
-				pos: position{line: 46, col: 14, offset: 857},
+				pos: position{line: 59, col: 14, offset: 1377},
 				run: (*parser).callonParagraph1,
 				expr: &labeledExpr{
-					pos:   position{line: 46, col: 14, offset: 857},
+					pos:   position{line: 59, col: 14, offset: 1377},
 					label: "lines",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 46, col: 20, offset: 863},
+						pos: position{line: 59, col: 20, offset: 1383},
 						expr: &actionExpr{
-							pos: position{line: 46, col: 21, offset: 864},
+							pos: position{line: 59, col: 21, offset: 1384},
 							run: (*parser).callonParagraph4,
 							expr: &seqExpr{
-								pos: position{line: 46, col: 21, offset: 864},
+								pos: position{line: 59, col: 21, offset: 1384},
 								exprs: []interface{}{
 									&labeledExpr{
-										pos:   position{line: 46, col: 21, offset: 864},
+										pos:   position{line: 59, col: 21, offset: 1384},
 										label: "l",
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 23, offset: 866},
+											pos:  position{line: 59, col: 23, offset: 1386},
 											name: "Line",
 										},
 									},
 									&zeroOrOneExpr{
-										pos: position{line: 46, col: 28, offset: 871},
+										pos: position{line: 59, col: 28, offset: 1391},
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 28, offset: 871},
+											pos:  position{line: 59, col: 28, offset: 1391},
 											name: "LineBreak",
 										},
 									},
@@ -204,17 +217,17 @@ var g = &grammar{
 		},
 		{
 			name: "Line",
-			pos:  position{line: 50, col: 1, offset: 954},
+			pos:  position{line: 63, col: 1, offset: 1474},
 			expr: &actionExpr{
-				pos: position{line: 50, col: 9, offset: 962},
+				pos: position{line: 63, col: 9, offset: 1482},
 				run: (*parser).callonLine1,
 				expr: &seqExpr{
-					pos: position{line: 50, col: 9, offset: 962},
+					pos: position{line: 63, col: 9, offset: 1482},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 50, col: 9, offset: 962},
+							pos: position{line: 63, col: 9, offset: 1482},
 							expr: &charClassMatcher{
-								pos:        position{line: 50, col: 9, offset: 962},
+								pos:        position{line: 63, col: 9, offset: 1482},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -222,12 +235,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 50, col: 16, offset: 969},
+							pos:   position{line: 63, col: 16, offset: 1489},
 							label: "words",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 50, col: 22, offset: 975},
+								pos: position{line: 63, col: 22, offset: 1495},
 								expr: &ruleRefExpr{
-									pos:  position{line: 50, col: 23, offset: 976},
+									pos:  position{line: 63, col: 23, offset: 1496},
 									name: "Word",
 								},
 							},
@@ -238,45 +251,45 @@ var g = &grammar{
 		},
 		{
 			name: "Word",
-			pos:  position{line: 54, col: 1, offset: 1030},
+			pos:  position{line: 67, col: 1, offset: 1550},
 			expr: &actionExpr{
-				pos: position{line: 54, col: 9, offset: 1038},
+				pos: position{line: 67, col: 9, offset: 1558},
 				run: (*parser).callonWord1,
 				expr: &seqExpr{
-					pos: position{line: 54, col: 9, offset: 1038},
+					pos: position{line: 67, col: 9, offset: 1558},
 					exprs: []interface{}{
 						&zeroOrOneExpr{
-							pos: position{line: 54, col: 9, offset: 1038},
+							pos: position{line: 67, col: 9, offset: 1558},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 9, offset: 1038},
+								pos:  position{line: 67, col: 9, offset: 1558},
 								name: "Comment",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 54, col: 18, offset: 1047},
+							pos:   position{line: 67, col: 18, offset: 1567},
 							label: "val",
 							expr: &choiceExpr{
-								pos: position{line: 54, col: 23, offset: 1052},
+								pos: position{line: 67, col: 23, offset: 1572},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 23, offset: 1052},
+										pos:  position{line: 67, col: 23, offset: 1572},
 										name: "String",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 32, offset: 1061},
+										pos:  position{line: 67, col: 32, offset: 1581},
 										name: "Invoke",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 41, offset: 1070},
+										pos:  position{line: 67, col: 41, offset: 1590},
 										name: "Interpolated",
 									},
 								},
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 54, col: 55, offset: 1084},
+							pos: position{line: 67, col: 55, offset: 1604},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 55, offset: 1084},
+								pos:  position{line: 67, col: 55, offset: 1604},
 								name: "Comment",
 							},
 						},
@@ -286,14 +299,14 @@ var g = &grammar{
 		},
 		{
 			name: "Comment",
-			pos:  position{line: 58, col: 1, offset: 1116},
+			pos:  position{line: 71, col: 1, offset: 1636},
 			expr: &seqExpr{
-				pos: position{line: 58, col: 12, offset: 1127},
+				pos: position{line: 71, col: 12, offset: 1647},
 				exprs: []interface{}{
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 12, offset: 1127},
+						pos: position{line: 71, col: 12, offset: 1647},
 						expr: &charClassMatcher{
-							pos:        position{line: 58, col: 12, offset: 1127},
+							pos:        position{line: 71, col: 12, offset: 1647},
 							val:        "[ \\t]",
 							chars:      []rune{' ', '\t'},
 							ignoreCase: false,
@@ -301,34 +314,34 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 19, offset: 1134},
+						pos:        position{line: 71, col: 19, offset: 1654},
 						val:        "{-",
 						ignoreCase: false,
 						want:       "\"{-\"",
 					},
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 24, offset: 1139},
+						pos: position{line: 71, col: 24, offset: 1659},
 						expr: &choiceExpr{
-							pos: position{line: 58, col: 25, offset: 1140},
+							pos: position{line: 71, col: 25, offset: 1660},
 							alternatives: []interface{}{
 								&ruleRefExpr{
-									pos:  position{line: 58, col: 25, offset: 1140},
+									pos:  position{line: 71, col: 25, offset: 1660},
 									name: "Comment",
 								},
 								&seqExpr{
-									pos: position{line: 58, col: 35, offset: 1150},
+									pos: position{line: 71, col: 35, offset: 1670},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 58, col: 35, offset: 1150},
+											pos: position{line: 71, col: 35, offset: 1670},
 											expr: &litMatcher{
-												pos:        position{line: 58, col: 36, offset: 1151},
+												pos:        position{line: 71, col: 36, offset: 1671},
 												val:        "-}",
 												ignoreCase: false,
 												want:       "\"-}\"",
 											},
 										},
 										&anyMatcher{
-											line: 58, col: 41, offset: 1156,
+											line: 71, col: 41, offset: 1676,
 										},
 									},
 								},
@@ -336,7 +349,7 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 45, offset: 1160},
+						pos:        position{line: 71, col: 45, offset: 1680},
 						val:        "-}",
 						ignoreCase: false,
 						want:       "\"-}\"",
@@ -346,32 +359,32 @@ var g = &grammar{
 		},
 		{
 			name: "Interpolated",
-			pos:  position{line: 60, col: 1, offset: 1166},
+			pos:  position{line: 73, col: 1, offset: 1686},
 			expr: &actionExpr{
-				pos: position{line: 60, col: 17, offset: 1182},
+				pos: position{line: 73, col: 17, offset: 1702},
 				run: (*parser).callonInterpolated1,
 				expr: &seqExpr{
-					pos: position{line: 60, col: 17, offset: 1182},
+					pos: position{line: 73, col: 17, offset: 1702},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 60, col: 17, offset: 1182},
+							pos:        position{line: 73, col: 17, offset: 1702},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 60, col: 21, offset: 1186},
+							pos:   position{line: 73, col: 21, offset: 1706},
 							label: "word",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 60, col: 26, offset: 1191},
+								pos: position{line: 73, col: 26, offset: 1711},
 								expr: &ruleRefExpr{
-									pos:  position{line: 60, col: 26, offset: 1191},
+									pos:  position{line: 73, col: 26, offset: 1711},
 									name: "Word",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 60, col: 32, offset: 1197},
+							pos:        position{line: 73, col: 32, offset: 1717},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -382,35 +395,35 @@ var g = &grammar{
 		},
 		{
 			name: "WrappedLine",
-			pos:  position{line: 68, col: 1, offset: 1288},
+			pos:  position{line: 81, col: 1, offset: 1808},
 			expr: &actionExpr{
-				pos: position{line: 68, col: 16, offset: 1303},
+				pos: position{line: 81, col: 16, offset: 1823},
 				run: (*parser).callonWrappedLine1,
 				expr: &seqExpr{
-					pos: position{line: 68, col: 16, offset: 1303},
+					pos: position{line: 81, col: 16, offset: 1823},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 68, col: 16, offset: 1303},
+							pos:   position{line: 81, col: 16, offset: 1823},
 							label: "firstWord",
 							expr: &ruleRefExpr{
-								pos:  position{line: 68, col: 26, offset: 1313},
+								pos:  position{line: 81, col: 26, offset: 1833},
 								name: "Word",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 68, col: 31, offset: 1318},
+							pos:   position{line: 81, col: 31, offset: 1838},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 68, col: 37, offset: 1324},
+								pos: position{line: 81, col: 37, offset: 1844},
 								expr: &choiceExpr{
-									pos: position{line: 68, col: 38, offset: 1325},
+									pos: position{line: 81, col: 38, offset: 1845},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 38, offset: 1325},
+											pos:  position{line: 81, col: 38, offset: 1845},
 											name: "Word",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 45, offset: 1332},
+											pos:  position{line: 81, col: 45, offset: 1852},
 											name: "Split",
 										},
 									},
@@ -423,21 +436,21 @@ var g = &grammar{
 		},
 		{
 			name: "Split",
-			pos:  position{line: 73, col: 1, offset: 1463},
+			pos:  position{line: 86, col: 1, offset: 1983},
 			expr: &actionExpr{
-				pos: position{line: 73, col: 10, offset: 1472},
+				pos: position{line: 86, col: 10, offset: 1992},
 				run: (*parser).callonSplit1,
 				expr: &seqExpr{
-					pos: position{line: 73, col: 10, offset: 1472},
+					pos: position{line: 86, col: 10, offset: 1992},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 73, col: 10, offset: 1472},
+							pos:  position{line: 86, col: 10, offset: 1992},
 							name: "LineBreak",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 73, col: 20, offset: 1482},
+							pos: position{line: 86, col: 20, offset: 2002},
 							expr: &charClassMatcher{
-								pos:        position{line: 73, col: 20, offset: 1482},
+								pos:        position{line: 86, col: 20, offset: 2002},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -450,20 +463,20 @@ var g = &grammar{
 		},
 		{
 			name: "String",
-			pos:  position{line: 75, col: 1, offset: 1518},
+			pos:  position{line: 88, col: 1, offset: 2038},
 			expr: &choiceExpr{
-				pos: position{line: 75, col: 11, offset: 1528},
+				pos: position{line: 88, col: 11, offset: 2048},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 75, col: 11, offset: 1528},
+						pos: position{line: 88, col: 11, offset: 2048},
 						run: (*parser).callonString2,
 						expr: &labeledExpr{
-							pos:   position{line: 75, col: 11, offset: 1528},
+							pos:   position{line: 88, col: 11, offset: 2048},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 75, col: 15, offset: 1532},
+								pos: position{line: 88, col: 15, offset: 2052},
 								expr: &charClassMatcher{
-									pos:        position{line: 75, col: 15, offset: 1532},
+									pos:        position{line: 88, col: 15, offset: 2052},
 									val:        "[^\\\\{}\\r\\n]",
 									chars:      []rune{'\\', '{', '}', '\r', '\n'},
 									ignoreCase: false,
@@ -473,19 +486,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 75, col: 61, offset: 1578},
+						pos: position{line: 88, col: 61, offset: 2098},
 						run: (*parser).callonString6,
 						expr: &seqExpr{
-							pos: position{line: 75, col: 61, offset: 1578},
+							pos: position{line: 88, col: 61, offset: 2098},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 75, col: 61, offset: 1578},
+									pos:        position{line: 88, col: 61, offset: 2098},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&charClassMatcher{
-									pos:        position{line: 75, col: 66, offset: 1583},
+									pos:        position{line: 88, col: 66, offset: 2103},
 									val:        "[\\\\{}]",
 									chars:      []rune{'\\', '{', '}'},
 									ignoreCase: false,
@@ -499,20 +512,20 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimString",
-			pos:  position{line: 77, col: 1, offset: 1626},
+			pos:  position{line: 90, col: 1, offset: 2146},
 			expr: &choiceExpr{
-				pos: position{line: 77, col: 19, offset: 1644},
+				pos: position{line: 90, col: 19, offset: 2164},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 77, col: 19, offset: 1644},
+						pos: position{line: 90, col: 19, offset: 2164},
 						run: (*parser).callonVerbatimString2,
 						expr: &labeledExpr{
-							pos:   position{line: 77, col: 19, offset: 1644},
+							pos:   position{line: 90, col: 19, offset: 2164},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 77, col: 23, offset: 1648},
+								pos: position{line: 90, col: 23, offset: 2168},
 								expr: &charClassMatcher{
-									pos:        position{line: 77, col: 23, offset: 1648},
+									pos:        position{line: 90, col: 23, offset: 2168},
 									val:        "[^\\r\\n}]",
 									chars:      []rune{'\r', '\n', '}'},
 									ignoreCase: false,
@@ -522,21 +535,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 79, col: 5, offset: 1693},
+						pos: position{line: 92, col: 5, offset: 2213},
 						run: (*parser).callonVerbatimString6,
 						expr: &seqExpr{
-							pos: position{line: 79, col: 5, offset: 1693},
+							pos: position{line: 92, col: 5, offset: 2213},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 79, col: 5, offset: 1693},
+									pos:        position{line: 92, col: 5, offset: 2213},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
 								},
 								&notExpr{
-									pos: position{line: 79, col: 9, offset: 1697},
+									pos: position{line: 92, col: 9, offset: 2217},
 									expr: &litMatcher{
-										pos:        position{line: 79, col: 10, offset: 1698},
+										pos:        position{line: 92, col: 10, offset: 2218},
 										val:        "}}",
 										ignoreCase: false,
 										want:       "\"}}\"",
@@ -550,34 +563,34 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlockLine",
-			pos:  position{line: 83, col: 1, offset: 1737},
+			pos:  position{line: 96, col: 1, offset: 2257},
 			expr: &actionExpr{
-				pos: position{line: 83, col: 26, offset: 1762},
+				pos: position{line: 96, col: 26, offset: 2282},
 				run: (*parser).callonPreformattedBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 83, col: 26, offset: 1762},
+					pos: position{line: 96, col: 26, offset: 2282},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 83, col: 26, offset: 1762},
+							pos:   position{line: 96, col: 26, offset: 2282},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 83, col: 33, offset: 1769},
+								pos:  position{line: 96, col: 33, offset: 2289},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 83, col: 40, offset: 1776},
+							pos:   position{line: 96, col: 40, offset: 2296},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 83, col: 46, offset: 1782},
+								pos: position{line: 96, col: 46, offset: 2302},
 								expr: &ruleRefExpr{
-									pos:  position{line: 83, col: 46, offset: 1782},
+									pos:  position{line: 96, col: 46, offset: 2302},
 									name: "Word",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 83, col: 52, offset: 1788},
+							pos:  position{line: 96, col: 52, offset: 2308},
 							name: "LineBreak",
 						},
 					},
@@ -586,32 +599,36 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 89, col: 1, offset: 1918},
+			pos:  position{line: 102, col: 1, offset: 2438},
 			expr: &actionExpr{
-				pos: position{line: 89, col: 22, offset: 1939},
+				pos: position{line: 102, col: 22, offset: 2459},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 89, col: 22, offset: 1939},
+					pos: position{line: 102, col: 22, offset: 2459},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 89, col: 22, offset: 1939},
+							pos:  position{line: 102, col: 22, offset: 2459},
 							name: "LineBreak",
 						},
+						&ruleRefExpr{
+							pos:  position{line: 102, col: 32, offset: 2469},
+							name: "BlockIndent",
+						},
 						&labeledExpr{
-							pos:   position{line: 89, col: 32, offset: 1949},
+							pos:   position{line: 102, col: 44, offset: 2481},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 89, col: 38, offset: 1955},
+								pos: position{line: 102, col: 50, offset: 2487},
 								expr: &ruleRefExpr{
-									pos:  position{line: 89, col: 38, offset: 1955},
+									pos:  position{line: 102, col: 50, offset: 2487},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 89, col: 61, offset: 1978},
+							pos: position{line: 102, col: 73, offset: 2510},
 							expr: &charClassMatcher{
-								pos:        position{line: 89, col: 61, offset: 1978},
+								pos:        position{line: 102, col: 73, offset: 2510},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -624,17 +641,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 94, col: 1, offset: 2079},
+			pos:  position{line: 107, col: 1, offset: 2591},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 17, offset: 2095},
+				pos: position{line: 107, col: 17, offset: 2607},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 94, col: 17, offset: 2095},
+					pos:   position{line: 107, col: 17, offset: 2607},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 94, col: 23, offset: 2101},
+						pos: position{line: 107, col: 23, offset: 2613},
 						expr: &ruleRefExpr{
-							pos:  position{line: 94, col: 23, offset: 2101},
+							pos:  position{line: 107, col: 23, offset: 2613},
 							name: "VerbatimString",
 						},
 					},
@@ -643,34 +660,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 98, col: 1, offset: 2164},
+			pos:  position{line: 111, col: 1, offset: 2676},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 22, offset: 2185},
+				pos: position{line: 111, col: 22, offset: 2697},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 22, offset: 2185},
+					pos: position{line: 111, col: 22, offset: 2697},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 98, col: 22, offset: 2185},
+							pos:   position{line: 111, col: 22, offset: 2697},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 29, offset: 2192},
+								pos:  position{line: 111, col: 29, offset: 2704},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 36, offset: 2199},
+							pos:   position{line: 111, col: 36, offset: 2711},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 98, col: 42, offset: 2205},
+								pos: position{line: 111, col: 42, offset: 2717},
 								expr: &ruleRefExpr{
-									pos:  position{line: 98, col: 42, offset: 2205},
+									pos:  position{line: 111, col: 42, offset: 2717},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 58, offset: 2221},
+							pos:  position{line: 111, col: 58, offset: 2733},
 							name: "LineBreak",
 						},
 					},
@@ -679,32 +696,36 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 104, col: 1, offset: 2351},
+			pos:  position{line: 117, col: 1, offset: 2863},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 18, offset: 2368},
+				pos: position{line: 117, col: 18, offset: 2880},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 18, offset: 2368},
+					pos: position{line: 117, col: 18, offset: 2880},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 104, col: 18, offset: 2368},
+							pos:  position{line: 117, col: 18, offset: 2880},
 							name: "LineBreak",
 						},
+						&ruleRefExpr{
+							pos:  position{line: 117, col: 28, offset: 2890},
+							name: "BlockIndent",
+						},
 						&labeledExpr{
-							pos:   position{line: 104, col: 28, offset: 2378},
+							pos:   position{line: 117, col: 40, offset: 2902},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 104, col: 34, offset: 2384},
+								pos: position{line: 117, col: 46, offset: 2908},
 								expr: &ruleRefExpr{
-									pos:  position{line: 104, col: 34, offset: 2384},
+									pos:  position{line: 117, col: 46, offset: 2908},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 53, offset: 2403},
+							pos: position{line: 117, col: 65, offset: 2927},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 53, offset: 2403},
+								pos:        position{line: 117, col: 65, offset: 2927},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -717,26 +738,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 109, col: 1, offset: 2504},
+			pos:  position{line: 122, col: 1, offset: 3008},
 			expr: &actionExpr{
-				pos: position{line: 109, col: 11, offset: 2514},
+				pos: position{line: 122, col: 11, offset: 3018},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 109, col: 11, offset: 2514},
+					pos: position{line: 122, col: 11, offset: 3018},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 109, col: 11, offset: 2514},
+							pos:        position{line: 122, col: 11, offset: 3018},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 16, offset: 2519},
+							pos:   position{line: 122, col: 16, offset: 3023},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 109, col: 22, offset: 2525},
+								pos: position{line: 122, col: 22, offset: 3029},
 								expr: &charClassMatcher{
-									pos:        position{line: 109, col: 22, offset: 2525},
+									pos:        position{line: 122, col: 22, offset: 3029},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -746,12 +767,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 31, offset: 2534},
+							pos:   position{line: 122, col: 31, offset: 3038},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 109, col: 37, offset: 2540},
+								pos: position{line: 122, col: 37, offset: 3044},
 								expr: &ruleRefExpr{
-									pos:  position{line: 109, col: 37, offset: 2540},
+									pos:  position{line: 122, col: 37, offset: 3044},
 									name: "Argument",
 								},
 							},
@@ -762,38 +783,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 122, col: 1, offset: 2756},
+			pos:  position{line: 135, col: 1, offset: 3260},
 			expr: &actionExpr{
-				pos: position{line: 122, col: 16, offset: 2771},
+				pos: position{line: 135, col: 16, offset: 3275},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 122, col: 16, offset: 2771},
+					pos: position{line: 135, col: 16, offset: 3275},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 122, col: 16, offset: 2771},
+							pos:        position{line: 135, col: 16, offset: 3275},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 122, col: 22, offset: 2777},
+							pos:   position{line: 135, col: 22, offset: 3281},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 122, col: 28, offset: 2783},
+								pos: position{line: 135, col: 28, offset: 3287},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 28, offset: 2783},
+										pos:  position{line: 135, col: 28, offset: 3287},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 44, offset: 2799},
+										pos:  position{line: 135, col: 44, offset: 3303},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 122, col: 58, offset: 2813},
+							pos:        position{line: 135, col: 58, offset: 3317},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -804,29 +825,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 126, col: 1, offset: 2843},
+			pos:  position{line: 139, col: 1, offset: 3347},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 20, offset: 2862},
+				pos: position{line: 139, col: 20, offset: 3366},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 20, offset: 2862},
+					pos: position{line: 139, col: 20, offset: 3366},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 126, col: 20, offset: 2862},
+							pos:        position{line: 139, col: 20, offset: 3366},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 25, offset: 2867},
+							pos:   position{line: 139, col: 25, offset: 3371},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 126, col: 30, offset: 2872},
+								pos:  position{line: 139, col: 30, offset: 3376},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 126, col: 48, offset: 2890},
+							pos:        position{line: 139, col: 48, offset: 3394},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -837,14 +858,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 130, col: 1, offset: 2919},
+			pos:  position{line: 143, col: 1, offset: 3423},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 13, offset: 2931},
+				pos: position{line: 143, col: 13, offset: 3435},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 130, col: 13, offset: 2931},
+					pos: position{line: 143, col: 13, offset: 3435},
 					expr: &ruleRefExpr{
-						pos:  position{line: 130, col: 13, offset: 2931},
+						pos:  position{line: 143, col: 13, offset: 3435},
 						name: "CommentSpacing",
 					},
 				},
@@ -852,37 +873,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 132, col: 1, offset: 2968},
+			pos:  position{line: 145, col: 1, offset: 3472},
 			expr: &actionExpr{
-				pos: position{line: 132, col: 8, offset: 2975},
+				pos: position{line: 145, col: 8, offset: 3479},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 132, col: 8, offset: 2975},
+					pos: position{line: 145, col: 8, offset: 3479},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 132, col: 8, offset: 2975},
+							pos:        position{line: 145, col: 8, offset: 3479},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 132, col: 12, offset: 2979},
+							pos:   position{line: 145, col: 12, offset: 3483},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 132, col: 17, offset: 2984},
+								pos: position{line: 145, col: 17, offset: 3488},
 								expr: &choiceExpr{
-									pos: position{line: 132, col: 18, offset: 2985},
+									pos: position{line: 145, col: 18, offset: 3489},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 18, offset: 2985},
+											pos:  position{line: 145, col: 18, offset: 3489},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 32, offset: 2999},
+											pos:  position{line: 145, col: 32, offset: 3503},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 42, offset: 3009},
+											pos:  position{line: 145, col: 42, offset: 3513},
 											name: "EmptyArg",
 										},
 									},
@@ -890,7 +911,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 132, col: 53, offset: 3020},
+							pos:        position{line: 145, col: 53, offset: 3524},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -901,25 +922,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 140, col: 1, offset: 3111},
+			pos:  position{line: 153, col: 1, offset: 3615},
 			expr: &actionExpr{
-				pos: position{line: 140, col: 12, offset: 3122},
+				pos: position{line: 153, col: 12, offset: 3626},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 140, col: 12, offset: 3122},
+					pos: position{line: 153, col: 12, offset: 3626},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 140, col: 12, offset: 3122},
+							pos:   position{line: 153, col: 12, offset: 3626},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 140, col: 18, offset: 3128},
+								pos:  position{line: 153, col: 18, offset: 3632},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 140, col: 29, offset: 3139},
+							pos: position{line: 153, col: 29, offset: 3643},
 							expr: &charClassMatcher{
-								pos:        position{line: 140, col: 29, offset: 3139},
+								pos:        position{line: 153, col: 29, offset: 3643},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -932,35 +953,43 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 144, col: 1, offset: 3171},
+			pos:  position{line: 157, col: 1, offset: 3675},
 			expr: &choiceExpr{
-				pos: position{line: 144, col: 13, offset: 3183},
+				pos: position{line: 157, col: 13, offset: 3687},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 13, offset: 3183},
+						pos:  position{line: 157, col: 13, offset: 3687},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 27, offset: 3197},
+						pos:  position{line: 157, col: 27, offset: 3701},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 45, offset: 3215},
+						pos:  position{line: 157, col: 45, offset: 3719},
 						name: "Arg",
 					},
 				},
 			},
 		},
+		{
+			name: "BlockIndent",
+			pos:  position{line: 159, col: 1, offset: 3724},
+			expr: &andCodeExpr{
+				pos: position{line: 159, col: 16, offset: 3739},
+				run: (*parser).callonBlockIndent1,
+			},
+		},
 		{
 			name: "Indent",
-			pos:  position{line: 146, col: 1, offset: 3220},
+			pos:  position{line: 164, col: 1, offset: 3784},
 			expr: &actionExpr{
-				pos: position{line: 146, col: 11, offset: 3230},
+				pos: position{line: 164, col: 11, offset: 3794},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 146, col: 11, offset: 3230},
+					pos: position{line: 164, col: 11, offset: 3794},
 					expr: &charClassMatcher{
-						pos:        position{line: 146, col: 11, offset: 3230},
+						pos:        position{line: 164, col: 11, offset: 3794},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1130,7 +1159,7 @@ func (p *parser) callonPreformattedBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
+	popIndentSkip(c)
 	return Preformatted(ifaceSequences(lines)), nil
 }
 
@@ -1163,7 +1192,7 @@ func (p *parser) callonVerbatimBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
+	popIndentSkip(c)
 	return Preformatted(ifaceSequences(lines)), nil
 }
 
@@ -1246,14 +1275,24 @@ func (p *parser) callonParaArg1() (interface{}, error) {
 	return p.cur.onParaArg1(stack["paras"])
 }
 
+func (c *current) onBlockIndent1() (bool, error) {
+	pushIndentSkip(c)
+	return true, nil
+}
+
+func (p *parser) callonBlockIndent1() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockIndent1()
+}
+
 func (c *current) onIndent1() (interface{}, error) {
-	skip := len(c.text)
+	skips := c.globalStore["indent-skip"].([]int)
 
-	i, found := c.globalStore["indent-skip"]
-	if found {
-		skip = i.(int)
-	} else {
-		c.globalStore["indent-skip"] = skip
+	skip := skips[len(skips)-1]
+	if skip == -1 {
+		skip = len(c.text)
+		skips[len(skips)-1] = skip
 	}
 
 	if skip <= len(c.text) {
@@ -1327,18 +1366,17 @@ func Entrypoint(ruleName string) Option {
 //
 // Example usage:
 //
-//     input := "input"
-//     stats := Stats{}
-//     _, err := Parse("input-file", []byte(input), Statistics(&stats, "no match"))
-//     if err != nil {
-//         log.Panicln(err)
-//     }
-//     b, err := json.MarshalIndent(stats.ChoiceAltCnt, "", "  ")
-//     if err != nil {
-//         log.Panicln(err)
-//     }
-//     fmt.Println(string(b))
-//
+//	input := "input"
+//	stats := Stats{}
+//	_, err := Parse("input-file", []byte(input), Statistics(&stats, "no match"))
+//	if err != nil {
+//	    log.Panicln(err)
+//	}
+//	b, err := json.MarshalIndent(stats.ChoiceAltCnt, "", "  ")
+//	if err != nil {
+//	    log.Panicln(err)
+//	}
+//	fmt.Println(string(b))
 func Statistics(stats *Stats, choiceNoMatch string) Option {
 	return func(p *parser) Option {
 		oldStats := p.Stats
-- 
2.43.0


From cecb69bb09d9df219d37f102fd70a4d6b38f184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 15/23] fix: reload templates which failed to load, were
 removed, or went backwards in time

---
 render/html.go | 13 ++++++++++---
 render/text.go | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/render/html.go b/render/html.go
index 8c83a19..81210b3 100644
--- a/render/html.go
+++ b/render/html.go
@@ -112,7 +112,9 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -122,11 +124,11 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -135,6 +137,9 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 
 	engine.resetTmpl()
 
+	// until they have all loaded, be sure to try again next time
+	engine.tmplModTimes = nil
+
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
 		if err != nil {
@@ -149,6 +154,8 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
diff --git a/render/text.go b/render/text.go
index 5d6ebc0..c32e4ae 100644
--- a/render/text.go
+++ b/render/text.go
@@ -104,7 +104,9 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -114,11 +116,11 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -127,6 +129,9 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 
 	engine.resetTmpl()
 
+	// until they have all loaded, be sure to try again next time
+	engine.tmplModTimes = nil
+
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
 		if err != nil {
@@ -141,6 +146,8 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
-- 
2.43.0


From 7d9f8f1853dcfe7faab47fec94ac5f8b1b632598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 16/23] fix: return an error when a section includes itself
 instead of overflowing the stack

---
 baselit/plugin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index 12abf32..f72df60 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -82,6 +82,12 @@ func (plugin Plugin) Section(node ast.Node) error {
 func (plugin Plugin) IncludeSection(path string) error {
 	sectionPath := filepath.Join(filepath.Dir(plugin.section.FilePath()), path)
 
+	for parent := plugin.section; parent != nil; parent = parent.Parent {
+		if parent.Path != "" && filepath.Clean(parent.Path) == sectionPath {
+			return fmt.Errorf("section includes itself: %s", path)
+		}
+	}
+
 	section, err := plugin.section.Processor.EvaluateFile(plugin.section, sectionPath, []booklit.PluginFactory{NewPlugin})
 	if err != nil {
 		return err
-- 
2.43.0


From 6d1d636d8ba14393c51cc96a2c4e77a808583470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 17/23] fix: separate the title from the body in the text
 engine

---
 render/text/bindata.go   | 4 ++--
 render/text/section.tmpl | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/text/bindata.go b/render/text/bindata.go
index cf0bd0a..9f1c16f 100644
--- a/render/text/bindata.go
+++ b/render/text/bindata.go
@@ -164,7 +164,7 @@ func renderTextPreformattedTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _renderTextSectionTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x4c\xcd\xc1\x09\x02\x41\x0c\x85\xe1\xfb\x54\x91\x06\x4c\x11\x7a\x17\x61\x6d\x60\x75\xb2\x1a\x18\x33\x12\xe3\x41\x9e\xe9\x5d\x58\x65\xf0\xf4\xe0\x83\xc7\x0f\xe8\x42\x7c\x98\x5d\x2c\x32\x01\xde\x3f\x6f\x27\xf1\x4c\x02\xc4\xea\x4a\x47\x8d\x26\xf4\x26\x17\xab\xe2\xb4\xc9\x2c\x05\xe0\x6d\xaf\xaf\xa1\x5f\xd3\x85\xac\x07\xf1\x74\x6f\x1a\x93\x9c\x43\xbb\x3d\x32\x0b\xe0\xb3\x5d\x84\x78\x77\xd5\x56\x5d\x6c\x35\xfe\x7f\xff\x72\x63\x3f\x01\x00\x00\xff\xff\x34\xbb\x8c\x55\x99\x00\x00\x00")
+var _renderTextSectionTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x5c\xcd\xc1\x09\x02\x41\x0c\x85\xe1\xfb\x54\x91\x0a\x52\x84\xde\x45\x58\x1b\x58\x4d\x56\x03\x63\x46\x62\x3c\xc8\x33\xbd\x8b\x8b\x07\xf1\xfa\x3d\x1e\x3f\x60\x0b\xf1\x7e\x0e\xf5\xac\x02\x78\xf7\xb8\x1e\x35\xaa\x08\x50\x97\x95\x0e\x96\x5d\xe9\x45\xa1\x2e\x9f\xa9\x35\x80\x37\x43\x9e\x7f\x66\x0b\xf9\x48\xe2\xe9\xd6\x2d\x27\x3d\xa5\x0d\xbf\x57\x35\x20\x66\x3f\x2b\xf1\xf6\x62\x5d\x42\x7d\x35\xfe\x7d\x7f\x63\x0d\x50\x97\xaa\xf6\x1e\x00\xcc\xc5\xfe\x5c\x97\x00\x00\x00")
 
 func renderTextSectionTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -179,7 +179,7 @@ func renderTextSectionTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/section.tmpl", size: 153, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/section.tmpl", size: 151, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
diff --git a/render/text/section.tmpl b/render/text/section.tmpl
index bc8c0fc..4422fbf 100644
--- a/render/text/section.tmpl
+++ b/render/text/section.tmpl
@@ -1,4 +1,4 @@
-{{if .Parent}}{{.Number}} {{end}}{{.Title | render -}}
+{{if .Parent}}{{.Number}} {{end}}{{.Title | render}}
 
 {{.Body | render}}
 
-- 
2.43.0


From 61be039724bdee1481c1df3da52cd4c667c252ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 18/23] fix: report an error closing a written page

---
 render/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/writer.go b/render/writer.go
index db1b627..c3e8dd1 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -137,5 +137,5 @@ func (writer Writer) writeSingleSection(section *booklit.Section) error {
 		return err
 	}
 
-	return nil
+	return file.Close()
 }
-- 
2.43.0


From e513c8a9bc070558b03abd29f717c8363c8813c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:59 +0000
Subject: [PATCH 19/23] fix: lex pairs of braces in verbatim text

---
 chroma/booklit_lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chroma/booklit_lexer.go b/chroma/booklit_lexer.go
index 824380b..24b7a59 100644
--- a/chroma/booklit_lexer.go
+++ b/chroma/booklit_lexer.go
@@ -25,7 +25,7 @@ var Booklit = lexers.Register(MustNewLexer(
 		"verbatim": {
 			{Pattern: `\}\}\}`, Type: StringDouble, Mutator: Pop(1)},
 			{Pattern: `[^}]+`, Type: StringDouble, Mutator: nil},
-			{Pattern: `}[^\}]`, Type: StringDouble, Mutator: nil},
+			{Pattern: `\}`, Type: StringDouble, Mutator: nil},
 		},
 		"comment": {
 			{Pattern: `[^-{}]+`, Type: CommentMultiline, Mutator: nil},
-- 
2.43.0


From 868433ab256977dc135ebb0baa09b3fd3d6bceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 20/23] fix: do not share memory between sequences extended by
 Append

---
 append.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 006d8f3..3c3cfb1 100644
--- a/append.go
+++ b/append.go
@@ -16,7 +16,8 @@ func Append(first Content, rest ...Content) Content {
 		case nil:
 			appended = content
 		case Sequence:
-			appended = Sequence(append(v, content))
+			// copy it, as others may be appending to the same Sequence
+			appended = append(append(make(Sequence, 0, len(v)+1), v...), content)
 		default:
 			appended = Sequence([]Content{appended, content})
 		}
-- 
2.43.0


From e5c84d6cf6a1d5304ebf83cf2c0aa345e2dd34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 21/23] fix: let an empty template override a bundled one

---
 render/common.go | 16 ++++++++++++++++
 render/html.go   |  2 +-
 render/text.go   |  2 +-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/render/common.go b/render/common.go
index b40f22f..e045ea9 100644
--- a/render/common.go
+++ b/render/common.go
@@ -3,6 +3,7 @@ package render
 import (
 	"net/url"
 	"strings"
+	"text/template/parse"
 
 	"github.com/vito/booklit"
 )
@@ -46,6 +47,21 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 	return filename
 }
 
+// overriding returns content which is rendered the same but replaces an
+// existing template of the same name even if it is empty, which Go's templates
+// would otherwise ignore.
+func overriding(content string) string {
+	tree := parse.New("")
+	tree.Mode = parse.SkipFuncCheck
+
+	_, err := tree.Parse(content, "", "", map[string]*parse.Tree{})
+	if err == nil && parse.IsEmptyTree(tree.Root) {
+		return content + `{{""}}`
+	}
+
+	return content
+}
+
 // escapeURL additionally escapes colons, so that a tag containing one is not
 // mistaken for a URL scheme.
 func escapeURL(escaped string) string {
diff --git a/render/html.go b/render/html.go
index 81210b3..5459685 100644
--- a/render/html.go
+++ b/render/html.go
@@ -148,7 +148,7 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 
 		trimmed := strings.TrimRight(string(content), "\n")
 
-		_, err = engine.tmpl.New(filepath.Base(path)).Parse(trimmed)
+		_, err = engine.tmpl.New(filepath.Base(path)).Parse(overriding(trimmed))
 		if err != nil {
 			return err
 		}
diff --git a/render/text.go b/render/text.go
index c32e4ae..e1ba256 100644
--- a/render/text.go
+++ b/render/text.go
@@ -140,7 +140,7 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 
 		trimmed := strings.TrimRight(string(content), "\n")
 
-		_, err = engine.tmpl.New(filepath.Base(path)).Parse(trimmed)
+		_, err = engine.tmpl.New(filepath.Base(path)).Parse(overriding(trimmed))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 48a81b6fcac00de5be54af96263d7368ca32144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 22/23] fix: report syntax errors at a linebreak on the line it
 ends

---
 load/processor.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/load/processor.go b/load/processor.go
index 4d1411e..cb2ebe1 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -4,9 +4,12 @@
 package load
 
 import (
+	"bytes"
+	"io"
 	"os"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -87,18 +90,32 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 			return nil, err
 		}
 
-		result, err := ast.ParseReader(path, file)
+		source, err := io.ReadAll(file)
+		if err != nil {
+			return nil, err
+		}
+
+		result, err := ast.Parse(path, source)
 		if err != nil {
 			astErr, ok := ast.UnpackError(err)
 			if !ok {
 				return nil, err
 			}
 
+			loc := astErr.Location
+			if loc.Col == 0 && loc.Line > 1 {
+				// the parser counts a linebreak to the line after it
+				start := bytes.LastIndexByte(source[:loc.Offset], '\n') + 1
+
+				loc.Line--
+				loc.Col = utf8.RuneCount(source[start:loc.Offset]) + 1
+			}
+
 			return nil, booklit.ParseError{
 				Err: astErr.Inner,
 				ErrorLocation: booklit.ErrorLocation{
 					FilePath:     path,
-					NodeLocation: astErr.Location,
+					NodeLocation: loc,
 					Length:       1,
 				},
 			}
-- 
2.43.0


From 7b27031c114bf1aaaed2325774b03ab6a8b8ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 23/23] fix: load templates from directories with special
 characters in their names

---
 render/common.go | 21 +++++++++++++++++++++
 render/html.go   |  5 +----
 render/text.go   |  5 +----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/render/common.go b/render/common.go
index e045ea9..a1cd816 100644
--- a/render/common.go
+++ b/render/common.go
@@ -2,6 +2,8 @@ package render
 
 import (
 	"net/url"
+	"os"
+	"path/filepath"
 	"strings"
 	"text/template/parse"
 
@@ -47,6 +49,25 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 	return filename
 }
 
+// templateFiles returns the paths of the *.tmpl files in a directory, whose name
+// may have characters which would mean something in a pattern. As with
+// filepath.Glob, there are none in a directory that cannot be read.
+func templateFiles(dir string) []string {
+	entries, err := os.ReadDir(filepath.Clean(dir))
+	if err != nil {
+		return nil
+	}
+
+	paths := []string{}
+	for _, entry := range entries {
+		if strings.HasSuffix(entry.Name(), ".tmpl") {
+			paths = append(paths, filepath.Join(dir, entry.Name()))
+		}
+	}
+
+	return paths
+}
+
 // overriding returns content which is rendered the same but replaces an
 // existing template of the same name even if it is empty, which Go's templates
 // would otherwise ignore.
diff --git a/render/html.go b/render/html.go
index 5459685..bcca0d2 100644
--- a/render/html.go
+++ b/render/html.go
@@ -107,10 +107,7 @@ func (engine *HTMLEngine) resetTmpl() {
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
 func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
-	if err != nil {
-		return err
-	}
+	templates := templateFiles(templatesDir)
 
 	modTimes := map[string]time.Time{}
 
diff --git a/render/text.go b/render/text.go
index e1ba256..89c5f73 100644
--- a/render/text.go
+++ b/render/text.go
@@ -99,10 +99,7 @@ func (engine *TextEngine) resetTmpl() {
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
 func (engine *TextEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
-	if err != nil {
-		return err
-	}
+	templates := templateFiles(templatesDir)
 
 	modTimes := map[string]time.Time{}
 
-- 
2.43.0

