From b21ca5a26810748026e3256909320230a1f8ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 01/28] fix: give package-name join points their own
 fingerprint tag

---
 internal/injector/aspect/join/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/aspect/join/package.go b/internal/injector/aspect/join/package.go
index 0f13fc1..9aeb8f4 100644
--- a/internal/injector/aspect/join/package.go
+++ b/internal/injector/aspect/join/package.go
@@ -76,7 +76,7 @@ func (p packageName) Matches(ctx context.AspectContext) bool {
 }
 
 func (p packageName) Hash(h *fingerprint.Hasher) error {
-	return h.Named("import-path", fingerprint.String(p))
+	return h.Named("package-name", fingerprint.String(p))
 }
 
 type packageFilter struct {
-- 
2.43.0


From f7b060e493aed5af20ab5a70d28eda0ac3289fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 02/28] fix: importcfg: allocate the package file map up front
 and report read errors

A configuration without packagefile entries left the map nil, so that adding
an entry later on panicked. Read errors (including over-long lines) were only
looked at inside the scan loop, where they are always nil.
---
 internal/toolexec/importcfg/importcfg.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/internal/toolexec/importcfg/importcfg.go b/internal/toolexec/importcfg/importcfg.go
index 48615d0..1721830 100644
--- a/internal/toolexec/importcfg/importcfg.go
+++ b/internal/toolexec/importcfg/importcfg.go
@@ -53,11 +53,8 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 	scanner := bufio.NewScanner(r)
 	scanner.Split(bufio.ScanLines)
 
+	reg.PackageFile = make(map[string]string)
 	for scanner.Scan() {
-		if err = scanner.Err(); err != nil {
-			return
-		}
-
 		line := strings.TrimSpace(scanner.Text())
 		if line == "" || line[0] == '#' {
 			continue
@@ -77,9 +74,6 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 				continue
 			}
 
-			if reg.PackageFile == nil {
-				reg.PackageFile = make(map[string]string)
-			}
 			reg.PackageFile[importPath] = archive
 
 		case "importmap":
@@ -99,12 +93,15 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 		}
 	}
 
-	return
+	return reg, scanner.Err()
 }
 
 // CombinePackageFile copies `packagefile` entries from other into the receiver unless it already
 // has an entry with the same import path.
 func (r *ImportConfig) CombinePackageFile(other *ImportConfig) (changed bool) {
+	if r.PackageFile == nil {
+		r.PackageFile = make(map[string]string)
+	}
 	for k, v := range other.PackageFile {
 		if _, ok := r.PackageFile[k]; !ok {
 			r.PackageFile[k] = v
-- 
2.43.0


From 7e6ca75bbaf26f7580b0cff2f10ad5849baaddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 03/28] fix: dependency graph: a dead-end child no longer hides
 a cycle

While looking for a path, the empty result of a child that does not lead to
the destination replaced a path already found through another child, so that
AddEdge accepted edges that close a cycle (depending on map order).
---
 internal/jobserver/common/graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/jobserver/common/graph.go b/internal/jobserver/common/graph.go
index fd65830..4c105c6 100644
--- a/internal/jobserver/common/graph.go
+++ b/internal/jobserver/common/graph.go
@@ -62,7 +62,7 @@ func (g *Graph) path(from string, to string) []string {
 		if child == to {
 			return []string{from, to}
 		}
-		if childPath := g.path(child, to); path == nil || len(childPath) < len(path) {
+		if childPath := g.path(child, to); childPath != nil && (path == nil || len(childPath) < len(path)) {
 			path = childPath
 		}
 	}
-- 
2.43.0


From 9cd57bb5067029dd66c873ade99ae2e8b78fde5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 04/28] fix: signature-contains: any one listed type is enough
 for a package to match

---
 internal/injector/aspect/join/function.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index ab9fd3c..14328a7 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -240,6 +240,24 @@ func SignatureContains(args []typed.TypeName, ret []typed.TypeName) FunctionOpti
 	return &signatureContains{signature{Arguments: args, Results: ret}}
 }
 
+// impliesImported returns nothing, as any one of the listed types is enough for a match; so none of their packages is
+// necessarily imported.
+func (*signatureContains) impliesImported() []string {
+	return nil
+}
+
+func (fo *signatureContains) packageMayMatch(ctx *may.PackageContext) may.MatchType {
+	// Any one of the listed types is enough for a match.
+	sum := may.NeverMatch
+	for _, candidate := range fo.Arguments {
+		sum = sum.Or(ctx.PackageImports(candidate.ImportPath))
+	}
+	for _, candidate := range fo.Results {
+		sum = sum.Or(ctx.PackageImports(candidate.ImportPath))
+	}
+	return sum
+}
+
 func (fo *signatureContains) Hash(h *fingerprint.Hasher) error {
 	return h.Named(
 		"signature-contains",
-- 
2.43.0


From 804b217846c784d5b9909dc5257662fbb68ac291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 05/28] fix: value-declaration: do not skip packages whose
 untyped declarations would match

---
 internal/injector/aspect/join/declaration.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/injector/aspect/join/declaration.go b/internal/injector/aspect/join/declaration.go
index 42ef9bb..53503b1 100644
--- a/internal/injector/aspect/join/declaration.go
+++ b/internal/injector/aspect/join/declaration.go
@@ -80,8 +80,9 @@ func ValueDeclaration(typeName typed.TypeName) *valueDeclaration {
 	return &valueDeclaration{typeName}
 }
 
-func (i *valueDeclaration) PackageMayMatch(ctx *may.PackageContext) may.MatchType {
-	return ctx.PackageImports(i.TypeName.ImportPath)
+func (*valueDeclaration) PackageMayMatch(_ *may.PackageContext) may.MatchType {
+	// Value declarations without an explicit type match whether or not the package imports that of the type.
+	return may.Unknown
 }
 
 func (*valueDeclaration) FileMayMatch(_ *may.FileContext) may.MatchType {
@@ -106,10 +107,8 @@ func (i *valueDeclaration) Matches(ctx context.AspectContext) bool {
 	return spec.Type == nil || i.TypeName.Matches(spec.Type)
 }
 
-func (i *valueDeclaration) ImpliesImported() []string {
-	if path := i.TypeName.ImportPath; path != "" {
-		return []string{path}
-	}
+func (*valueDeclaration) ImpliesImported() []string {
+	// Value declarations without an explicit type match whether or not the package imports that of the type.
 	return nil
 }
 
-- 
2.43.0


From 59c889c2b21d9a291e87cabf00a1a47e2fca23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 06/28] fix: the "unsafe" package is never listed in import
 maps

---
 internal/injector/aspect/may/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/injector/aspect/may/context.go b/internal/injector/aspect/may/context.go
index 3693e36..97e64c9 100644
--- a/internal/injector/aspect/may/context.go
+++ b/internal/injector/aspect/may/context.go
@@ -23,7 +23,8 @@ type PackageContext struct {
 }
 
 func (ctx *PackageContext) PackageImports(path string) MatchType {
-	if path == "" {
+	// The "unsafe" package has no archive, so it never appears in the import map.
+	if path == "" || path == "unsafe" {
 		return Unknown
 	}
 	_, ok := ctx.ImportMap[path]
-- 
2.43.0


From 8c4108ae0fcb1f54660afa5d7ba2139d9e267719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 07/28] fix: every file contains the empty string

---
 internal/injector/aspect/may/context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/injector/aspect/may/context.go b/internal/injector/aspect/may/context.go
index 97e64c9..46f58b3 100644
--- a/internal/injector/aspect/may/context.go
+++ b/internal/injector/aspect/may/context.go
@@ -48,6 +48,11 @@ type FileContext struct {
 }
 
 func (ctx *FileContext) FileContains(content string) MatchType {
+	if content == "" {
+		// The suffix array never finds the empty string, which every file contains.
+		return Match
+	}
+
 	ctx.once.Do(func() {
 		ctx.index = suffixarray.New(ctx.FileContent)
 	})
-- 
2.43.0


From 35c18d2173bbe9e9c968b685fce2ad3600026dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 08/28] fix: parent contexts keep the test-main flag, logger,
 and language level

---
 internal/injector/aspect/context/context.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/injector/aspect/context/context.go b/internal/injector/aspect/context/context.go
index be6aca8..3c35137 100644
--- a/internal/injector/aspect/context/context.go
+++ b/internal/injector/aspect/context/context.go
@@ -211,12 +211,16 @@ func (c *context) Parent() AspectContext {
 
 	p, _ := contextPool.Get().(*context)
 	*p = context{
-		NodeChain:  parent,
-		file:       c.file,
-		refMap:     c.refMap,
-		importPath: c.importPath,
-		typeInfo:   c.typeInfo,
-		nodeMap:    c.nodeMap,
+		log:          c.log,
+		NodeChain:    parent,
+		file:         c.file,
+		refMap:       c.refMap,
+		minGoLang:    c.minGoLang,
+		sourceParser: c.sourceParser,
+		importPath:   c.importPath,
+		testMain:     c.testMain,
+		typeInfo:     c.typeInfo,
+		nodeMap:      c.nodeMap,
 	}
 
 	return p
-- 
2.43.0


From d034c6786d1b4ebe8b07c99b4b285fe757711355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 09/28] fix: package-filter patterns with several ** in one
 segment

"**service**" was split once only, which left a "**" that no longer crossed
segments: the filter failed to select packages it describes.
---
 internal/injector/aspect/join/package.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/internal/injector/aspect/join/package.go b/internal/injector/aspect/join/package.go
index 9aeb8f4..61534e6 100644
--- a/internal/injector/aspect/join/package.go
+++ b/internal/injector/aspect/join/package.go
@@ -145,27 +145,18 @@ func expandSingleSegment(segment string) []string {
 		return []string{segment}
 	}
 
-	if prefix, found := strings.CutSuffix(segment, "**"); found && prefix != "" {
-		// Mixed segment like "service**", split it.
-		return []string{prefix + "*", "**"}
-	}
-
-	if suffix, found := strings.CutPrefix(segment, "**"); found && suffix != "" {
-		// Mixed segment like "**service", split it.
-		return []string{"**", "*" + suffix}
-	}
-
 	if strings.Contains(segment, "**") {
-		// Handle ** in the middle of a segment by splitting around it.
-		return expandMiddleGlobstar(segment)
+		// Mixed segment like "service**", "**service" or "**service**", split around it.
+		return expandMixedGlobstar(segment)
 	}
 
 	// Regular segment, keep as is.
 	return []string{segment}
 }
 
-// expandMiddleGlobstar handles segments with ** in the middle
-func expandMiddleGlobstar(segment string) []string {
+// expandMixedGlobstar handles segments with one or more ** next to other text.
+// For example, "**service**" becomes ["**", "*service*", "**"]
+func expandMixedGlobstar(segment string) []string {
 	var (
 		result []string
 		parts  = strings.Split(segment, "**")
-- 
2.43.0


From 8685b5fdf74d7704bf273a22d8079c9d1c440e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 10/28] fix: assign-value: decode the template

Decoding into a pointer to a pointer leaves it nil, so that any use of the
advice crashed.
---
 internal/injector/aspect/advice/assign.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/aspect/advice/assign.go b/internal/injector/aspect/advice/assign.go
index 1f8a39d..ac23bb7 100644
--- a/internal/injector/aspect/advice/assign.go
+++ b/internal/injector/aspect/advice/assign.go
@@ -56,10 +56,10 @@ func (a *assignValue) Hash(h *fingerprint.Hasher) error {
 
 func init() {
 	unmarshalers["assign-value"] = func(ctx gocontext.Context, node ast.Node) (Advice, error) {
-		var template *code.Template
+		var template code.Template
 		if err := yaml.NodeToValueContext(ctx, node, &template); err != nil {
 			return nil, err
 		}
-		return AssignValue(template), nil
+		return AssignValue(&template), nil
 	}
 }
-- 
2.43.0


From 4ad66e82e2525752c1ff1dbd5b738346eb083685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 11/28] fix: line directives of a parenthesized declaration
 stay on its single item

They were moved to the declaration when it is rendered with parentheses, which
is where it starts one line above the item, instead of when it is rendered
without.
---
 internal/injector/lineinfo/annotation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/lineinfo/annotation.go b/internal/injector/lineinfo/annotation.go
index 234e6f5..71c8b3a 100644
--- a/internal/injector/lineinfo/annotation.go
+++ b/internal/injector/lineinfo/annotation.go
@@ -48,7 +48,7 @@ func (v *annotationVisitor) Visit(node ast.Node) ast.Visitor {
 			// If this is a [*dst.GenDecl] with a single item that's rendered without parentheses, we
 			// hoist decorations from the single item to the [*dst.GenDecl] itself, as it'll render
 			// better.
-			if node.Lparen && len(node.Specs) == 1 {
+			if !node.Lparen && len(node.Specs) == 1 {
 				specDeco := node.Specs[0].Decorations()
 				node.Decs.Start = append(node.Decs.Start, specDeco.Start...)
 				specDeco.Start.Clear()
-- 
2.43.0


From 523a1b55efeda0141eec7782e365eabccc77278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 12/28] fix: a first line like "//line 12" no longer crashes
 the parser

---
 internal/injector/parse/mappedfilename.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/parse/mappedfilename.go b/internal/injector/parse/mappedfilename.go
index 29e9af5..15279be 100644
--- a/internal/injector/parse/mappedfilename.go
+++ b/internal/injector/parse/mappedfilename.go
@@ -84,14 +84,14 @@ func cutPositionSuffix(buf []byte) ([]byte, int, bool) {
 	// First, consume the integer at the end of the buffer.
 	pos := 0
 	pow := 1
-	for buf[cutOff] >= '0' && buf[cutOff] <= '9' {
+	for cutOff >= 0 && buf[cutOff] >= '0' && buf[cutOff] <= '9' {
 		pos += pow * int(buf[cutOff]-'0')
 		pow *= 10
 		cutOff--
 	}
 
 	// If there's no ":" before the integer, or there was no digit at all, it was not a position...
-	if buf[cutOff] != ':' || pow == 1 {
+	if cutOff < 0 || buf[cutOff] != ':' || pow == 1 {
 		return buf, 0, false
 	}
 
-- 
2.43.0


From 19585256688ddb6b227c459a919bc65a3d2d6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 13/28] fix: only move actual //line directives to the first
 column

Raw string literals with text that looks like an indented directive were
modified.
---
 internal/injector/postprocess.go | 47 ++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/internal/injector/postprocess.go b/internal/injector/postprocess.go
index 24138b7..077ddb9 100644
--- a/internal/injector/postprocess.go
+++ b/internal/injector/postprocess.go
@@ -7,36 +7,41 @@ package injector
 
 import (
 	"bytes"
+	"go/scanner"
+	"go/token"
+	"strings"
 )
 
-var lineDirectivePrefix = []byte("//line ")
+const lineDirectivePrefix = "//line "
 
 // postProcess modifies the provided source text to remove leading white space ahead of //line directives, as they are
-// otherwise ignored by the compiler (directives must begin at the first column of a line). It modifies the input slice
-// to avoid re-allocating (since the output is guaranteed to be the same size or smaller than the input).
+// otherwise ignored by the compiler (directives must begin at the first column of a line). Text that merely looks like
+// a directive, such as in raw string literals, is left alone.
 func postProcess(src []byte) []byte {
-	for i := 0; i < len(src); {
-		slice := src[i:]
+	file := token.NewFileSet().AddFile("", -1, len(src))
+	var scan scanner.Scanner
+	scan.Init(file, src, nil, scanner.ScanComments)
 
-		trimmed := bytes.TrimLeft(slice, " \t")
-		trimmedLen := len(trimmed)
-		if trimmedLen != len(slice) && bytes.HasPrefix(trimmed, lineDirectivePrefix) {
-			// This line has a line directive with leading white space. We need to remove that whilte space, otherwise the
-			// directive will be ignored by the compiler. To do so we move the source data left by the padding amount, and
-			// then truncate the source slice to its new length.
-			newEnd := i + trimmedLen
-			copy(src[i:newEnd], trimmed)
-			src = src[:newEnd]
+	res := make([]byte, 0, len(src))
+	last := 0 // Offset of the first byte of src that is not in res yet.
+	for {
+		pos, tok, lit := scan.Scan()
+		if tok == token.EOF {
+			break
+		}
+		if tok != token.COMMENT || !strings.HasPrefix(lit, lineDirectivePrefix) {
+			continue
 		}
 
-		// Advance to the next line
-		lf := bytes.IndexByte(src[i:], '\n')
-		if lf < 0 {
-			// This was the last line: we can break out.
-			break
+		offset := file.Offset(pos)
+		before := src[last:offset]
+		if trimmed := bytes.TrimRight(before, " \t"); len(trimmed) == 0 || trimmed[len(trimmed)-1] == '\n' {
+			// There is nothing but white space ahead of the directive on its line.
+			before = trimmed
 		}
-		i += lf + 1
+		res = append(res, before...)
+		last = offset
 	}
 
-	return src
+	return append(res, src[last:]...)
 }
-- 
2.43.0


From 62d949432c9931b60413db424c52dbc03520fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 14/28] fix: imports are not merged under a name that means
 something else in the file

---
 internal/injector/imports.go | 51 +++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/internal/injector/imports.go b/internal/injector/imports.go
index 00b1b22..56b6dd6 100644
--- a/internal/injector/imports.go
+++ b/internal/injector/imports.go
@@ -39,10 +39,15 @@ func (i *Injector) packageFilterAspects(aspects []*aspect.Aspect) []*aspect.Aspe
 // resulting in invalid output source code.
 //
 // To do so, it modifies the AST file so that it only includes a single import per path, using the
-// first non-empty alias found.
+// first non-empty alias found that does not have another meaning elsewhere in the file.
 func canonicalizeImports(ctx context.Context, file *dst.File) {
 	specsByPath := importSpecsByImportPath(ctx, file.Imports)
 
+	names, references := identifiers(file)
+	for path, specs := range specsByPath {
+		specsByPath[path] = withoutShadowed(specs, names, references[path])
+	}
+
 	retain := filterExtraneousImports(specsByPath)
 
 	file.Imports = file.Imports[:0] // Re-use the backing store, we'll keep <= what was there.
@@ -70,6 +75,50 @@ func importSpecsByImportPath(ctx context.Context, imports []*dst.ImportSpec) map
 	return byPath
 }
 
+// identifiers returns the unqualified identifiers used outside of the imports of the file, as well as
+// those that are references to imported packages, by import path.
+func identifiers(file *dst.File) (names map[string]struct{}, references map[string][]string) {
+	names = make(map[string]struct{})
+	references = make(map[string][]string)
+
+	dst.Inspect(file, func(node dst.Node) bool {
+		switch node := node.(type) {
+		case *dst.ImportSpec:
+			return false
+		case *dst.Ident:
+			if node.Path == "" {
+				names[node.Name] = struct{}{}
+			} else {
+				references[node.Path] = append(references[node.Path], node.Name)
+			}
+		}
+		return true
+	})
+
+	return names, references
+}
+
+// withoutShadowed removes imports of a package under a name that is also used for something else in
+// the file, provided the package is imported under another, explicit name, too.
+func withoutShadowed(specs []*dst.ImportSpec, names map[string]struct{}, references []string) []*dst.ImportSpec {
+	shadowed := func(spec *dst.ImportSpec) bool {
+		if spec.Name == nil {
+			return false
+		}
+		if spec.Name.Name == "." {
+			return slices.ContainsFunc(references, func(name string) bool { _, found := names[name]; return found })
+		}
+		_, found := names[spec.Name.Name]
+		return found && spec.Name.Name != "_"
+	}
+
+	result := slices.DeleteFunc(slices.Clone(specs), shadowed)
+	if !slices.ContainsFunc(result, func(spec *dst.ImportSpec) bool { return spec.Name != nil && spec.Name.Name != "_" }) {
+		return specs
+	}
+	return result
+}
+
 func filterExtraneousImports(byPath map[string][]*dst.ImportSpec) map[*dst.ImportSpec]struct{} {
 	result := make(map[*dst.ImportSpec]struct{}, len(byPath))
 
-- 
2.43.0


From abfa36679fb7a1ffb7815b6ec0e508c19a43643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 15/28] fix: parameters of function literals may hide an import
 from injected code

---
 internal/injector/typed/refmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/injector/typed/refmap.go b/internal/injector/typed/refmap.go
index 3f80c10..79d2456 100644
--- a/internal/injector/typed/refmap.go
+++ b/internal/injector/typed/refmap.go
@@ -82,9 +82,13 @@ func (r *ReferenceMap) isImportInScope(nodes []dst.Node, path string, name strin
 	)
 	for i := 0; i < len(nodes) && scope == nil; i++ {
 		node := nodes[i]
-		if funcDecl, ok := node.(*dst.FuncDecl); ok {
+		switch fn := node.(type) {
+		case *dst.FuncDecl:
 			// Somehow scopes are not attached to FuncDecl nodes, so we need to look at the type ¯\_(シ)_/¯
-			node = funcDecl.Type
+			node = fn.Type
+		case *dst.FuncLit:
+			// Same as above
+			node = fn.Type
 		}
 
 		astNode, ok := r.nodeMap[node]
-- 
2.43.0


From 05597a531117220561a3279667d5059bdecbbe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 16/28] fix: an import with no usable name among several gets a
 new one

---
 internal/injector/imports.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/injector/imports.go b/internal/injector/imports.go
index 56b6dd6..cc3a6c9 100644
--- a/internal/injector/imports.go
+++ b/internal/injector/imports.go
@@ -99,7 +99,8 @@ func identifiers(file *dst.File) (names map[string]struct{}, references map[stri
 }
 
 // withoutShadowed removes imports of a package under a name that is also used for something else in
-// the file, provided the package is imported under another, explicit name, too.
+// the file, if the package is imported several times. If there is no other explicit name, one of the
+// imports gets a new name.
 func withoutShadowed(specs []*dst.ImportSpec, names map[string]struct{}, references []string) []*dst.ImportSpec {
 	shadowed := func(spec *dst.ImportSpec) bool {
 		if spec.Name == nil {
@@ -112,11 +113,24 @@ func withoutShadowed(specs []*dst.ImportSpec, names map[string]struct{}, referen
 		return found && spec.Name.Name != "_"
 	}
 
-	result := slices.DeleteFunc(slices.Clone(specs), shadowed)
-	if !slices.ContainsFunc(result, func(spec *dst.ImportSpec) bool { return spec.Name != nil && spec.Name.Name != "_" }) {
+	named := func(spec *dst.ImportSpec) bool { return spec.Name != nil && spec.Name.Name != "_" }
+
+	if len(specs) == 1 {
 		return specs
 	}
-	return result
+
+	result := slices.DeleteFunc(slices.Clone(specs), shadowed)
+	if len(result) == len(specs) || slices.ContainsFunc(result, named) {
+		return result
+	}
+
+	idx := slices.IndexFunc(specs, shadowed)
+	if name := specs[idx].Name; name.Name == "." {
+		name.Name = "__orchestrion_import"
+	} else {
+		name.Name = "__orchestrion_" + name.Name
+	}
+	return specs[idx : idx+1]
 }
 
 func filterExtraneousImports(byPath map[string][]*dst.ImportSpec) map[*dst.ImportSpec]struct{} {
-- 
2.43.0


From 88784ed73a42ed11a306077b02237e472a7e0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 17/28] fix: incomplete go command lines are left to the go
 command to report

---
 internal/goflags/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index cf28d54..32e6c1b 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -142,7 +142,7 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 				// ["-C", "directory", ...]
 				log.Trace().Strs("flag", args[:2]).Msg("Skipping '-C <dir>' flag")
 				args = args[2:]
-			} else if arg[:3] == "-C=" {
+			} else if strings.HasPrefix(arg, "-C=") {
 				// ["-C=directory", ...]
 				log.Trace().Str("flag", arg).Msg("Skipping '-C=<dir>' flag")
 				args = args[1:]
@@ -191,7 +191,7 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 				// Intentionally the un-normalized variant in Unknown flags.
 				flags.Unknown = append(flags.Unknown, arg)
 			}
-		} else if isLong(normArg) {
+		} else if isLong(normArg) && i+1 < len(args) {
 			flags.Long[normArg] = args[i+1]
 			i++
 		} else if isShort(normArg) {
-- 
2.43.0


From ec712650b50414c3fff0c4e864a566192da608da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 18/28] fix: tell build flags of the go command from arguments
 of the program and from values

---
 internal/goflags/flags.go | 46 +++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index 32e6c1b..756fa24 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -18,6 +18,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"slices"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -66,6 +67,13 @@ var (
 		"-tags":          {}, // Set build tags
 		"-toolexec":      {}, // Set the command to run around tool execution
 	}
+	// boolFlags are flags that never use the next argument as their value, other than the shortFlags.
+	boolFlags = map[string]struct{}{
+		"-artifacts": {}, "-benchmem": {}, "-buildvcs": {}, "-c": {}, "-cache": {}, "-compiled": {}, "-deps": {}, "-e": {},
+		"-export": {}, "-failfast": {}, "-find": {}, "-fullpath": {}, "-fuzzcache": {}, "-i": {}, "-json": {}, "-m": {},
+		"-modcache": {}, "-n": {}, "-r": {}, "-retracted": {}, "-short": {}, "-t": {}, "-test": {}, "-testcache": {},
+		"-tool": {}, "-u": {}, "-v": {}, "-versions": {}, "-x": {},
+	}
 )
 
 // Get returns the value of the specified long-form flag if present. The name is
@@ -152,9 +160,10 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 
 	// The next argument after a `-C` (if present) would be the go command name ("run", "test", "list", etc...). This is
 	// not interesting for our purposes, so we skip it.
+	var command string
 	if len(args) > 0 {
 		log.Trace().Str("command", args[0]).Msg("Go command from arguments")
-		args = args[1:]
+		command, args = args[0], args[1:]
 	}
 
 	// Compose the complete list of arguments: those from GOFLAGS, and the rest of the command line so far; in this order
@@ -172,8 +181,15 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 		}
 
 		// Any argument without a leading "-" is a positional argument (until proven otherwise).
-		if !strings.HasPrefix(arg, "-") {
+		if !strings.HasPrefix(arg, "-") || arg == "-" {
 			positional = append(positional, arg)
+			if command == "run" || command == "tool" {
+				// What follows the program to run (a package, or the list of its files) are its own arguments.
+				for i++; strings.HasSuffix(arg, ".go") && i < len(args) && strings.HasSuffix(args[i], ".go"); i++ {
+					positional = append(positional, args[i])
+				}
+				break
+			}
 			continue
 		}
 
@@ -184,24 +200,41 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 			normArg = arg[1:]
 		}
 
+		// What follows "-args" are the arguments of the test binary.
+		if normArg == "-args" && command == "test" {
+			break
+		}
+
 		if key, val, isAssigned := strings.Cut(normArg, "="); isAssigned {
 			if isLong(key) {
 				flags.Long[key] = val
+			} else if isShort(key) {
+				if enabled, err := strconv.ParseBool(val); err == nil && !enabled {
+					// Retain this explicitly, as it may override a value from GOFLAGS.
+					delete(flags.Short, key)
+					flags.Long[key] = "false"
+				} else {
+					flags.Short[key] = struct{}{}
+					delete(flags.Long, key)
+				}
 			} else {
 				// Intentionally the un-normalized variant in Unknown flags.
 				flags.Unknown = append(flags.Unknown, arg)
 			}
+		} else if isLong(normArg) && isBool(normArg) {
+			flags.Long[normArg] = "true"
 		} else if isLong(normArg) && i+1 < len(args) {
 			flags.Long[normArg] = args[i+1]
 			i++
 		} else if isShort(normArg) {
 			flags.Short[normArg] = struct{}{}
+			delete(flags.Long, normArg)
 		} else {
 			// Intentionally the un-normalized variant in Unknown flags.
 			flags.Unknown = append(flags.Unknown, arg)
 			// If there's more args, and the next one does not have a leading -, we'll assume this is the value of this
-			// unknown flag and consume it.
-			if len(args) > i+1 && !strings.HasPrefix(args[i+1], "-") {
+			// unknown flag and consume it, unless it is known not to have one.
+			if !isBool(normArg) && len(args) > i+1 && !strings.HasPrefix(args[i+1], "-") {
 				flags.Unknown = append(flags.Unknown, args[i+1])
 				i++
 			}
@@ -365,6 +398,11 @@ func isShort(str string) bool {
 	return ok
 }
 
+func isBool(str string) bool {
+	_, ok := boolFlags[str]
+	return ok
+}
+
 // parentGoCommandFlags backtracks through the process tree
 // to find a parent go command invocation and returns its arguments
 func parentGoCommandFlags(ctx context.Context, pid int) (flags CommandFlags, err error) {
-- 
2.43.0


From 2e277e401fa332ac289bccd298693628f5dc90c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 19/28] fix: -C may also follow the name of the go command, or
 be spelled --C

---
 internal/goflags/flags.go |  6 +++++-
 internal/goproxy/dashc.go | 35 +++++++++++++++++++++++------------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index 756fa24..47e3f4b 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -145,7 +145,11 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 	// Remove any `-C` flag provided on the command line. This is required to immediately follow the `go` command, and
 	// can be present only once.
 	if len(args) > 0 {
-		if arg := args[0]; strings.HasPrefix(arg, "-C") {
+		arg := args[0]
+		if strings.HasPrefix(arg, "--") {
+			arg = arg[1:]
+		}
+		if strings.HasPrefix(arg, "-C") {
 			if arg == "-C" && len(args) > 1 {
 				// ["-C", "directory", ...]
 				log.Trace().Strs("flag", args[:2]).Msg("Skipping '-C <dir>' flag")
diff --git a/internal/goproxy/dashc.go b/internal/goproxy/dashc.go
index 9e1eb7d..5be4207 100644
--- a/internal/goproxy/dashc.go
+++ b/internal/goproxy/dashc.go
@@ -8,16 +8,17 @@ package goproxy
 import (
 	"context"
 	"os"
+	"slices"
 	"strings"
 
 	"github.com/rs/zerolog"
 )
 
 // processDashC gets the command line arguments passed to a "go" command (without "go" itself), and processes the "-C"
-// flag present at the beginning of the slice (if present), changing directories as requested, then returns the slice
-// without it.
+// flag present at the beginning of the slice, or right after the command's name (if present), changing directories as
+// requested, then returns the slice without it.
 //
-// The "-C" flags is required to be the very first argument provided to "go" commands.
+// The "-C" flags is required to be the very first flag provided to "go" commands.
 func processDashC(ctx context.Context, args []string) ([]string, error) {
 	if len(args) == 0 {
 		return nil, nil
@@ -25,24 +26,34 @@ func processDashC(ctx context.Context, args []string) ([]string, error) {
 
 	log := zerolog.Ctx(ctx)
 
-	arg0 := args[0]
-	if !strings.HasPrefix(arg0, "-C") {
+	idx := 0
+	if !strings.HasPrefix(args[0], "-") && len(args) > 1 {
+		// This is the name of the command, the flag can be the next argument.
+		idx = 1
+	}
+
+	flag := args[idx]
+	if strings.HasPrefix(flag, "--") {
+		// The Go CLI accepts flags with two hyphens instead of one.
+		flag = flag[1:]
+	}
+	if !strings.HasPrefix(flag, "-C") {
 		return args, nil
 	}
 
-	if arg0 == "-C" && len(args) > 1 {
+	if flag == "-C" && len(args) > idx+1 {
 		// ["-C", "directory", ...]
-		log.Trace().Str("-C", args[1]).Msg("Found '-C <path>' flag, changing directory")
-		return args[2:], os.Chdir(args[1])
+		log.Trace().Str("-C", args[idx+1]).Msg("Found '-C <path>' flag, changing directory")
+		return slices.Concat(args[:idx], args[idx+2:]), os.Chdir(args[idx+1])
 	}
 
-	if !strings.HasPrefix(arg0, "-C=") {
+	if !strings.HasPrefix(flag, "-C=") {
 		// Probably not the flag we're looking for... ignoring that...
-		log.Trace().Str("flag", arg0).Msg("Ignoring unknown flag with -C prefix")
+		log.Trace().Str("flag", args[idx]).Msg("Ignoring unknown flag with -C prefix")
 		return args, nil
 	}
 
 	// ["-C=directory", ...]
-	log.Trace().Str("-C", arg0[3:]).Msg("Found '-C=<path>' flag, changing directory")
-	return args[1:], os.Chdir(arg0[3:])
+	log.Trace().Str("-C", flag[3:]).Msg("Found '-C=<path>' flag, changing directory")
+	return slices.Concat(args[:idx], args[idx+1:]), os.Chdir(flag[3:])
 }
-- 
2.43.0


From afa3a6576411f521b4e953351e4357364cef75a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 20/28] fix: load the built-in configuration once

---
 internal/injector/config/config-go.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/injector/config/config-go.go b/internal/injector/config/config-go.go
index 537771f..223ff03 100644
--- a/internal/injector/config/config-go.go
+++ b/internal/injector/config/config-go.go
@@ -31,6 +31,9 @@ func (l *Loader) loadGoPackage(ctx context.Context, pkg *packages.Package) (_ *c
 	// Special-case the `github.com/DataDog/orchestrion` package, we need not
 	// parse this one, and should always use the built-in object.
 	if pkg.PkgPath == builtIn.pkgPath {
+		if !l.markLoaded(pkg.PkgPath) {
+			return nil, nil
+		}
 		return &builtIn, nil
 	}
 
-- 
2.43.0


From be63caefc8e0e8bf789140127b03daece52bbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 21/28] fix: a tool file without imports does not load the
 package in the current directory

---
 internal/injector/config/config-go.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/injector/config/config-go.go b/internal/injector/config/config-go.go
index 223ff03..f31e4fc 100644
--- a/internal/injector/config/config-go.go
+++ b/internal/injector/config/config-go.go
@@ -116,6 +116,11 @@ func (l *Loader) loadGoFile(ctx context.Context, filename string) (_ []Config, e
 		imports = append(imports, path)
 	}
 
+	if len(imports) == 0 {
+		// Nothing to load (without any pattern, the package in the current directory would be loaded).
+		return nil, nil
+	}
+
 	pkgs, err := l.packages(ctx, imports...)
 	if err != nil {
 		return nil, fmt.Errorf("imports from %q (%q): %w", filename, imports, err)
-- 
2.43.0


From 0dac1251cab735ff7f4fa953679316825fcd7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 22/28] fix: report packages that cannot be listed instead of
 dropping configuration

---
 internal/injector/config/config-go.go  | 2 +-
 internal/injector/config/config-yml.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/config/config-go.go b/internal/injector/config/config-go.go
index f31e4fc..9e0895d 100644
--- a/internal/injector/config/config-go.go
+++ b/internal/injector/config/config-go.go
@@ -123,7 +123,7 @@ func (l *Loader) loadGoFile(ctx context.Context, filename string) (_ []Config, e
 
 	pkgs, err := l.packages(ctx, imports...)
 	if err != nil {
-		return nil, fmt.Errorf("imports from %q (%q): %w", filename, imports, err)
+		return nil, fmt.Errorf("imports from %q (%q): %w", filename, imports, maskErrNotExist(err))
 	}
 
 	cfgs := make([]Config, 0, len(pkgs))
diff --git a/internal/injector/config/config-yml.go b/internal/injector/config/config-yml.go
index 80fe569..b8a8c48 100644
--- a/internal/injector/config/config-yml.go
+++ b/internal/injector/config/config-yml.go
@@ -58,7 +58,7 @@ func (l *Loader) loadYMLFile(ctx context.Context, dir string, name string) (_ *c
 		} else if stat.IsDir() {
 			pkgs, err := l.packages(ctx, extFilename)
 			if err != nil {
-				return nil, fmt.Errorf("extends %q: %w", ext, err)
+				return nil, fmt.Errorf("extends %q: %w", ext, maskErrNotExist(err))
 			}
 			if len(pkgs) != 1 {
 				// This is not supposed to happen if `err == nil`.
-- 
2.43.0


From 67c0ca56fa45b51c6a3fe582ad545d9ad87982f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 23/28] fix: compare signatures parameter by parameter

---
 internal/injector/aspect/join/function.go | 37 +++++++++--------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index 14328a7..4e84372 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -191,35 +191,26 @@ func (fo *signature) impliesImported() (list []string) {
 }
 
 func (fo *signature) evaluate(info functionInformation) bool {
-	if info.Type.Results == nil || len(info.Type.Results.List) == 0 {
-		if len(fo.Results) != 0 {
-			return false
-		}
-	} else if len(info.Type.Results.List) != len(fo.Results) {
-		return false
-	} else {
-		for i := 0; i < len(fo.Results); i++ {
-			if !fo.Results[i].Matches(info.Type.Results.List[i].Type) {
-				return false
-			}
-		}
+	return typesMatch(fo.Results, info.Type.Results) && typesMatch(fo.Arguments, info.Type.Params)
+}
+
+// typesMatch checks that the field list consists of exactly the expected types, in order.
+func typesMatch(expectedTypes []typed.TypeName, fieldList *dst.FieldList) bool {
+	if fieldList == nil {
+		return len(expectedTypes) == 0
 	}
 
-	if info.Type.Params == nil || len(info.Type.Params.List) == 0 {
-		if len(fo.Arguments) != 0 {
-			return false
-		}
-	} else if len(info.Type.Params.List) != len(fo.Arguments) {
-		return false
-	} else {
-		for i := 0; i < len(fo.Arguments); i++ {
-			if !fo.Arguments[i].Matches(info.Type.Params.List[i].Type) {
+	idx := 0
+	for _, field := range fieldList.List {
+		// The names in a field all have its type; and a field without a name is one item.
+		for range max(1, len(field.Names)) {
+			if idx >= len(expectedTypes) || !expectedTypes[idx].Matches(field.Type) {
 				return false
 			}
+			idx++
 		}
 	}
-
-	return true
+	return idx == len(expectedTypes)
 }
 
 func (fo *signature) Hash(h *fingerprint.Hasher) error {
-- 
2.43.0


From 111d38c15c223321e5d79eb419389a64a8249aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 24/28] fix: count results that share their type

---
 internal/injector/aspect/advice/code/dot_function.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/injector/aspect/advice/code/dot_function.go b/internal/injector/aspect/advice/code/dot_function.go
index 395976f..6fdd4ab 100644
--- a/internal/injector/aspect/advice/code/dot_function.go
+++ b/internal/injector/aspect/advice/code/dot_function.go
@@ -182,15 +182,15 @@ func (s signature) LastResultThatImplements(name string) (string, error) {
 	if tn, err := typed.NewTypeName(name); err == nil {
 		currentIndex := 0
 		for _, field := range s.Results.List {
-			if tn.Matches(field.Type) {
-				lastMatchIndex = currentIndex // Update last found index
-			}
 			// Increment index by the number of names in the field (or 1 if unnamed).
 			count := len(field.Names)
 			if count == 0 {
 				count = 1
 			}
 			currentIndex += count
+			if tn.Matches(field.Type) {
+				lastMatchIndex = currentIndex - 1 // Update last found index
+			}
 		}
 	}
 	// If we found a match via TypeName, return it.
@@ -210,12 +210,12 @@ func (s signature) LastResultThatImplements(name string) (string, error) {
 	fieldIndices := make(map[*dst.Field]int)
 	index := 0
 	for _, field := range s.Results.List {
-		fieldIndices[field] = index
 		count := len(field.Names)
 		if count == 0 {
 			count = 1
 		}
 		index += count
+		fieldIndices[field] = index - 1 // The last item of the field
 	}
 
 	for i := len(s.Results.List) - 1; i >= 0; i-- {
@@ -235,6 +235,10 @@ func fieldAt(fields *dst.FieldList, index int, use string) (string, error) {
 		return "", fmt.Errorf("index out of bounds: %d (empty set)", index)
 	}
 
+	if index < 0 {
+		return "", fmt.Errorf("index out of bounds: %d", index)
+	}
+
 	idx := 0
 	anonymous := false
 	name := ""
-- 
2.43.0


From 3ad291d5f6036c4dcffa8f30742d41b91a28f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 25/28] fix: tell pointers to any from interface{}

---
 internal/injector/typed/typename.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/typed/typename.go b/internal/injector/typed/typename.go
index 2a83829..0178294 100644
--- a/internal/injector/typed/typename.go
+++ b/internal/injector/typed/typename.go
@@ -97,10 +97,10 @@ func (n TypeName) Matches(node dst.Expr) bool {
 
 	case *dst.InterfaceType:
 		// We only match the empty interface (as "any")
-		if len(node.Methods.List) != 0 {
+		if node.Methods != nil && len(node.Methods.List) != 0 {
 			return false
 		}
-		return n.ImportPath == "" && n.Name == "any"
+		return !n.Pointer && n.ImportPath == "" && n.Name == "any"
 
 	default:
 		return false
-- 
2.43.0


From d1c70d341b92bf3ee6c038b798417eefae44e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 26/28] fix: a directive argument that is a single quote does
 not panic

---
 internal/injector/aspect/advice/code/dot_directive.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/injector/aspect/advice/code/dot_directive.go b/internal/injector/aspect/advice/code/dot_directive.go
index fb8ec10..004133a 100644
--- a/internal/injector/aspect/advice/code/dot_directive.go
+++ b/internal/injector/aspect/advice/code/dot_directive.go
@@ -63,8 +63,9 @@ func parseDirectiveArgs(prefix string, comment string) ([]DirectiveArgument, boo
 	for scanner.Scan() {
 		part := scanner.Text()
 		if key, value, ok := strings.Cut(part, ":"); ok {
-			if (strings.HasPrefix(value, `"`) && strings.HasSuffix(value, `"`)) ||
-				(strings.HasPrefix(value, `'`) && strings.HasSuffix(value, `'`)) {
+			if len(value) >= 2 &&
+				((strings.HasPrefix(value, `"`) && strings.HasSuffix(value, `"`)) ||
+					(strings.HasPrefix(value, `'`) && strings.HasSuffix(value, `'`))) {
 				value = value[1 : len(value)-1]
 			}
 			res = append(res, DirectiveArgument{Key: key, Value: value})
-- 
2.43.0


From d38d0c3d2ae02d8257825400c84e405c9e89c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 27/28] fix: write the tool file after imports are pruned

---
 internal/pin/pin.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index fb127f3..5b21e8b 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -147,6 +147,11 @@ func PinOrchestrion(ctx context.Context, opts Options) error {
 		return fmt.Errorf("pruning imports from %q: %w", toolFile, err)
 	}
 
+	// Pruning changes imports, and their comments.
+	if err := writeUpdated(toolFile, dstFile); err != nil {
+		return fmt.Errorf("updating %q: %w", toolFile, err)
+	}
+
 	if pruned {
 		// Run "go mod tidy" to ensure the `go.mod` file is up-to-date with detected dependencies.
 		if err := gomod.Run(ctx, "tidy", goMod, nil); err != nil {
-- 
2.43.0


From a717dd5e56058237d76538c4d99b329ec341e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 28/28] fix: removing the directive at the start of the tool
 file does not panic

---
 internal/pin/pin.go | 47 +++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index 5b21e8b..17c50b2 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -259,20 +259,10 @@ func updateGoGenerateDirective(opts Options, file *dst.File) {
 			switch node := node.(type) {
 			case *dst.File, dst.Decl:
 				decs := node.Decorations()
-				for i, dec := range decs.Start {
-					if dec != prefix && !strings.HasPrefix(dec, prefix+" ") {
-						continue
-					}
-					found = true
-					decs.Start[i] = newDirective
-				}
-				for i, dec := range decs.End {
-					if dec != prefix && !strings.HasPrefix(dec, prefix+" ") {
-						continue
-					}
-					found = true
-					decs.End[i] = newDirective
-				}
+				var inStart, inEnd bool
+				decs.Start, inStart = replaceDirective(decs.Start, prefix, newDirective)
+				decs.End, inEnd = replaceDirective(decs.End, prefix, newDirective)
+				found = found || inStart || inEnd
 				return true
 			default:
 				return false
@@ -288,6 +278,35 @@ func updateGoGenerateDirective(opts Options, file *dst.File) {
 	file.Decs.Start.Append("\n", newDirective, "\n")
 }
 
+// replaceDirective replaces the directives made of the given prefix, and possibly
+// flags, with the new one; or removes them if the new one is blank. It returns
+// the updated decorations, and whether there was any such directive.
+func replaceDirective(decs dst.Decorations, prefix string, newDirective string) (dst.Decorations, bool) {
+	found := false
+	removed := false
+	result := make(dst.Decorations, 0, len(decs))
+	for _, dec := range decs {
+		if dec == prefix || strings.HasPrefix(dec, prefix+" ") {
+			found = true
+			removed = newDirective == ""
+			if !removed {
+				result = append(result, newDirective)
+			}
+			continue
+		}
+		if removed && dec == "\n" && (len(result) == 0 || result[len(result)-1] == "\n") {
+			// The blank line after the removed directive is not needed any more.
+			continue
+		}
+		removed = false
+		result = append(result, dec)
+	}
+	if !found {
+		return decs, false
+	}
+	return result, true
+}
+
 // pruneImports removes unnecessary or invalid imports from the provided
 // [*importSet]; unless the [*Options.NoPrune] field is true, in which case it
 // only outputs a message informing the user about uncalled-for imports.
-- 
2.43.0

