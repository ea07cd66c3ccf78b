From 3e1474f85855890987c9072b71d6eca1d31c38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 01/55] fix: do not modify CSV cell parsers after they are
 shared between goroutines

---
 csvcoder/csvcoder_cell.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/csvcoder/csvcoder_cell.go b/csvcoder/csvcoder_cell.go
index 1b15a1e..a2591ec 100644
--- a/csvcoder/csvcoder_cell.go
+++ b/csvcoder/csvcoder_cell.go
@@ -89,17 +89,18 @@ func getOrCreateCellParserForType(t reflect.Type) (cellParser, error) {
 	defaultRegistryMapMutex.RLock()
 	parser := defaultRegistry.cellParsers[t]
 	defaultRegistryMapMutex.RUnlock()
-	if parser == nil {
-		parser = &registeredCellParser{}
-		defaultRegistryMapMutex.Lock()
-		defaultRegistry.cellParsers[t] = parser
-		defaultRegistryMapMutex.Unlock()
-	}
-	if parser.impl != nil {
+
+	if parser != nil && parser.impl != nil {
 		return parser, nil
 	}
+
+	// A parser is complete before it is shared with other goroutines and is
+	// not modified afterwards.
 	if dec := textcoder.DefaultRegistry().GetDecoder(t.Elem()); dec != nil {
-		parser.decoder = dec
+		parser = &registeredCellParser{decoder: dec}
+		defaultRegistryMapMutex.Lock()
+		defaultRegistry.cellParsers[t] = parser
+		defaultRegistryMapMutex.Unlock()
 		return parser, nil
 	}
 
-- 
2.43.0


From 353e02106d483a1cfe796fb64d670baf9df4b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 02/55] fix: lock the CSV row registry and order its types when
 reporting an unregistered type

---
 csvcoder/csvcoder_row.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/csvcoder/csvcoder_row.go b/csvcoder/csvcoder_row.go
index f7b1ba9..f0f3959 100644
--- a/csvcoder/csvcoder_row.go
+++ b/csvcoder/csvcoder_row.go
@@ -37,6 +37,7 @@ package csvcoder
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 	"sync"
 )
@@ -235,9 +236,14 @@ func getRegisteredTypeOrErr(t reflect.Type) (*registeredType, error) {
 	rt := getRegisteredType(t)
 	if rt == nil {
 		var typeStrings []string
-		for _, rt := range defaultRegistry.registeredRowTypes {
-			typeStrings = append(typeStrings, fmt.Sprintf("%v", rt))
-		}
+		func() {
+			defaultRegistry.registeredRowTypesLock.RLock()
+			defer defaultRegistry.registeredRowTypesLock.RUnlock()
+			for registered := range defaultRegistry.registeredRowTypes {
+				typeStrings = append(typeStrings, fmt.Sprintf("%v", registered))
+			}
+		}()
+		sort.Strings(typeStrings)
 		return nil, fmt.Errorf("no CSV row parser registered for type %v; registered types: [%s]", t, strings.Join(typeStrings, ", "))
 	}
 	return rt, nil
-- 
2.43.0


From 90796d654451d242ea35d2f52cfe8df656f88b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 03/55] fix: report rows the record inferrer refuses instead of
 dropping them

---
 csvinfer/csvinfer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csvinfer/csvinfer.go b/csvinfer/csvinfer.go
index e037be9..9907d48 100644
--- a/csvinfer/csvinfer.go
+++ b/csvinfer/csvinfer.go
@@ -37,7 +37,9 @@ func InferProto(csvLines string, opts *recordinfer.Options) (*recordinfer.Inferr
 	b := recordinfer.NewRecordBasedInferrer(opts)
 
 	for _, row := range rows {
-		b.AddRow(row)
+		if err := b.AddRow(row); err != nil {
+			return nil, err
+		}
 	}
 
 	return b.Build()
-- 
2.43.0


From c2ea8852c236a5441edb2c8ad9b7144e42a6417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 04/55] fix: end the playground with a failure status when it
 cannot start

---
 playground/playground.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/playground/playground.go b/playground/playground.go
index fedd3ab..4d6aef6 100644
--- a/playground/playground.go
+++ b/playground/playground.go
@@ -95,13 +95,13 @@ type config struct {
 func main() {
 	if err := run(context.Background()); err != nil {
 		fmt.Printf("fatal error: %v", err)
+		os.Exit(1)
 	}
 	time.Sleep(time.Hour * 10000)
 }
 
 func run(ctx context.Context) error {
-	registerJSEntryPoints(service.New(cfg.defaultWorkspaceDir, readFile, writeFile))
-	return nil
+	return registerJSEntryPoints(service.New(cfg.defaultWorkspaceDir, readFile, writeFile))
 }
 
 type jsRequest struct {
-- 
2.43.0


From 97e09ba02098829b42fe1efd099076ab7a809735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 05/55] fix: fail the release when the working directory is
 unknown

---
 releasing/make_release/make_release.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/releasing/make_release/make_release.go b/releasing/make_release/make_release.go
index 5f43b01..aeed18d 100644
--- a/releasing/make_release/make_release.go
+++ b/releasing/make_release/make_release.go
@@ -58,7 +58,7 @@ func run() error {
 	if root == "" {
 		r, err := os.Getwd()
 		if err != nil {
-			return nil
+			return err
 		}
 		root = r
 	}
-- 
2.43.0


From 2e5f1035a44ca1a35d7071c1fd35b489c08de70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 06/55] fix: leave the destination untouched when decoding a
 basic value fails

---
 textcoder/textcoder.go          | 6 ++++--
 textcoder/textcoder_builtins.go | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index 7514295..3840f41 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -262,11 +262,13 @@ func (r *Registry) GetCoder(t reflect.Type) Coder {
 			},
 			decode: func(ctx *Context, text string, dst T) error {
 				dstBasicReflect := reflect.New(underlyingType)
-				err := basicCoder.DecodeText(ctx, text, dstBasicReflect.Interface())
+				if err := basicCoder.DecodeText(ctx, text, dstBasicReflect.Interface()); err != nil {
+					return err
+				}
 				// roughly equivalent to *dst = T(*dstBasic) where dst is of
 				// type T and dstBasic is of type U, and T is convertible to U.
 				reflect.ValueOf(dst).Elem().Set(dstBasicReflect.Elem().Convert(t))
-				return err
+				return nil
 			},
 		}
 	}
diff --git a/textcoder/textcoder_builtins.go b/textcoder/textcoder_builtins.go
index 231750b..f63af47 100644
--- a/textcoder/textcoder_builtins.go
+++ b/textcoder/textcoder_builtins.go
@@ -49,8 +49,11 @@ func RegisterBasicTypes(r *Registry) error {
 		func(v int) (string, error) { return strconv.Itoa(v), nil },
 		func(s string, dst *int) error {
 			i, err := strconv.Atoi(s)
+			if err != nil {
+				return err
+			}
 			*dst = i
-			return err
+			return nil
 		}))
 	putErr(r.Register(
 		reflect.TypeOf(bool(true)),
-- 
2.43.0


From e8499c8adc30782ce29234e1a44951b2daa09afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 07/55] fix: give the caller's context to the decoder in
 UnmarshalContext

---
 textcoder/textcoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index 3840f41..dd335e2 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -383,7 +383,7 @@ func UnmarshalContext(ctx *Context, value string, dst T) error {
 	if dec == nil {
 		return fmt.Errorf("no registered decoder for type %v", t)
 	}
-	return dec.DecodeText(NewContext(), value, dst)
+	return dec.DecodeText(ctx, value, dst)
 }
 
 // MarshalContext attempts to encode the value into a string using one of the
-- 
2.43.0


From 74237c991772b1b951418a30b1c17e51a9d82c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 08/55] fix: refuse variadic functions when registering a text
 coder

---
 textcoder/textcoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index dd335e2..b644c33 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -553,6 +553,9 @@ func checkSignature(f reflect.Type, in, out []reflect.Type) error {
 	if f.Kind() != reflect.Func {
 		return fmt.Errorf("argument is not a function: %v", f)
 	}
+	if f.IsVariadic() {
+		return fmt.Errorf("function must not be variadic: %v", f)
+	}
 	if got, want := f.NumIn(), len(in); got != want {
 		return fmt.Errorf("function takes %d arguments, want %d", got, want)
 	}
-- 
2.43.0


From 74d58e02487c9bf551921112067072d9612a03ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 09/55] fix: keep the slashes inside symbols when reading
 s-expressions

---
 sexpr/sexpr.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index fc143fe..7296f7c 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -317,8 +317,12 @@ loop:
 			// is in the middle of the symbol.
 			r2, err := fr.src.readRune()
 			if err == io.EOF {
+				literal.WriteRune(r)
 				break loop
 			}
+			if err != nil {
+				return nil, err
+			}
 			if err := fr.src.unreadRune(); err != nil {
 				return nil, err
 			}
@@ -330,6 +334,7 @@ loop:
 				}
 				break loop
 			}
+			literal.WriteRune(r)
 		default:
 			literal.WriteRune(r)
 		}
@@ -363,6 +368,9 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	contents := strings.Builder{}
 	contents.WriteRune('/')
 	secondCommentRune, err := fr.src.readRune()
+	if err == io.EOF {
+		return nil, false, nil // A single '/' at the end of the input is not a comment.
+	}
 	if err != nil {
 		return nil, false, err
 	}
-- 
2.43.0


From d3f6dd9a53e34f3b24c34617c98a786efe37ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 10/55] fix: report s-expression comments that the end of the
 input cuts off

---
 sexpr/sexpr.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 7296f7c..4920cbf 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -272,6 +272,9 @@ loop:
 				return nil, err
 			}
 			f, err := fr.readFormEvenTrivial()
+			if err == io.EOF {
+				return nil, fr.errorfWithPosition("did not find end of list token ')'")
+			}
 			if err != nil {
 				return nil, err
 			}
@@ -378,29 +381,20 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	switch secondCommentRune {
 	case '*':
 		// Consume the contents of the multi-line comment.
+		prevCharWasStar := false
 		for {
 			r, err := fr.src.readRune()
 			if err == io.EOF {
-				break
+				return nil, false, fr.errorfWithPosition("did not find end of comment '*/'")
 			}
 			if err != nil {
 				return nil, false, err
 			}
 			contents.WriteRune(r)
-			if r != '*' {
-				continue
-			}
-			r2, err := fr.src.readRune()
-			contents.WriteRune(r2)
-			if err == io.EOF {
-				break
-			}
-			if err != nil {
-				return nil, false, err
-			}
-			if r2 == '/' {
+			if r == '/' && prevCharWasStar {
 				break
 			}
+			prevCharWasStar = (r == '*')
 		}
 		end := fr.src.cursorOffset()
 		c, err := fr.factory.NewCommentForm(contents.String(), fr.makeSpan(start, end))
-- 
2.43.0


From ab9e1b1c673d6dab676f4d643805c3f35a26a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 11/55] fix: read escaped backslashes and newlines in
 s-expression strings correctly

---
 sexpr/sexpr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 4920cbf..7dbd292 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -222,6 +222,9 @@ loop:
 		}
 		switch r {
 		case '\n':
+			if prevCharWasEscape {
+				return nil, fr.errorfWithPosition("newline must not be escaped in string")
+			}
 			value.WriteString(`\n`) // Replace newline literals with the literal `\n`, which is supported by strconv.Unquote.
 			//return nil, fr.errorfWithPosition("unexpected newline before terminating \" character", src)
 		case '"':
@@ -233,7 +236,7 @@ loop:
 		default:
 			value.WriteRune(r)
 		}
-		prevCharWasEscape = (r == '\\')
+		prevCharWasEscape = (r == '\\') && !prevCharWasEscape
 	}
 	parsedValue, err := strconv.Unquote(value.String())
 	if err != nil {
-- 
2.43.0


From 6708097cb26d6855c271ee13ee8a286a417b7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 12/55] fix: read inf and nan as symbols, not as numbers
 without a value

---
 sexpr/sexpr_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr_util.go b/sexpr/sexpr_util.go
index 5a72ce1..b9a21c7 100644
--- a/sexpr/sexpr_util.go
+++ b/sexpr/sexpr_util.go
@@ -3,6 +3,7 @@ package sexpr
 import (
 	"fmt"
 	"go/constant"
+	"math"
 	"regexp"
 	"strconv"
 )
@@ -52,7 +53,7 @@ func parseNumber(s string) (*number, error) {
 		return &number{int64: &i}, nil
 	}
 	f, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && !math.IsInf(f, 0) && !math.IsNaN(f) {
 		return &number{float64: &f}, nil
 	}
 	// TODO: IF the token is a possible number, return error.
-- 
2.43.0


From f14e55369d0f9b709ff9cf191a70a562affbc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 13/55] fix: refuse output files that lie outside the workspace

---
 service/service_generate_code.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index 15c4f00..3a511e6 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"path"
+	"strings"
 
 	"github.com/google/xtoproto/csvtoproto"
 	"github.com/stoewer/go-strcase"
@@ -145,5 +146,8 @@ func pathFromParts(workspace, dir, fileName string) (string, error) {
 	if fileName == "" {
 		return "", fmt.Errorf("must supply an explicit output filename, got empty string")
 	}
+	if rel := path.Join(dir, fileName); rel == ".." || strings.HasPrefix(rel, "../") {
+		return "", fmt.Errorf("directory %q and fileName %q must not lead out of workspace %q", dir, fileName, workspace)
+	}
 	return path.Join(workspace, dir, fileName), nil
 }
-- 
2.43.0


From ba9efd30a9849ecaeccd745054c00f82a5cba43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 14/55] fix: refuse invalid code generation requests before
 writing any file

---
 service/service_generate_code.go | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index 3a511e6..7e3d204 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -48,33 +48,43 @@ func (s *service) GenerateCode(ctx context.Context, req *spb.GenerateCodeRequest
 		return nil, grpc.Errorf(codes.InvalidArgument, "failed to generate code: %v", err)
 	}
 
-	var outputProtoFile *spb.GenerateCodeResponse_File
+	// Check the whole request before the first file is written.
+	var protoPath, protoPathWSRelative, goPath, goPathWSRelative string
 	if genProto {
-		codePath, codePathWSRelative, err := s.protoPath(req)
+		protoPath, protoPathWSRelative, err = s.protoPath(req)
 		if err != nil {
 			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .proto file: %v", err)
 		}
+	}
+	if genGo {
+		goPath, goPathWSRelative, err = s.converterGoPath(req)
+		if err != nil {
+			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
+		}
+	}
+	if genProto && genGo && protoPath == goPath {
+		return nil, grpc.Errorf(codes.InvalidArgument, "the .proto file and the .go file have the same path %q", goPath)
+	}
+
+	var outputProtoFile *spb.GenerateCodeResponse_File
+	if genProto {
 		// TODO(reddaly): Consider configurable overwrite behavior.
-		if err := s.writeFile(ctx, codePath, []byte(protoCode)); err != nil {
-			return nil, fileErrToStatusErr(codePath, err)
+		if err := s.writeFile(ctx, protoPath, []byte(protoCode)); err != nil {
+			return nil, fileErrToStatusErr(protoPath, err)
 		}
 		outputProtoFile = &spb.GenerateCodeResponse_File{
-			WorkspaceRelativePath: codePathWSRelative,
+			WorkspaceRelativePath: protoPathWSRelative,
 			NewContents:           []byte(protoCode),
 		}
 	}
 	var outputGoFile *spb.GenerateCodeResponse_File
 	if genGo {
-		codePath, codePathWSRelative, err := s.converterGoPath(req)
-		if err != nil {
-			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
-		}
 		// TODO(reddaly): Consider configurable overwrite behavior.
-		if err := s.writeFile(ctx, codePath, []byte(goCode)); err != nil {
-			return nil, fileErrToStatusErr(codePath, err)
+		if err := s.writeFile(ctx, goPath, []byte(goCode)); err != nil {
+			return nil, fileErrToStatusErr(goPath, err)
 		}
 		outputGoFile = &spb.GenerateCodeResponse_File{
-			WorkspaceRelativePath: codePathWSRelative,
+			WorkspaceRelativePath: goPathWSRelative,
 			NewContents:           []byte(goCode),
 		}
 	}
-- 
2.43.0


From d7840805b79696f17339c7fcbaeddc15a7fdaeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 15/55] fix: put example values in a definite order when
 inferring from XML

---
 xmlinfer/xmlinfer.go               | 6 +++++-
 xmlinfer/xmlinfer_string_fields.go | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index d6876e7..896183f 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -190,7 +190,11 @@ func topNExamplesComment(m map[string]int) string {
 		total += count
 	}
 	sort.Slice(strs, func(i int, j int) bool {
-		return m[strs[i]] > m[strs[j]]
+		if ci, cj := m[strs[i]], m[strs[j]]; ci != cj {
+			return ci > cj
+		}
+		// For stability, sort by string if frequency is the same.
+		return strs[i] < strs[j]
 	})
 
 	if len(strs) > 5 {
diff --git a/xmlinfer/xmlinfer_string_fields.go b/xmlinfer/xmlinfer_string_fields.go
index 1dfd424..bc151ec 100644
--- a/xmlinfer/xmlinfer_string_fields.go
+++ b/xmlinfer/xmlinfer_string_fields.go
@@ -16,6 +16,7 @@ package xmlinfer
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 
 	"github.com/jhump/protoreflect/desc/builder"
@@ -28,6 +29,7 @@ func inferFieldTypeFromExampleStrings(exampleCounts map[string]int) (*builder.Fi
 		total += c
 		examples = append(examples, value)
 	}
+	sort.Strings(examples)
 	if total == 0 {
 		return builder.FieldTypeString(), nil
 	}
-- 
2.43.0


From b8fc69a63840180abe34a80b3b77055502d75a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 16/55] fix: wirepath: link every component of a parsed path to
 the one before it

---
 wirepath/wirepath_from_string.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 8d296ba..7438420 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -78,6 +78,7 @@ func ParseString(wirePathLiteral string) (*WirePath, error) {
 			topLevel = elem
 		} else {
 			parent.Child = elem
+			parent = elem
 		}
 	}
 	return FromProto(topLevel)
-- 
2.43.0


From 50048376ce6ceb53883c5084e3139759990289a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 17/55] fix: wirepath: parse sfixed32 map keys as sfixed32

---
 wirepath/wirepath_from_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 7438420..70b5ff6 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -204,7 +204,7 @@ func setSlotBasedOnMapKeyLiteral(out *pb.WirePath, literal, typeName string) err
 		case "sint32":
 			out.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: int32(number)}
 		case "sfixed32":
-			out.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: int64(number)}
+			out.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: int32(number)}
 		default:
 			panic("bug")
 		}
-- 
2.43.0


From 2e261478813481be2620fc3d61c49a6af510cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 18/55] fix: wirepath: print bool map keys in the form that can
 be parsed

---
 wirepath/wirepath.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 4e10f07..079d887 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -332,7 +332,12 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 			mapKey = protoreflect.ValueOf(slot.MapKeySfixed64).MapKey()
 
 		case *pb.WirePath_MapKeyBool:
-			out.formattedSlot = formattedSlotForMapKey(fmt.Sprintf("%v", slot.MapKeyBool), protoreflect.BoolKind)
+			// Bool keys are written the way ParseString reads them: 0 or 1.
+			literal := "0"
+			if slot.MapKeyBool {
+				literal = "1"
+			}
+			out.formattedSlot = formattedSlotForMapKey(literal, protoreflect.BoolKind)
 			mapKey = protoreflect.ValueOf(slot.MapKeyBool).MapKey()
 
 		default:
-- 
2.43.0


From dcdd01a005ae9d1567cb6193ef8321c3a5c79864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 19/55] fix: wirepath: end a quoted map key at its closing
 quote

---
 wirepath/wirepath_protostrings.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index e17ef14..1c6056e 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -31,7 +31,15 @@ const (
 		`\\([abfnrtv\\'"])` + "|" + // charEscape
 		`([^\0\n\\])` + // regular character
 		`)`
-	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralChar + `*")`
+
+	// Within double quotes, an unescaped double quote ends the literal.
+	protobufStringLiteralDoubleQuotedChar = `(?:` +
+		`\\[xX]` + hexDigit + hexDigit + `|` + // hex
+		`\\0` + octalDigit + octalDigit + octalDigit + `|` + // octal
+		`\\[abfnrtv\\'"]` + "|" + // charEscape
+		`[^\0\n\\"]` + // regular character
+		`)`
+	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralDoubleQuotedChar + `*")`
 )
 
 var protobufStringElemRegexp = regexp.MustCompile("^" + protobufStringLiteralChar)
-- 
2.43.0


From 297f44a28f203704454a26fe81eb40407346e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 20/55] fix: wirepath: print string map keys with escapes that
 can be parsed

---
 wirepath/wirepath.go              |  2 +-
 wirepath/wirepath_protostrings.go | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 079d887..af2316c 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -288,7 +288,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 			}
 
 		case *pb.WirePath_MapKeyString:
-			out.formattedSlot = strconv.Quote(slot.MapKeyString)
+			out.formattedSlot = quoteProtobufString(slot.MapKeyString)
 			mapKey = protoreflect.ValueOf(slot.MapKeyString).MapKey()
 
 		case *pb.WirePath_MapKeyInt32:
diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index 1c6056e..6f35e07 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -44,6 +44,26 @@ const (
 
 var protobufStringElemRegexp = regexp.MustCompile("^" + protobufStringLiteralChar)
 
+// quoteProtobufString returns a double quoted literal for s that
+// parseProtobufStringLiteral turns back into s.
+func quoteProtobufString(s string) string {
+	out := &strings.Builder{}
+	out.WriteByte('"')
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '"' || c == '\\':
+			out.WriteByte('\\')
+			out.WriteByte(c)
+		case c < ' ' || c == 0x7f:
+			fmt.Fprintf(out, `\x%02x`, c)
+		default:
+			out.WriteByte(c)
+		}
+	}
+	out.WriteByte('"')
+	return out.String()
+}
+
 // parseProtobufStringLiteral parses a string literal according to the protobuf spec:
 // https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#letters_and_digits
 func parseProtobufStringLiteral(literal string) (string, error) {
-- 
2.43.0


From 934600bc7060a2c1047bdde1c765e6da9ce0b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 21/55] fix: wirepath: print every component of a long path

---
 wirepath/wirepath.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index af2316c..3ec9327 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -185,15 +185,10 @@ func debugString(path *WirePath, evaluatedAgainstValue protoreflect.Value, forma
 		formatOpts = &pathFormatOptions{}
 	}
 	var strs []string
-	i := 0
 	for ; path != nil && path.proto != nil; path = path.child() {
 		elem, childValue := extractPrettyPathElem(path, evaluatedAgainstValue)
 		strs = append(strs, elem.string(formatOpts))
 		evaluatedAgainstValue = childValue
-		i++
-		if i > 10 {
-			break
-		}
 	}
 	return strings.Join(strs, "/")
 }
-- 
2.43.0


From 1ca6157d1b4b6a55e6a9dfb9ddf14a8cd753e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 22/55] fix: wirepath: treat a path without an element as SELF,
 as documented

---
 wirepath/wirepath.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 3ec9327..510ba03 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -81,7 +81,7 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	}
 
 	var immediateValue protoreflect.Value
-	if p.proto.GetSpecialPath() == pb.WirePath_SELF {
+	if isSelf(p.proto) {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
@@ -137,6 +137,12 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	return getValue(newCtx)
 }
 
+// isSelf reports if the first element of the path refers to the value itself,
+// which is also implied by an element that is not set.
+func isSelf(p *pb.WirePath) bool {
+	return p.GetElement() == nil || p.GetSpecialPath() == pb.WirePath_SELF
+}
+
 func slotMapKeyValue(p *WirePath) protoreflect.MapKey {
 	switch slot := p.proto.GetSlot().(type) {
 	case *pb.WirePath_MapKeyString:
@@ -232,7 +238,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 	out := &pathElemPretty{}
 	var immediateValue protoreflect.Value
 	var fieldDescriptor protoreflect.FieldDescriptor
-	if path == nil || path.proto == nil || path.proto.GetSpecialPath() == pb.WirePath_SELF {
+	if path == nil || isSelf(path.proto) {
 		out.self = true
 		immediateValue = value
 	} else {
-- 
2.43.0


From 5f62d41abe05bdff3beeed268bc9ccbe86b93310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 23/55] fix: wirepath: return errors for paths that do not fit
 the message instead of panicking

---
 wirepath/wirepath.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 510ba03..155e718 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -81,12 +81,16 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	}
 
 	var immediateValue protoreflect.Value
+	var fieldDescriptor protoreflect.FieldDescriptor
 	if isSelf(p.proto) {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
 
-		fieldDescriptor := m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		fieldDescriptor = m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		if fieldDescriptor == nil {
+			return protoreflect.Value{}, ctx.errorf("%s has no field with number %d", m.Descriptor().FullName(), p.proto.GetFieldNumber())
+		}
 		immediateValue = m.Get(fieldDescriptor)
 	}
 	if p.proto.GetSlot() != nil {
@@ -95,7 +99,7 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if !ok {
 				return protoreflect.Value{}, ctx.errorf("path references element %d of a non-repeated field", slot)
 			}
-			if int(slot.RepeatedFieldOffset) >= list.Len() {
+			if offset := slot.RepeatedFieldOffset; offset < 0 || offset >= int64(list.Len()) {
 				return protoreflect.Value{}, ctx.errorf("%d is out of range (repeated field length = %d)", slot, list.Len())
 			}
 			immediateValue = list.Get(int(slot.RepeatedFieldOffset))
@@ -109,6 +113,9 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if mapKey.IsValid() && !valueIsMap() {
 				return protoreflect.Value{}, ctx.errorf("tried to get value of map key %v of value that is not a Map", mapKey.Interface())
 			}
+			if fieldDescriptor == nil || !fieldDescriptor.IsMap() || fieldDescriptor.MapKey().Kind() != extractSlotMapKeyKind(p.proto) {
+				return protoreflect.Value{}, ctx.errorf("map key %v is not of the key type of the map", mapKey.Interface())
+			}
 			immediateValue = immediateValue.Map().Get(mapKey)
 
 		} else {
@@ -281,7 +288,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 
 			list, isList := immediateValue.Interface().(protoreflect.List)
 			if isList {
-				if int(slot.RepeatedFieldOffset) < list.Len() {
+				if offset := slot.RepeatedFieldOffset; offset >= 0 && offset < int64(list.Len()) {
 					childValue = list.Get(int(slot.RepeatedFieldOffset))
 				} else {
 					childValue = list.NewElement()
@@ -352,9 +359,9 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 				out.error = fmt.Errorf("specified map key for non-map value")
 			} else {
 				if fieldDescriptor == nil {
-					panic("internal assumption is incorrect - field descriptor should be available")
-				}
-				if got, want := fieldDescriptor.MapKey().Kind(), mapKeyKind; got != want {
+					// The value is a map and the path element refers to the value itself.
+					out.error = fmt.Errorf("cannot determine the key type of the map")
+				} else if got, want := fieldDescriptor.MapKey().Kind(), mapKeyKind; got != want {
 					out.error = fmt.Errorf("wirepath specifies map key %v of kind %s, %s key type is %s", mapKey.Interface(), want, fieldDescriptor.FullName(), got)
 				} else {
 					childValue = m.Get(mapKey)
-- 
2.43.0


From 7c3d0674de369f8df50ca04f65e0b77ae71bbfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 24/55] fix: wirepath: reject a string literal that consists of
 a single quote

---
 wirepath/wirepath_protostrings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index 6f35e07..58fabdf 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -70,7 +70,7 @@ func parseProtobufStringLiteral(literal string) (string, error) {
 	if !strings.HasPrefix(literal, `"`) {
 		return "", fmt.Errorf("literal must begin with \": %s", literal)
 	}
-	if !strings.HasSuffix(literal, `"`) {
+	if len(literal) < 2 || !strings.HasSuffix(literal, `"`) {
 		return "", fmt.Errorf("literal must end with \": %s", literal)
 	}
 	literal = literal[1 : len(literal)-1]
-- 
2.43.0


From 23e00fc10df0e8c089ab0e5f2627cfb6641d0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 25/55] fix: wirepath: do not share the argument of FromProto
 with the caller

---
 wirepath/wirepath.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 155e718..65534b4 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -45,8 +45,8 @@ func (p *WirePath) withoutChild() *WirePath {
 }
 
 // FromProto returns a parsed and validated version of the argument.
-func FromProto(proto *pb.WirePath) (*WirePath, error) {
-	return &WirePath{proto}, nil
+func FromProto(p *pb.WirePath) (*WirePath, error) {
+	return &WirePath{proto.Clone(p).(*pb.WirePath)}, nil
 }
 
 // GetValue returns the value of some path within a protocol buffer message.
-- 
2.43.0


From fc4c94680977722469088b66b8a2b84ddaa41ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 26/55] fix: sexpr: keep integers that do not fit in 64 bits
 exact

---
 sexpr/sexpr_util.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr_util.go b/sexpr/sexpr_util.go
index b9a21c7..5ff33fd 100644
--- a/sexpr/sexpr_util.go
+++ b/sexpr/sexpr_util.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/constant"
 	"math"
+	"math/big"
 	"regexp"
 	"strconv"
 )
@@ -12,7 +13,8 @@ type number struct {
 	uint64  *uint64
 	int64   *int64
 	float64 *float64
-	// or big.Int, big.Float
+	bigInt  *big.Int // An integer that does not fit in 64 bits.
+	// or big.Float
 }
 
 func (n number) value() interface{} {
@@ -25,6 +27,9 @@ func (n number) value() interface{} {
 	if n.uint64 != nil {
 		return *n.uint64
 	}
+	if n.bigInt != nil {
+		return n.bigInt
+	}
 	return nil
 }
 
@@ -38,6 +43,9 @@ func (n number) constValue() constant.Value {
 	if n.uint64 != nil {
 		return constant.MakeUint64(*n.uint64)
 	}
+	if n.bigInt != nil {
+		return constant.Make(n.bigInt)
+	}
 	panic("invalid number value")
 }
 
@@ -52,6 +60,9 @@ func parseNumber(s string) (*number, error) {
 	if err == nil {
 		return &number{int64: &i}, nil
 	}
+	if b, ok := new(big.Int).SetString(s, 0); ok {
+		return &number{bigInt: b}, nil
+	}
 	f, err := strconv.ParseFloat(s, 64)
 	if err == nil && !math.IsInf(f, 0) && !math.IsNaN(f) {
 		return &number{float64: &f}, nil
-- 
2.43.0


From 3d7ac8e756427f4a7019aaeb7f17852a5f5143d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 27/55] fix: rdfxml: refuse an rdf:ID that is used twice with
 the same base

The set of declared IDs was consulted but never filled, and the IDs of
property elements were not declared at all.
---
 rdf/rdfxml/rdfxml.go | 61 +++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 307cd56..8f628f8 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -169,8 +169,7 @@ type ParserOptions struct {
 }
 
 type baseStackEntry struct {
-	iri         ntriples.IRI
-	declaredIDs map[ntriples.IRI]bool
+	iri ntriples.IRI
 }
 
 // Parser is an RDF/XML document parser.
@@ -190,12 +189,13 @@ type Parser struct {
 	langStack          []string
 	nextBlankNodeID    int
 	observedBlankNodes map[ntriples.BlankNodeID]bool
+	declaredIDs        map[ntriples.IRI]bool
 }
 
 // NewParser returns a new RDF/XML parser that reads from the given xml document
 // tr.
 func NewParser(tr xml.TokenReader, opts *ParserOptions) *Parser {
-	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}}
+	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}, map[ntriples.IRI]bool{}}
 	if opts != nil && opts.BaseURL != "" {
 		p.pushBaseURI(opts.BaseURL)
 	}
@@ -225,8 +225,7 @@ func (p *Parser) pushBaseURI(baseURI ntriples.IRI) {
 	// part of the base URI; any fragment part is ignored. See Uniform Resource
 	// Identifiers (URI) [RFC3986].
 	entry := &baseStackEntry{
-		iri:         removeFragment(baseURI),
-		declaredIDs: map[ntriples.IRI]bool{},
+		iri: removeFragment(baseURI),
 	}
 	p.xmlBaseStack = append(p.xmlBaseStack, entry)
 }
@@ -258,17 +257,14 @@ func (p *Parser) baseURI() ntriples.IRI {
 	return p.xmlBaseStack[len(p.xmlBaseStack)-1].iri
 }
 
-// declareID declares that a nodeElement with the given ID has been encountered
-// in the scope of the current xml:base element. If such an ID has already been
-// registered in the current scope, an error is returned.
+// declareID declares that a node or property element with the given rdf:ID,
+// resolved against the xml:base in scope, has been encountered. If the same ID
+// has already been used with the same base, an error is returned.
 func (p *Parser) declareID(id ntriples.IRI) error {
-	if len(p.xmlBaseStack) == 0 {
-		return p.errorf("internal error - empty base stack")
-	}
-	entry := p.xmlBaseStack[len(p.xmlBaseStack)-1]
-	if entry.declaredIDs[id] {
-		return p.errorf("duplicate node element id within same xml:base scope; see section 2.14 of the RDF/XML spec <https://www.w3.org/TR/rdf-syntax-grammar/#nodeElementURIs>; offending id = %s", id)
+	if p.declaredIDs[id] {
+		return p.errorf("duplicate rdf:ID within same xml:base scope; see section 2.14 of the RDF/XML spec <https://www.w3.org/TR/rdf-syntax-grammar/#section-Syntax-ID-xml-base>; offending id = %s", id)
 	}
+	p.declaredIDs[id] = true
 	return nil
 }
 
@@ -379,13 +375,13 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 	for _, attr := range idAttrs {
 		switch xmlNameToIRI(attr.Name) {
 		case RDFID:
-			subIRI, err := resolve(p, "#"+attr.Value)
+			if len(p.xmlBaseStack) == 0 {
+				return nil, p.errorf("internal error - empty base stack")
+			}
+			subIRI, err := resolveID(p, attr.Value)
 			if err != nil {
 				return nil, p.errorf("bad IRI for rdf:Description's rdf:ID attribute: %w", err)
 			}
-			if err := p.declareID(subIRI); err != nil {
-				return nil, err
-			}
 			newSubject := ntriples.NewSubjectIRI(subIRI)
 			if subject != nil {
 				return nil, p.errorf("ambiguous subject: %s and %s", subject, newSubject)
@@ -547,7 +543,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := resolveID(p, attr.Value)
 				if err != nil {
 					return err
 				}
@@ -598,7 +594,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := resolveID(p, attr.Value)
 				if err != nil {
 					return err
 				}
@@ -642,7 +638,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		// a.string-value))) using the reification rules in section 7.3 and
 		// e.subject := i.
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -685,7 +681,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// with uri(identifier := resolve(e, concat("#", i.string-value))) using
 			// the reification rules in section 7.3.
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := resolveID(p, idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -745,7 +741,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// 7.3.
 
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := resolveID(p, idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -788,7 +784,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		return nil
 	}
 	if idAttr != nil {
-		i, err := resolve(p, "#"+idAttr.Value)
+		i, err := resolveID(p, idAttr.Value)
 		if err != nil {
 			return err
 		}
@@ -818,7 +814,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -836,7 +832,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -1025,6 +1021,19 @@ func resolve(p *Parser, s string) (ntriples.IRI, error) {
 	return p.baseURI().ResolveReference(sIRI).NormalizePercentEncoding(), nil
 }
 
+// resolveID returns the IRI that an rdf:ID attribute stands for and refuses an
+// ID that was already used with the same base.
+func resolveID(p *Parser, id string) (ntriples.IRI, error) {
+	i, err := resolve(p, "#"+id)
+	if err != nil {
+		return "", err
+	}
+	if err := p.declareID(i); err != nil {
+		return "", err
+	}
+	return i, nil
+}
+
 func parseLiteral(p *Parser, s string) (ntriples.Literal, error) {
 	lang := p.language()
 	if lang == "" {
-- 
2.43.0


From c61ade0367fb272a92ea3d18a96ba52d2e5f5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 28/55] fix: rdfxml: do not generate blank node identifiers
 that a document can use

A document with rdf:nodeID="gen-1" shared its node with an unrelated
anonymous one.
---
 rdf/rdfxml/rdfxml.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 8f628f8..6685391 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -275,10 +275,12 @@ func (p *Parser) language() string {
 	return p.langStack[len(p.langStack)-1]
 }
 
+// generateBlankNodeID returns an identifier that is not used in the document:
+// it begins with a digit, which no rdf:nodeID can (see checkXMLNCName).
 func (p *Parser) generateBlankNodeID() ntriples.BlankNodeID {
 	for {
 		p.nextBlankNodeID++
-		candidate := ntriples.BlankNodeID(fmt.Sprintf("gen-%d", p.nextBlankNodeID))
+		candidate := ntriples.BlankNodeID(fmt.Sprintf("%d-gen", p.nextBlankNodeID))
 		if p.observedBlankNodes[candidate] {
 			continue
 		}
@@ -289,7 +291,7 @@ func (p *Parser) generateBlankNodeID() ntriples.BlankNodeID {
 func (p *Parser) generateBlankNodeIDWithHint(hint string) ntriples.BlankNodeID {
 	for {
 		p.nextBlankNodeID++
-		candidate := ntriples.BlankNodeID(fmt.Sprintf("gen-%d-%s", p.nextBlankNodeID, hint))
+		candidate := ntriples.BlankNodeID(fmt.Sprintf("%d-gen-%s", p.nextBlankNodeID, hint))
 		if p.observedBlankNodes[candidate] {
 			continue
 		}
-- 
2.43.0


From e0aa05c78eeab73f390fb33da929e657b3444b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 29/55] fix: rdfxml: resolve a relative xml:base against the
 base in scope

---
 rdf/rdfxml/rdfxml.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 6685391..e60ad89 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -315,7 +315,8 @@ func (p *Parser) handleGenericStartElem(elem xml.StartElement) (func() error, er
 		}
 	}
 	if base != nil {
-		baseIRI, err := parseIRI(*base)
+		// A relative base is relative to the base in scope outside the element.
+		baseIRI, err := resolve(p, *base)
 		if err != nil {
 			return nil, p.errorf("xml:base value invalid: %w", err)
 		}
-- 
2.43.0


From caeab2fc6b928679a147ef1d6aeadd1a80788405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 30/55] fix: rdfxml: refuse text between property elements

It was silently dropped.
---
 rdf/rdfxml/rdfxml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index e60ad89..fccf0b5 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -506,6 +506,10 @@ func readPropertyElems(p *Parser, startElemName xml.Name, subject *ntriples.Subj
 			}
 			return nil
 		case xml.CharData:
+			str := string(t)
+			if strings.TrimSpace(str) != "" {
+				return p.errorf("unexpected non-whitespace element text %q", str)
+			}
 		case xml.Comment: // ignore
 		case xml.ProcInst: // ignore
 		case xml.Directive: // ignore aside from the usual handling
-- 
2.43.0


From 585212d6336ed89a26b4327dbc84e2d6fc5d993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 31/55] fix: rdfxml: accept underscores in XML names

---
 rdf/rdfxml/rdfxml_xmlname.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml_xmlname.go b/rdf/rdfxml/rdfxml_xmlname.go
index f5295df..34d9295 100644
--- a/rdf/rdfxml/rdfxml_xmlname.go
+++ b/rdf/rdfxml/rdfxml_xmlname.go
@@ -30,7 +30,7 @@ func checkXMLNCName(candidate string) error {
 
 const (
 	// See https://www.w3.org/TR/xml/ 2.3
-	xmlNameStartChar = (`[\:A-Za-z` +
+	xmlNameStartChar = (`[\:_A-Za-z` +
 		`\xC0-\xD6` +
 		`\xD8-\xF6` +
 		`\xF8-\x{2FF}` +
-- 
2.43.0


From 8bb3891755cd26c3292d93869fc21c32e85128f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 32/55] fix: rdfxml: refuse an rdf:ID that is not a name

---
 rdf/rdfxml/rdfxml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index fccf0b5..d68399b 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1031,6 +1031,9 @@ func resolve(p *Parser, s string) (ntriples.IRI, error) {
 // resolveID returns the IRI that an rdf:ID attribute stands for and refuses an
 // ID that was already used with the same base.
 func resolveID(p *Parser, id string) (ntriples.IRI, error) {
+	if err := checkXMLNCName(id); err != nil {
+		return "", p.errorf("invalid rdf:ID parameter: %w", err)
+	}
 	i, err := resolve(p, "#"+id)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 14cd08104907a52f76146ae7dff6309f5c430d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 33/55] fix: rdfxml: refuse attributes that a property element
 with a node inside cannot have

They were silently dropped.
---
 rdf/rdfxml/rdfxml.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index d68399b..ec44181 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -622,6 +622,9 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 	}
 	if childInfo.nodeElemStart != nil {
 		// 7.2.15: Production resourcePropertyElt
+		if err := checkOnlyAttribute(propElem.Attr, RDFID); err != nil {
+			return p.errorf("bad resourcePropertyElt: %w", err)
+		}
 		valueSubject, err := readNodeElem(p, *childInfo.nodeElemStart)
 		if err != nil {
 			return p.errorf("failed to parse resourcePropertyElt %s property of %s: %w", xmlNameToIRI(childInfo.nodeElemStart.Name), subject, err)
@@ -1216,6 +1219,25 @@ func processParseTypeAttr(propElem xml.StartElement) (string, bool, error) {
 	return parseTypeAttr.Value, true, nil
 }
 
+// checkOnlyAttribute returns an error if there are attributes besides the given
+// ones and those that are reserved by XML.
+func checkOnlyAttribute(attrs []xml.Attr, allowed ...ntriples.IRI) error {
+	var badTerms []string
+attrs:
+	for _, a := range rdfAttributes(attrs) {
+		for _, uri := range allowed {
+			if xmlNameToIRI(a.Name) == uri {
+				continue attrs
+			}
+		}
+		badTerms = append(badTerms, a.Name.Local)
+	}
+	if len(badTerms) != 0 {
+		return fmt.Errorf("got %d bad attributes: %s", len(badTerms), strings.Join(badTerms, ", "))
+	}
+	return nil
+}
+
 func parseLiteralPropertyElementAttributes(allAttrs []xml.Attr) (id, datatype *xml.Attr, err error) {
 	var badTerms []string
 	for _, a := range allAttrs {
-- 
2.43.0


From e6907c657d1b0ddbf8e991df418f640e74f6ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 34/55] fix: rdfxml: refuse attributes of rdf:RDF and content
 after the root element

Both were silently dropped.
---
 rdf/rdfxml/rdfxml.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index ec44181..99dba4e 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -93,22 +93,30 @@ func readRootOrNodeElem(p *Parser) error {
 			started = true
 
 			if xmlNameToIRI(t.Name) == RDFRoot {
-				_, err := p.handleGenericStartElem(t)
+				handleCloseElem, err := p.handleGenericStartElem(t)
 				if err != nil {
 					return err
 				}
-				return readNodeElemsAndEndRootElement(p)
-			}
-			// Otherwise, treat this like reading a regular node element.
-			// See https://www.w3.org/TR/rdf-syntax-grammar/#nodeElement.
-			_, err := readNodeElem(p, t)
-			return err
-		case xml.EndElement:
-			if xmlNameToIRI(t.Name) != RDFRoot {
-				return p.errorf("internal parsing error - only expect an end element when handlng rdf:Root; probably forgot to consume an EndElement elsewhere: %+v", t)
+				// 7.2.9: Production RDF
+				if err := checkOnlyAttribute(t.Attr); err != nil {
+					return p.errorf("bad rdf:RDF element: %w", err)
+				}
+				if err := readNodeElemsAndEndRootElement(p); err != nil {
+					return err
+				}
+				if err := handleCloseElem(); err != nil {
+					return err
+				}
+			} else {
+				// Otherwise, treat this like reading a regular node element.
+				// See https://www.w3.org/TR/rdf-syntax-grammar/#nodeElement.
+				if _, err := readNodeElem(p, t); err != nil {
+					return err
+				}
 			}
 			finished = true
-			// end elements should be consumed
+		case xml.EndElement:
+			return p.errorf("internal parsing error - probably forgot to consume an EndElement elsewhere: %+v", t)
 		case xml.CharData:
 			str := string(t)
 			if strings.TrimSpace(str) != "" {
-- 
2.43.0


From 6059417c81b3078db7e199a81a81d33cc4cbbf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 35/55] fix: rdfxml: keep attributes whose local name begins
 with xml

Attributes of any namespace were silently dropped if their name began with
xml.
---
 rdf/rdfxml/rdfxml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 99dba4e..38b002e 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1327,10 +1327,11 @@ func filterAttrs(attrs []xml.Attr, pred func(xml.Attr) bool) []xml.Attr {
 }
 
 var beginsWithXMLExpr = regexp.MustCompile(`^(?i)xml`)
-var xmlnsRE = regexp.MustCompile(`^(?i)` + regexp.QuoteMeta(xmlNS))
 
+// isXMLAttr reports if an attribute is reserved by XML. The space of a name is
+// the prefix itself if the document does not declare the prefix.
 func isXMLAttr(name xml.Name) bool {
-	return xmlnsRE.MatchString(name.Space) || beginsWithXMLExpr.MatchString(name.Local) || beginsWithXMLExpr.MatchString(name.Space)
+	return name.Space == xmlNS || beginsWithXMLExpr.MatchString(name.Space) || name.Space == "" && beginsWithXMLExpr.MatchString(name.Local)
 }
 
 func isPropertyAttr(name xml.Name) bool {
-- 
2.43.0


From 2f222e3ca15462cd8bec0f576a87e0c05e5aa98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 36/55] fix: rdfxml: refuse property attributes without a
 namespace

---
 rdf/rdfxml/rdfxml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 38b002e..f8170d1 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1335,6 +1335,10 @@ func isXMLAttr(name xml.Name) bool {
 }
 
 func isPropertyAttr(name xml.Name) bool {
+	if name.Space == "" {
+		// 6.1.4: only attributes with a namespace are allowed.
+		return false
+	}
 	term := xmlNameToIRI(name)
 	switch term {
 	case RDFDescription, RDFLI:
-- 
2.43.0


From 744bc15dae624f76afbbeebfa05aa15a55f3206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 37/55] fix: iri: check the whole fragment, also after a line
 break

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index fc08224..dfd58ff 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -286,7 +286,7 @@ var (
 	}()
 
 	// re from RFC 3986 page 50.
-	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?`)
+	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#((?s:.*)))?$`)
 	uriRESchemeGroup                 = 2
 	uriREAuthorityWithSlashSlahGroup = 3
 	uriREAuthorityGroup              = 4
-- 
2.43.0


From 72fffed30460badcff9067505be5f71b36227cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 38/55] fix: iri: refuse an IPvFuture address without an
 address

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index dfd58ff..0268d11 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -220,7 +220,7 @@ const (
 const (
 	ipLiteral = `\[(?:` + ipV6Address + `|` + ipVFuture + `)\]`
 
-	ipVFuture = `v` + hex + `\.(?:` + unreserved + `|` + subDelims + `|\:)*`
+	ipVFuture = `v` + hex + `+\.(?:` + unreserved + `|` + subDelims + `|\:)+`
 
 	// see https://stackoverflow.com/questions/3032593/using-explicitly-numbered-repetition-instead-of-question-mark-star-and-plus
 	ipV6Address = (`(?:` +
-- 
2.43.0


From e8fd0e7d21da6c600a86e19b1a16d9e25b91df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 39/55] fix: iri: the octets of an IPv4 address are separated
 by dots

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 0268d11..e850ffd 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -238,7 +238,7 @@ const (
 
 	h16         = `(?:` + hex + hex + hex + hex + `)`
 	ls32        = `(?:` + h16 + `\:` + h16 + `|` + ipV4Address + `)`
-	ipV4Address = `(?:` + decOctet + `.` + decOctet + `.` + decOctet + `.` + decOctet + `)`
+	ipV4Address = `(?:` + decOctet + `\.` + decOctet + `\.` + decOctet + `\.` + decOctet + `)`
 
 	decOctet = (`(?:\d` + `|` + // 0-9
 		`[1-9]\d` + `|` + // 10-99
-- 
2.43.0


From 62907a68d5fbb401e81c5f7bce1948cd103d6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 40/55] fix: iri: refuse a colon in the first segment of a
 relative path

---
 rdf/iri/iri.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index e850ffd..df30f16 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -38,6 +38,9 @@ func Parse(s string) (IRI, error) {
 	if path != "" && !ipathRE.MatchString(path) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid path %q does not match regexp %s", s, path, ipathRE)
 	}
+	if scheme == "" && colonInFirstSegmentRE.MatchString(path) {
+		return "", fmt.Errorf("%q is not a valid IRI: the first segment of a relative path may not contain a colon: %q", s, path)
+	}
 	if query != "" && !iqueryRE.MatchString(query) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid query %q does not match regexp %s", s, query, iqueryRE)
 	}
@@ -256,8 +259,10 @@ var (
 	iauthorityRE        = mustCompileNamed("iauthorityRE", "^"+iauthority+"$")
 	iauthorityCaptureRE = mustCompileNamed("iauthorityCaptureRE", "^"+iauthorityCapture+"$")
 	ipathRE             = mustCompileNamed("ipath", "^"+ipath+"$")
-	iqueryRE            = mustCompileNamed("iquery", "^"+ipath+"$")
-	ifragmentRE         = mustCompileNamed("ifragment", "^"+ifragment+"$")
+	// A colon in the first segment of a relative path would make it a scheme.
+	colonInFirstSegmentRE = mustCompileNamed("colonInFirstSegment", "^[^/]*:")
+	iqueryRE              = mustCompileNamed("iquery", "^"+ipath+"$")
+	ifragmentRE           = mustCompileNamed("ifragment", "^"+ifragment+"$")
 
 	percentEncodedChar      = mustCompileNamed("percentEncodedChar", pctEncoded)
 	pctEncodedCharOneOrMore = mustCompileNamed("pctEncodedOneOrMore", pctEncodedOneOrMore)
-- 
2.43.0


From 527b4d4e0f94f28e0918cb552e15fd4a6234227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 41/55] fix: ntriples: the characters of blank node labels

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 741f1d9..86f4e48 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -387,7 +387,7 @@ const (
 	hex         = `[0-9A-Fa-f]`
 	uchar       = `(?:\\u` + hex + hex + hex + hex + `|\\U` + hex + hex + hex + hex + hex + hex + hex + hex + `)`
 	echar       = `\\[\\tbnrf"']`
-	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{1000}0\#xEFFFF`
+	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}`
 	pnCharsU    = pnCharsBase + `_\:`
 	pnChars     = pnCharsU + `\-0-9\x{00B7}\x{0300}-\x{036F}\x{203F}-\x{2040}`
 
-- 
2.43.0


From 87e0a2474ebe3f320f1c9ee031a100218a2becc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 42/55] fix: ntriples: a blank node label does not end with a
 dot

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 86f4e48..3a88832 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -400,7 +400,7 @@ var (
 	irirefRegexp = regexp.MustCompile("^" + iriref)
 
 	// 	BLANK_NODE_LABEL	::=	'_:' (PN_CHARS_U | [0-9]) ((PN_CHARS | '.')* PN_CHARS)?
-	blankNodeLabel = regexp.MustCompile(`^_\:[` + pnCharsU + `0-9][` + pnChars + `\.]*[` + pnChars + `]?`)
+	blankNodeLabel = regexp.MustCompile(`^_\:[` + pnCharsU + `0-9](?:[` + pnChars + `\.]*[` + pnChars + `])?`)
 	literalRegexp  = regexp.MustCompile(`^` + stringLiteralQuote + `(?:(?:\^\^` + iriref + `)|` + langTag + `)?`)
 )
 
-- 
2.43.0


From d5b17ad60e805fadb6faeb69cc00f6095c8f0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 43/55] fix: rdf/iri: resolve references with the whole
 authority and rootless paths

A reference whose authority is empty or only a port was not recognised as a
network-path reference, the base's port and empty authority were lost, and a
path without a leading slash got one even where there is no authority
(RFC 3986 sections 5.2.2 to 5.2.4).
---
 rdf/iri/iri_resolve.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index 3a0cfa2..afeb156 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -106,7 +106,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	if ref.Scheme() == "" {
 		url.scheme = base.Scheme()
 	}
-	if ref.Scheme() != "" || ref.Host() != "" || ref.User() != "" {
+	if ref.Scheme() != "" || ref.HasAuthority() {
 		// The "absoluteURI" or "net_path" cases.
 		// We can ignore the error from setPath since we know we provided a
 		// validly-escaped path.
@@ -130,9 +130,15 @@ func resolveReference(base, ref resolveRefArg) *parts {
 		}
 	}
 	// The "abs_path" or "rel_path" cases.
+	url.emptyAuth = base.HasAuthority() && base.Host() == "" && base.Port() == "" && base.User() == ""
 	url.host = base.Host()
 	url.userInfo = base.User()
-	url.path = resolvePath(base.Path(), ref.Path())
+	url.port = base.Port()
+	basePath := base.Path()
+	if basePath == "" && base.HasAuthority() && ref.Path() != "" {
+		basePath = "/" // RFC 3986 section 5.2.3
+	}
+	url.path = resolvePath(basePath, ref.Path())
 	return url
 }
 
@@ -175,7 +181,6 @@ func resolvePath(base, ref string) string {
 			elem, remaining = remaining[:i], remaining[i+1:]
 		}
 		if elem == "." {
-			first = false
 			// drop
 			continue
 		}
@@ -185,9 +190,7 @@ func resolvePath(base, ref string) string {
 			index := strings.LastIndexByte(str, '/')
 
 			dst.Reset()
-			if index == -1 {
-				first = true
-			} else {
+			if index != -1 {
 				dst.WriteString(str[:index])
 			}
 		} else {
@@ -199,9 +202,9 @@ func resolvePath(base, ref string) string {
 		}
 	}
 
-	if last == "." || last == ".." {
+	if (last == "." || last == "..") && !first {
 		dst.WriteByte('/')
 	}
 
-	return "/" + strings.TrimPrefix(dst.String(), "/")
+	return dst.String()
 }
-- 
2.43.0


From a5db66f72e604162e41b6d9a7c924081f1d427e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 44/55] fix: csvtoproto: generate code that compiles for
 google.protobuf.Duration columns

---
 csvtoproto/csvtoproto_go_codegen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 5d806fa..b69fb0c 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -301,7 +301,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
-			"unit": c2f.GetTimeFormat().GetGoLayout(),
+			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
 		})
 		if err != nil {
 			return nil, err
@@ -351,16 +351,16 @@ func (d {{.T}}) duration() time.Duration {
 
 func init() {
 	textcoder.Register(
-		reflect.TypeOf({{.T}}{}),
+		reflect.TypeOf({{.T}}(0)),
 		func(d {{.T}}) (string, error) {
-			return d.Duration().String(), nil
+			return d.duration().String(), nil
 		},
 		func(s string, dst *{{.T}}) error {
-			d, err := csvtoprotoparse.ParseDuration(s, unit)
+			d, err := csvtoprotoparse.ParseDuration(s, {{.unit | printf "%q"}})
 			if err != nil {
 				return fmt.Errorf("error parsing {{.T}}: %w", err)
 			}
-			*dst = {{.T}}(d)
+			*dst = {{.T}}(d.AsDuration())
 			return nil
 		},
 
-- 
2.43.0


From 959a836e530bd12c5029a630148db5e3a2d68e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 45/55] fix: csvtoproto: keep struct tags intact for column
 names with backquotes

---
 csvtoproto/csvtoproto_go_codegen.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index b69fb0c..c16da05 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -17,6 +17,7 @@ package csvtoproto
 import (
 	"fmt"
 	"go/format"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -217,7 +218,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 		if fieldType.topLevelCode != "" {
 			topLevelLines = append(topLevelLines, fieldType.topLevelCode)
 		}
-		fieldLines = append(fieldLines, fmt.Sprintf("%s %s `csv:%q`", fieldName, fieldType.typeName, c2f.GetColName()))
+		fieldLines = append(fieldLines, fmt.Sprintf("%s %s %s", fieldName, fieldType.typeName, csvFieldTag(c2f.GetColName())))
 
 		expr, err := getGoToProtoFieldExpression(
 			fmt.Sprintf("r.%s", fieldName),
@@ -247,6 +248,15 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	return &structCode{structDef + b.String()}, nil
 }
 
+// csvFieldTag returns the Go source of the struct tag for the named column.
+func csvFieldTag(colName string) string {
+	tag := fmt.Sprintf("csv:%q", colName)
+	if !strconv.CanBackquote(tag) {
+		return strconv.Quote(tag)
+	}
+	return "`" + tag + "`"
+}
+
 var toProtoTemplate = template.Must(template.New("toProtoTemplate").Parse(
 	`
 func (r *{{.struct_name}}) Proto() (*{{.message_type}}, error) {
-- 
2.43.0


From 7248c9ab67eb871af7cc9d27cf2ce1044c2b8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 46/55] fix: csvtoproto: quote the import path of the message
 package

---
 csvtoproto/csvtoproto_go_codegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index c16da05..95e84ce 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -42,7 +42,7 @@ import (
 	"github.com/google/xtoproto/csvcoder"
 	"github.com/google/xtoproto/textcoder"
 
-	pb "{{.proto_import}}"
+	pb {{.proto_import | printf "%q"}}
 )
 
 // Unused vars to ensure the imports are used.
-- 
2.43.0


From 4aa0fd87f498390bc6b7bc876ef84c182767f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 47/55] fix: recordinfer: write import statements in the
 inferred definition

---
 recordinfer/recordinfer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 97a8057..0175a03 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -43,10 +43,16 @@ type InferredProto struct {
 // Code returns the source for a .proto file.
 func (ip *InferredProto) Code() string {
 	var imports []string
+	imported := map[string]bool{}
 	body := ""
 	for _, col := range ip.columns {
 		body += fmt.Sprintf("%s\n", col.protoFieldCode())
-		imports = append(imports, col.columnType.protoImports()...)
+		for _, path := range col.columnType.protoImports() {
+			if statement := fmt.Sprintf("import %q;", path); !imported[statement] {
+				imported[statement] = true
+				imports = append(imports, statement)
+			}
+		}
 	}
 
 	return fmt.Sprintf(`syntax = "proto3";
-- 
2.43.0


From 7a4dc8812c53f9ecf78dbd813f31852afebaac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 48/55] fix: recordinfer: never infer an empty field name or
 one starting with a digit

---
 recordinfer/recordinfer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 0175a03..8835b01 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -304,6 +304,7 @@ func columnTypesEqual(a, b columnType) bool {
 var (
 	multipleUnderscores = regexp.MustCompile(`_+`)
 	notFieldNameChar    = regexp.MustCompile(`[^_a-zA-Z0-9]`)
+	fieldNameStart      = regexp.MustCompile(`^[_a-zA-Z]`)
 )
 
 func columnNameToFieldName(colName string) string {
@@ -314,5 +315,10 @@ func columnNameToFieldName(colName string) string {
 	s = multipleUnderscores.ReplaceAllString(s, "_")
 	s = strings.TrimPrefix(s, "_")
 	s = strings.TrimSuffix(s, "_")
-	return strcase.SnakeCase(s)
+	s = strcase.SnakeCase(s)
+	if !fieldNameStart.MatchString(s) {
+		// A field name may be neither empty nor begin with a digit.
+		s = "field_" + s
+	}
+	return s
 }
-- 
2.43.0


From b4bd30ed3ddb2dd68c2f74621cca500da447b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 49/55] fix: rdf/xml collection starts at the node the property
 refers to

---
 rdf/rdfxml/rdfxml.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index f8170d1..c49bafa 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -860,18 +860,16 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 		}
 	}
 
-	isFirst := true
 	for i, emittedSub := range emittedSubjects {
-		nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
-		if !isFirst {
+		if i > 0 {
+			nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
 			triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFRest, ntriples.NewObjectBlankNodeID(nextSeqID))
 			ind, err := p.tripleCallback(triple)
 			if err != nil || ind == Stop {
 				return err
 			}
+			seqID = nextSeqID
 		}
-		isFirst = false
-		seqID = nextSeqID
 		triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFFirst, ntriples.NewObjectFromSubject(emittedSub))
 		ind, err := p.tripleCallback(triple)
 		if err != nil || ind == Stop {
-- 
2.43.0


From a5ee53bf93d383de2c3c5622f6eec3e06abc7c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 50/55] fix: rdf:datatype of an empty property element is not
 dropped

---
 rdf/rdfxml/rdfxml.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index c49bafa..84c8fc4 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -673,20 +673,31 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 
 	if childInfo.isEmptyProperty {
 		// 7.2.21 Production emptyPropertyElt
-		idAttr, _, _, _, propAttrs, attrCount, err := parseEmptyPropertyElementAttributes(propElem.Attr)
+		idAttr, _, _, dtAttr, propAttrs, attrCount, err := parseEmptyPropertyElementAttributes(propElem.Attr)
 		if err != nil {
 			return p.errorf("error processing attributs of empty literal property: %w", err)
 		}
 
-		if attrCount == 0 || (attrCount == 1 && idAttr != nil) {
+		noAttrs := attrCount == 0 || (attrCount == 1 && idAttr != nil)
+		if noAttrs || (dtAttr != nil && len(propAttrs) == 0) {
 			// If there are no attributes or only the optional rdf:ID attribute i then
 			// o := literal(literal-value:="", literal-language := e.language) and the
 			// following statement is added to the graph:
 			// e.parent.subject.string-value e.URI-string-value o.string-value .
+			//
+			// With an rdf:datatype attribute it is an empty literal of that type, as
+			// in 7.2.16.
 			literal, err := parseLiteral(p, "")
 			if err != nil {
 				return p.errorf("error emitting empty literal property: %w", err)
 			}
+			if dtAttr != nil {
+				datatype, err := parseIRI(dtAttr.Value)
+				if err != nil {
+					return err
+				}
+				literal = ntriples.NewLiteral("", datatype, "")
+			}
 			triple := ntriples.NewTriple(subject, elemURI, ntriples.NewObjectLiteral(literal))
 			ind, err := p.tripleCallback(triple)
 			if err != nil {
-- 
2.43.0


From 2c35bfb12f7d30e988e8ece5194f59dd5233a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 51/55] fix: xmlinfer: names that collide give an error instead
 of a panic

---
 xmlinfer/xmlinfer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index 896183f..edf11fc 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -114,7 +114,9 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		if err != nil {
 			return nil, err
 		}
-		b.AddField(attrField)
+		if err := b.TryAddField(attrField); err != nil {
+			return nil, fmt.Errorf("cannot add field for attribute %q: %w", attr.name.Local, err)
+		}
 	}
 
 	all := []*builder.MessageBuilder{b}
@@ -124,7 +126,9 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		if err != nil {
 			return nil, err
 		}
-		b.AddField(fieldDesc)
+		if err := b.TryAddField(fieldDesc); err != nil {
+			return nil, fmt.Errorf("cannot add field for element %q: %w", ef.sc.name.Local, err)
+		}
 		if mainChildElemMsg != nil {
 			all = append(all, mainChildElemMsg)
 		}
-- 
2.43.0


From 7570fe5b3640fdabac46f5c9e65aa102663f2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 52/55] fix: xmlinfer: names that protobuf cannot express give
 an error instead of a panic

---
 xmlinfer/xmlinfer.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index edf11fc..1250aac 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -20,6 +20,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"io"
+	"regexp"
 	"sort"
 	"strings"
 
@@ -104,7 +105,11 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		elemFieldNames = append(elemFieldNames, xmlToMessageName(ef.sc.name))
 	}
 
-	b := builder.NewMessage(xmlToMessageName(sc.name))
+	messageName := xmlToMessageName(sc.name)
+	if err := checkProtoName(messageName); err != nil {
+		return nil, err
+	}
+	b := builder.NewMessage(messageName)
 	b.SetComments(builder.Comments{
 		LeadingComment: fmt.Sprintf(" %d attrFields, %d elemFields: %s, based on %d examples",
 			len(sc.attrFields), len(sc.elemFields), strings.Join(elemFieldNames, ", "), sc.occurenceCount),
@@ -170,6 +175,9 @@ func (ac *attrFieldCandidate) recordExampleValue(s string) {
 
 func (ac *attrFieldCandidate) fieldBuilder() (*builder.FieldBuilder, error) {
 	fieldName := xmlToFieldName(ac.name)
+	if err := checkProtoName(fieldName); err != nil {
+		return nil, err
+	}
 	ft, err := inferFieldTypeFromExampleStrings(ac.sampleValueCounts)
 	if err != nil {
 		return nil, fmt.Errorf("failed to infer type for attribute %q: %w", fieldName, err)
@@ -232,6 +240,9 @@ func (ef *elementFieldCandidate) fieldBuilder() (*builder.FieldBuilder, *builder
 	var mainChild *builder.MessageBuilder
 	var otherChildren []*builder.MessageBuilder
 	fieldName := xmlToFieldName(ef.sc.name)
+	if err := checkProtoName(fieldName); err != nil {
+		return nil, nil, nil, err
+	}
 	if ef.sc.hasNoAttributesOrChildElements() {
 		ft, err := inferFieldTypeFromExampleStrings(ef.sc.chardataField.sampleValueCounts)
 		if err != nil {
@@ -408,6 +419,17 @@ func (s *state) consumeElementTokens(startTok xml.StartElement, sc *structCandid
 	}
 }
 
+var protoNameRE = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
+
+// checkProtoName returns an error if a name derived from an XML name is not one
+// that a protocol buffer message or field can have.
+func checkProtoName(name string) error {
+	if !protoNameRE.MatchString(name) {
+		return fmt.Errorf("cannot use %q as the name of a message or field", name)
+	}
+	return nil
+}
+
 func xmlToMessageName(xn xml.Name) string {
 	return strcase.UpperCamelCase(xn.Local)
 }
-- 
2.43.0


From 3bcc7d0b5ac0b1e3f231fa722e0cf0bec06fd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 53/55] fix: textcoder: keep the registry of a Context under a
 key of the package's own

A Context keeps values under keys chosen by its users, and its registry under
the plain string "registry". A user who stored a value under that string made
Registry panic.
---
 textcoder/textcoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index b644c33..8f6473d 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -329,7 +329,11 @@ type Context struct {
 	values map[interface{}]interface{}
 }
 
-const registryKey = "registry"
+// contextKey is the type of the keys of this package, so that the keys of others
+// never collide with them.
+type contextKey string
+
+const registryKey contextKey = "registry"
 
 // NewContext returns a new Context to use when parsing within a given
 // Row.
-- 
2.43.0


From 7d88df2670c94aa0d5450292fd0bb74e97b28b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 54/55] fix: csvcoder: skip struct fields that are not public

RegisterRowStruct is documented to examine each public field. It also asked for a
column for fields that are not exported, and parsing a row into one panicked
because reflection does not give access to its value.
---
 csvcoder/csvcoder_row.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/csvcoder/csvcoder_row.go b/csvcoder/csvcoder_row.go
index f0f3959..17f95d0 100644
--- a/csvcoder/csvcoder_row.go
+++ b/csvcoder/csvcoder_row.go
@@ -272,6 +272,9 @@ func inferRegisteredType(t reflect.Type, opt ...RegisterOption) (*registeredType
 	var valueExtractors []func(row *Row, dst reflect.Value) error
 	for i := 0; i < t.Elem().NumField(); i++ {
 		f := t.Elem().FieldByIndex([]int{i})
+		if f.PkgPath != "" {
+			continue // not a public field
+		}
 		if _, ok := f.Tag.Lookup("csv-skip"); ok {
 			continue
 		}
-- 
2.43.0


From b10cd17eb05270c121363fdaa6a8e6b6a7d6d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 55/55] fix: recordinfer: columns whose names become the same
 field name get distinct names

The characters a field name cannot hold are replaced, so that columns "a b" and
"a_b" were both inferred as field a_b, and the definition did not compile.
---
 recordinfer/recordinfer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 8835b01..1bb0d6a 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -146,6 +146,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		goOpts:      gOpts,
 	}
 
+	usedNames := make(map[string]bool)
 	for i := 0; i < numCols; i++ {
 		cv := &columnValues{i, b.rows}
 		comment := cv.statisticalComment()
@@ -155,7 +156,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		}
 		result.columns = append(result.columns, &inferredColumn{
 			csvColumnName: cv.columnName(),
-			fieldName:     columnNameToFieldName(cv.columnName()),
+			fieldName:     unusedFieldName(columnNameToFieldName(cv.columnName()), usedNames),
 			columnType:    colType,
 			tag:           i + 1,
 			comment:       comment,
@@ -322,3 +323,14 @@ func columnNameToFieldName(colName string) string {
 	}
 	return s
 }
+
+// unusedFieldName returns the name, with a number added if an earlier column has
+// it already, and records the result as used.
+func unusedFieldName(name string, used map[string]bool) string {
+	unused := name
+	for i := 2; used[unused]; i++ {
+		unused = fmt.Sprintf("%s_%d", name, i)
+	}
+	used[unused] = true
+	return unused
+}
-- 
2.43.0

