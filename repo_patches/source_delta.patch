From b071d007cf6a92293dbaad669073f90664679aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:58 +0000
Subject: [PATCH 01/28] fix: make the first error on a message tape fail the
 parse

addMsg only recorded an error message if one had been recorded before, so the
first error was never stored and MessageTape.Error never failed a query.
---
 parser/visitors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/visitors.go b/parser/visitors.go
index 4128a75..e8ed4a2 100644
--- a/parser/visitors.go
+++ b/parser/visitors.go
@@ -166,7 +166,7 @@ func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {
 
 func (mt *MessageTape) addMsg(msgType MessageType, where ast.Pos, msg string, v ...any) {
 	pmsg := newMessage(msgType, where, fmt.Sprintf(msg, v...))
-	if msgType == MsgError && mt.firstErr != nil {
+	if msgType == MsgError && mt.firstErr == nil {
 		mt.firstErr = pmsg
 	}
 	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))
-- 
2.43.0


From 547ba374ff3898b7611274f304f228a41981a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:13 +0000
Subject: [PATCH 02/28] fix: include operands in the statistics of AND, OR and
 NOT

Stats returned only the counters of the outermost clause, because the
connectives did not pass their operands on as children.
---
 jsonmatcher/nodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonmatcher/nodes.go b/jsonmatcher/nodes.go
index 1aff22c..eeaf500 100644
--- a/jsonmatcher/nodes.go
+++ b/jsonmatcher/nodes.go
@@ -24,7 +24,7 @@ func (a *andNode) result(root []byte) bool {
 }
 
 func (a *andNode) stats() *MatchStats {
-	return a.nodeStats.toStatsNode()
+	return a.nodeStats.toStatsNode(a.left, a.right)
 }
 
 type orNode struct {
@@ -41,7 +41,7 @@ func (o *orNode) result(root []byte) bool {
 }
 
 func (o *orNode) stats() *MatchStats {
-	return o.nodeStats.toStatsNode()
+	return o.nodeStats.toStatsNode(o.left, o.right)
 }
 
 type notNode struct {
@@ -58,7 +58,7 @@ func (n *notNode) result(root []byte) bool {
 }
 
 func (n *notNode) stats() *MatchStats {
-	return n.nodeStats.toStatsNode()
+	return n.nodeStats.toStatsNode(n.sub)
 }
 
 // type subdocNode struct {
-- 
2.43.0


From dd3a1bd2548417ad3003e757617fbad16445318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:15 +0000
Subject: [PATCH 03/28] fix: never report more matches than checks in a
 concurrent snapshot

A match running between the two loads could be counted as matched but not as
checked in the same snapshot.
---
 jsonmatcher/node_stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/node_stats.go b/jsonmatcher/node_stats.go
index 1d5fa92..c7d06ff 100644
--- a/jsonmatcher/node_stats.go
+++ b/jsonmatcher/node_stats.go
@@ -27,10 +27,13 @@ func (ns *nodeStats) mark(matched bool) {
 }
 
 func (ns *nodeStats) toStatsNode(children ...boolNode) *MatchStats {
+	// mark counts the check before the match, so read them in the opposite
+	// order to never report more matches than checks.
+	matched := ns.timesMatched.Load()
 	sn := &MatchStats{
 		NodeName:     ns.nodeName,
 		TimesChecked: ns.timesChecked.Load(),
-		TimesMatched: ns.timesMatched.Load(),
+		TimesMatched: matched,
 	}
 	if len(children) > 0 {
 		sn.Children = make([]*MatchStats, 0, len(children))
-- 
2.43.0


From 72efe4e91049df6e72de463ddbaf81d3b182f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:15 +0000
Subject: [PATCH 04/28] fix: reject ranges from a number to a timestamp

Only the opposite mixture was rejected. a:><(-1, 1970-01-01) was accepted and
silently evaluated as a range from -1 to 0.
---
 parser/validators.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/validators.go b/parser/validators.go
index a7400f5..5d36068 100644
--- a/parser/validators.go
+++ b/parser/validators.go
@@ -141,6 +141,9 @@ func checkBetween(e *ast.ExprNode) *ParseError {
 		}
 		return nil
 	}
+	if e.RVals[1].Type() == ast.TypeTime {
+		return ErrorAt(e.RVals[1].Pos(), "second argument must also be a numeric value")
+	}
 
 	var l, r float64
 	switch lnv := e.RVals[0].(type) {
-- 
2.43.0


From 01564c528a52de46fa164433caee186c3d4e05f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:04 +0000
Subject: [PATCH 05/28] fix: reject fields made only of stars and keep quoted
 star keys

Removing the legacy stars could leave an empty path, and matching such a query
panicked. A quoted "*" is a key name and was dropped as well.
---
 internal/grammar/aql.peg       | 39 ++++++++++++++++------------------
 internal/grammar/parser_gen.go | 39 ++++++++++++++++------------------
 2 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 963e117..42874ab 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -152,25 +152,18 @@ func toString(label any) (string, error) {
 	}
 	return sb.String(), nil
 }
-// helper methods to remove legacy star syntax
-func removeStars(ss []string) []string {
-	for {
-		i := findStarIdx(ss)
-		if i < 0 {
-			break
+// legacyStar is the value of an unquoted star, as opposed to a key named "*"
+type legacyStar struct{}
+
+// helper method to remove legacy star syntax
+func removeStars(pieces []any) []string {
+	out := []string{}
+	for _, p := range pieces {
+		if s, ok := p.(string); ok {
+			out = append(out, s)
 		}
-		ss = append(ss[:i], ss[i+1:]...)
 	}
-	return ss
-}
-
-func findStarIdx(ss []string) int {
-	for i, s := range ss {
-		if s == "*" {
-			return i
-		}
-	}
-	return -1
+	return out
 }
 }
 
@@ -257,14 +250,18 @@ Field <- pieces:(FieldPiece ('.' FieldPiece)*) {
         return nil, fmt.Errorf("empty field")
     }
     // remove stars for now, they are redundant legacy syntax
-    field := []string{piecesSl[0].(string)}
+    all := []any{piecesSl[0]}
     restSl := toAny(piecesSl[1])
     for _, v := range restSl {
         vSl := toAny(v)
-        field = append(field, vSl[1].(string))
+        all = append(all, vSl[1])
     }
 
-    return removeStars(field), nil
+    field := removeStars(all)
+    if len(field) == 0 {
+        return nil, fmt.Errorf("field consists of nothing but [*]")
+    }
+    return field, nil
 }
 
 FieldPiece <- QuotedFieldPiece / UnquotedFieldPiece / Star
@@ -280,7 +277,7 @@ QuotedFieldPiece <- qv:QuotedValue {
 
 // TODO: Remove Star
 Star <- '*' {
-    return "*", nil
+    return legacyStar{}, nil
 }
 
 /*****
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index b02745d..12d9e19 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -165,25 +165,18 @@ func toString(label any) (string, error) {
 	return sb.String(), nil
 }
 
-// helper methods to remove legacy star syntax
-func removeStars(ss []string) []string {
-	for {
-		i := findStarIdx(ss)
-		if i < 0 {
-			break
+// legacyStar is the value of an unquoted star, as opposed to a key named "*"
+type legacyStar struct{}
+
+// helper method to remove legacy star syntax
+func removeStars(pieces []any) []string {
+	out := []string{}
+	for _, p := range pieces {
+		if s, ok := p.(string); ok {
+			out = append(out, s)
 		}
-		ss = append(ss[:i], ss[i+1:]...)
 	}
-	return ss
-}
-
-func findStarIdx(ss []string) int {
-	for i, s := range ss {
-		if s == "*" {
-			return i
-		}
-	}
-	return -1
+	return out
 }
 
 var g = &grammar{
@@ -1991,14 +1984,18 @@ func (c *current) onField1(pieces interface{}) (interface{}, error) {
 		return nil, fmt.Errorf("empty field")
 	}
 	// remove stars for now, they are redundant legacy syntax
-	field := []string{piecesSl[0].(string)}
+	all := []any{piecesSl[0]}
 	restSl := toAny(piecesSl[1])
 	for _, v := range restSl {
 		vSl := toAny(v)
-		field = append(field, vSl[1].(string))
+		all = append(all, vSl[1])
 	}
 
-	return removeStars(field), nil
+	field := removeStars(all)
+	if len(field) == 0 {
+		return nil, fmt.Errorf("field consists of nothing but [*]")
+	}
+	return field, nil
 }
 
 func (p *parser) callonField1() (interface{}, error) {
@@ -2029,7 +2026,7 @@ func (p *parser) callonQuotedFieldPiece1() (interface{}, error) {
 }
 
 func (c *current) onStar1() (interface{}, error) {
-	return "*", nil
+	return legacyStar{}, nil
 }
 
 func (p *parser) callonStar1() (interface{}, error) {
-- 
2.43.0


From 83541313f5980997b8ea22858db09749479d4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:05 +0000
Subject: [PATCH 06/28] fix: honour the type of the document root when
 following a path

The root was always treated as an object: a document that is an array of
objects never matched, and looking up an empty key in one panicked.
---
 jsonmatcher/json_values.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 547400a..fcc865a 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -21,7 +21,11 @@ type field struct {
 
 // TODO: cache paths
 func getField(path []string, root []byte) *field {
-	values := getValues(path, root, jsonparser.Object)
+	data, dataType, _, err := jsonparser.Get(root)
+	if err != nil {
+		return &field{}
+	}
+	values := getValues(path, data, dataType)
 	return &field{
 		values: values,
 	}
-- 
2.43.0


From 0e3cb06671891dea74d86c2203f641f867fd67b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:48 +0000
Subject: [PATCH 07/28] fix: find search strings that start or end with
 punctuation

A word boundary was required at both ends of every search string, so that the
README example level1.level2.level3:"here!" did not match "here!".
---
 jsonmatcher/str_matchers.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/str_matchers.go b/jsonmatcher/str_matchers.go
index 3a72a61..0bd24a2 100644
--- a/jsonmatcher/str_matchers.go
+++ b/jsonmatcher/str_matchers.go
@@ -30,7 +30,8 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	var buf bytes.Buffer
 	buf.WriteString(`(?i)`)
 	asciiOnly := isASCII(wcString)
-	if asciiOnly {
+	startsBounded, endsBounded := boundedEdges(wcRunes)
+	if asciiOnly && startsBounded {
 		buf.WriteString(`\b`)
 	}
 	var accum bytes.Buffer
@@ -61,12 +62,30 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	}
 	// write whatever remains in the accumulator
 	buf.WriteString(regexp.QuoteMeta(accum.String()))
-	if asciiOnly {
+	if asciiOnly && endsBounded {
 		buf.WriteString(`\b`)
 	}
 	return regexp.MustCompile(buf.String())
 }
 
+// boundedEdges reports whether the search string starts and ends with something
+// that can be at a word boundary: a word character or a wildcard. There is no
+// boundary to ask for around punctuation or spaces.
+func boundedEdges(wcRunes []rune) (start, end bool) {
+	if len(wcRunes) == 0 {
+		return false, false
+	}
+	bounded := func(i int) bool {
+		switch r := wcRunes[i]; {
+		case r == '?' || r == '*':
+			return i == 0 || wcRunes[i-1] != '\\'
+		default:
+			return r == '_' || '0' <= r && r <= '9' || 'a' <= r && r <= 'z'
+		}
+	}
+	return bounded(0), bounded(len(wcRunes) - 1)
+}
+
 type unicodeMatcher struct {
 	pat *search.Pattern
 }
-- 
2.43.0


From e6ebac2f4245c77d2f4df11841c4b52762f3c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:07 +0000
Subject: [PATCH 08/28] fix: compare timestamps as instants instead of
 nanosecond counts

Nanosecond counts overflow before 1678 and after 2262, which made comparisons
with such timestamps wrong.
---
 jsonmatcher/expr_between.go  |  7 ++++---
 jsonmatcher/expr_datetime.go | 15 ++++++++-------
 jsonmatcher/expr_eq.go       |  8 ++++----
 jsonmatcher/expr_numeric.go  |  3 ++-
 jsonmatcher/json_values.go   |  9 +++++----
 5 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/jsonmatcher/expr_between.go b/jsonmatcher/expr_between.go
index 7605a14..4a7ede8 100644
--- a/jsonmatcher/expr_between.go
+++ b/jsonmatcher/expr_between.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -37,9 +38,9 @@ func exprBetween(RVals []ast.Val) fieldExpr {
 		// datetime between
 		// 2nd argument guaranteed by validator
 		return &exprDatetime{
-			values: [2]int64{
-				RVals[0].(*ast.TimeVal).Value().UnixNano(),
-				RVals[1].(*ast.TimeVal).Value().UnixNano(),
+			values: [2]time.Time{
+				RVals[0].(*ast.TimeVal).Value(),
+				RVals[1].(*ast.TimeVal).Value(),
 			},
 			op: ast.BET,
 		}
diff --git a/jsonmatcher/expr_datetime.go b/jsonmatcher/expr_datetime.go
index bd45ecc..a4adf90 100644
--- a/jsonmatcher/expr_datetime.go
+++ b/jsonmatcher/expr_datetime.go
@@ -2,12 +2,13 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
 
 type exprDatetime struct {
-	values [2]int64
+	values [2]time.Time
 	op     ast.Op
 }
 
@@ -19,27 +20,27 @@ func (e *exprDatetime) matches(field *field) bool {
 		}
 		switch e.op {
 		case ast.EQ:
-			if dv == e.values[0] {
+			if dv.Equal(e.values[0]) {
 				return true
 			}
 		case ast.LT:
-			if dv < e.values[0] {
+			if dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.LTE:
-			if dv <= e.values[0] {
+			if !dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GT:
-			if dv > e.values[0] {
+			if dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GTE:
-			if dv >= e.values[0] {
+			if !dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.BET:
-			if dv >= e.values[0] && dv <= e.values[1] {
+			if !dv.Before(e.values[0]) && !dv.After(e.values[1]) {
 				return true
 			}
 		// backstop
diff --git a/jsonmatcher/expr_eq.go b/jsonmatcher/expr_eq.go
index 4f8433c..55b4012 100644
--- a/jsonmatcher/expr_eq.go
+++ b/jsonmatcher/expr_eq.go
@@ -44,17 +44,17 @@ func exprEQ(RVals []ast.Val) []fieldExpr {
 			})
 		case *ast.TimeVal:
 			if rval.DayOnly() {
-				endOfDay := rval.Value().Add(24*time.Hour).UnixNano() - 1
+				endOfDay := rval.Value().Add(24*time.Hour - 1)
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{
-						rval.Value().UnixNano(),
+					values: [2]time.Time{
+						rval.Value(),
 						endOfDay,
 					},
 					op: ast.BET,
 				})
 			} else {
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{rval.Value().UnixNano()},
+					values: [2]time.Time{rval.Value()},
 					op:     ast.EQ,
 				})
 			}
diff --git a/jsonmatcher/expr_numeric.go b/jsonmatcher/expr_numeric.go
index e5273d5..e0480d9 100644
--- a/jsonmatcher/expr_numeric.go
+++ b/jsonmatcher/expr_numeric.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -24,7 +25,7 @@ func exprNumeric(op ast.Op, RVals []ast.Val) fieldExpr {
 		}
 	case *ast.TimeVal:
 		return &exprDatetime{
-			values: [2]int64{v.Value().UnixNano()},
+			values: [2]time.Time{v.Value()},
 			op:     op,
 		}
 	default:
diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index fcc865a..eeb4c7b 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"time"
 
 	"github.com/araddon/dateparse"
 	"github.com/buger/jsonparser"
@@ -158,19 +159,19 @@ func getBoolVal(v jsonValue) (boolVal bool, found bool) {
 	return false, false
 }
 
-func getDatetimeVal(v jsonValue) (intVal int64, found bool) {
+func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	// TODO: tighten this up for numstrings. Probably want to be more careful
 	// about what we consider a date with how flexible dateparse is. Maybe a
 	// special getStringVal() that only accepts int-like unix epochs.
 	sv, ok := getStringVal(v)
 	if !ok {
-		return 0, false
+		return time.Time{}, false
 	}
 	t, err := dateparse.ParseAny(sv)
 	if err != nil {
-		return 0, false
+		return time.Time{}, false
 	}
-	return t.UnixNano(), true
+	return t, true
 }
 
 // true:
-- 
2.43.0


From 28da397b1757525b4f16a74c4323c9878f1d2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:42 +0000
Subject: [PATCH 09/28] fix: remove exactly the delimiters and slash escapes
 from a regex

All leading and trailing slashes were trimmed after unescaping, so /\/etc/
matched "etc", and an escaped backslash before the closing slash was mangled.
---
 internal/grammar/aql.peg       | 17 ++++++++++++++++-
 internal/grammar/parser_gen.go | 17 ++++++++++++++++-
 jsonmatcher/query_messages.go  |  2 +-
 parser/ast/ast.go              |  2 +-
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 42874ab..d333ac8 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -152,6 +152,21 @@ func toString(label any) (string, error) {
 	}
 	return sb.String(), nil
 }
+// helper method to unescape slashes, leaving all other escapes to the regexp
+func unescapeSlashes(text []byte) []byte {
+	out := make([]byte, 0, len(text))
+	for i := 0; i < len(text); i++ {
+		if text[i] == '\\' && i+1 < len(text) {
+			if text[i+1] != '/' {
+				out = append(out, '\\')
+			}
+			i++
+		}
+		out = append(out, text[i])
+	}
+	return out
+}
+
 // legacyStar is the value of an unquoted star, as opposed to a key named "*"
 type legacyStar struct{}
 
@@ -338,7 +353,7 @@ ValueChars <- [a-zA-Z0-9 !]
 
 RegexValue <- '/' RegexChar* EndingSlash {
     pos := getpos(c)
-    c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
+    c.text = unescapeSlashes(c.text)
     val, err := ast.NewRegexpVal(c.text, pos)
     if err != nil {
         return nil, tokErr(pos, err)
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index 12d9e19..0e88f11 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -165,6 +165,21 @@ func toString(label any) (string, error) {
 	return sb.String(), nil
 }
 
+// helper method to unescape slashes, leaving all other escapes to the regexp
+func unescapeSlashes(text []byte) []byte {
+	out := make([]byte, 0, len(text))
+	for i := 0; i < len(text); i++ {
+		if text[i] == '\\' && i+1 < len(text) {
+			if text[i+1] != '/' {
+				out = append(out, '\\')
+			}
+			i++
+		}
+		out = append(out, text[i])
+	}
+	return out
+}
+
 // legacyStar is the value of an unquoted star, as opposed to a key named "*"
 type legacyStar struct{}
 
@@ -2104,7 +2119,7 @@ func (p *parser) callonQuotedValue2() (interface{}, error) {
 
 func (c *current) onRegexValue2() (interface{}, error) {
 	pos := getpos(c)
-	c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
+	c.text = unescapeSlashes(c.text)
 	val, err := ast.NewRegexpVal(c.text, pos)
 	if err != nil {
 		return nil, tokErr(pos, err)
diff --git a/jsonmatcher/query_messages.go b/jsonmatcher/query_messages.go
index 49828cd..6f55e10 100644
--- a/jsonmatcher/query_messages.go
+++ b/jsonmatcher/query_messages.go
@@ -24,7 +24,7 @@ func messageVisitor(node ast.Node, tape *parser.MessageTape) error {
 				if n.Op == ast.SIM {
 					tape.WarningAt(rv.Pos(), "Similarity comparison is no longer necessary for regular expressions. Please use the normal comparison operator - field:/<regular expression/")
 				}
-				reStr := strings.Trim(v.String(), `/`)
+				reStr := rv.Value().String()
 				if strings.HasPrefix(reStr, "(?i)") && !isASCII(v.String()) {
 					tape.WarningAt(rv.Pos(), `Case-insensitive regular expression %s contains unicode characters. This may not work as intended. Consider a fuzzy match - 'field:~("value", "language")`, v.String())
 				}
diff --git a/parser/ast/ast.go b/parser/ast/ast.go
index bb7be02..7622e4b 100644
--- a/parser/ast/ast.go
+++ b/parser/ast/ast.go
@@ -339,7 +339,7 @@ type RegexpVal struct {
 
 func NewRegexpVal(b []byte, pos Pos) (*RegexpVal, error) {
 	sv := string(b)
-	rv, err := regexp.Compile(strings.Trim(sv, `/`))
+	rv, err := regexp.Compile(strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`))
 	if err != nil {
 		return nil, fmt.Errorf("invalid regular expression [%s]: %v", sv, err)
 	}
-- 
2.43.0


From cd93bdfa21c2c79cf3fab792d93622178ec05cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:43 +0000
Subject: [PATCH 10/28] fix: do not take a trailing escaped dot for a redundant
 .*

---
 jsonmatcher/query_messages.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/query_messages.go b/jsonmatcher/query_messages.go
index 6f55e10..496acab 100644
--- a/jsonmatcher/query_messages.go
+++ b/jsonmatcher/query_messages.go
@@ -29,7 +29,7 @@ func messageVisitor(node ast.Node, tape *parser.MessageTape) error {
 					tape.WarningAt(rv.Pos(), `Case-insensitive regular expression %s contains unicode characters. This may not work as intended. Consider a fuzzy match - 'field:~("value", "language")`, v.String())
 				}
 				reStr = strings.TrimPrefix(reStr, "(?i)")
-				if strings.HasPrefix(reStr, ".*") || strings.HasSuffix(reStr, ".*") {
+				if strings.HasPrefix(reStr, ".*") || endsInDotStar(reStr) {
 					tape.HintAt(rv.Pos(), "regular expression %s does not need to begin or end with \".*\", as this is redundant.", v.String())
 				}
 				reg, err := syntax.Parse(rv.Value().String(), syntax.Perl)
@@ -63,6 +63,14 @@ func messageVisitor(node ast.Node, tape *parser.MessageTape) error {
 	return nil
 }
 
+// endsInDotStar returns whether the expression ends in ".*", and the dot is not
+// an escaped one
+func endsInDotStar(reStr string) bool {
+	before := strings.TrimSuffix(reStr, ".*")
+	escapes := len(before) - len(strings.TrimRight(before, `\`))
+	return before != reStr && escapes%2 == 0
+}
+
 func doesSomethingSpecial(r *syntax.Regexp) bool {
 	if len(r.Sub) == 1 {
 		switch r.Op {
-- 
2.43.0


From 620a5bc59bb7db93f902351f8a490f4aeaf456dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:31 +0000
Subject: [PATCH 11/28] fix: treat a negative sampling depth as no limit

New documents that a depth below zero means no limit, but nothing was sampled
at all.
---
 sampler/sampler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 2f6e8a8..a3a66fb 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -73,7 +73,7 @@ func (s *Sampler) Sample(sample []byte) error {
 }
 
 func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
-	if depth > s.maxDepth {
+	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
 	switch valType {
-- 
2.43.0


From 2abf9a663cd8481242e5db1fcc4c52d0140c11eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:31 +0000
Subject: [PATCH 12/28] fix: return an error instead of panicking on an empty
 sample

---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index a3a66fb..30b2284 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -2,6 +2,7 @@ package sampler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/buger/jsonparser"
@@ -38,6 +39,9 @@ func New(maxDepth int) *Sampler {
 }
 
 func (s *Sampler) Sample(sample []byte) error {
+	if len(sample) == 0 {
+		return errors.New("sample is empty")
+	}
 	var rootObj jsonparser.ValueType
 	sampleLen := len(sample)
 	// prep to get 100 characters or so to print if it looks weird, so that
-- 
2.43.0


From 4ce8a27f017453394b3ccb334940506358b20ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:31 +0000
Subject: [PATCH 13/28] fix: do not panic on scalars directly in a root array

There is no key above such a value, and the empty path was sliced.
---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 30b2284..fb2fb73 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -119,6 +119,10 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 	case jsonparser.Unknown:
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
+		if path.Len() == 0 {
+			// no key leads to this value
+			return nil
+		}
 		// TODO Track types found for UI hinting
 		s.keys[path.String()[1:]]++
 	}
-- 
2.43.0


From 0c2386274dc9c0ba56a0656cda2dc56be0f9aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:31 +0000
Subject: [PATCH 14/28] fix: leave the sampler as it was when a document is
 rejected

An error discarded the keys of all documents sampled before and made the next
call panic.
---
 sampler/sampler.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index fb2fb73..67f3004 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -66,17 +66,20 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
-	err := s.sample(sample, path, depth, rootObj)
+	found := make(map[string]uint)
+	err := s.sample(sample, path, depth, rootObj, found)
 	if err != nil {
-		s.keys = nil
 		return err
 	}
 
+	for key, count := range found {
+		s.keys[key] += count
+	}
 	s.totalDocs++
 	return nil
 }
 
-func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
+func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]uint) error {
 	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
@@ -92,7 +95,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			} else {
 				path.Write(key)
 			}
-			if err := s.sample(value, path, depth+1, dataType); err != nil {
+			if err := s.sample(value, path, depth+1, dataType, found); err != nil {
 				return err
 			}
 			path.Truncate(pl)
@@ -110,7 +113,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			if dataType == jsonparser.Array {
 				return
 			}
-			aerr = s.sample(value, path, depth, dataType)
+			aerr = s.sample(value, path, depth, dataType, found)
 		})
 		if err == nil {
 			err = aerr
@@ -124,7 +127,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			return nil
 		}
 		// TODO Track types found for UI hinting
-		s.keys[path.String()[1:]]++
+		found[path.String()[1:]]++
 	}
 	return nil
 }
-- 
2.43.0


From 317d8bb3a4cbcce66a31cc1f489352dfab258528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:31 +0000
Subject: [PATCH 15/28] fix: quote sampled keys so that the paths can be used
 in queries

Only keys with spaces were quoted. Keys with dots, quotes, or other characters
that are not allowed in a plain field name gave paths that do not parse or that
name a different field.
---
 sampler/sampler.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 67f3004..c297cb7 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"regexp"
 
 	"github.com/buger/jsonparser"
 )
@@ -88,13 +89,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 		pl := path.Len()
 		return jsonparser.ObjectEach(current, func(key []byte, value []byte, dataType jsonparser.ValueType, _ int) error {
 			path.WriteString(".")
-			if bytes.ContainsAny(key, " ") {
-				path.WriteString(`"`)
-				path.Write(key)
-				path.WriteString(`"`)
-			} else {
-				path.Write(key)
-			}
+			writeKey(path, key)
 			if err := s.sample(value, path, depth+1, dataType, found); err != nil {
 				return err
 			}
@@ -132,6 +127,30 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 	return nil
 }
 
+var plainKey = regexp.MustCompile(`^[A-Za-z0-9_-]+$`)
+
+// writeKey writes a key the way it is written in the field of a query, quoting
+// it if it is not a plain name.
+func writeKey(path *bytes.Buffer, key []byte) {
+	if plainKey.Match(key) {
+		path.Write(key)
+		return
+	}
+	path.WriteByte('"')
+	for _, b := range key {
+		switch {
+		case b == '"' || b == '\\':
+			path.WriteByte('\\')
+			path.WriteByte(b)
+		case b < ' ':
+			fmt.Fprintf(path, `\u%04x`, b)
+		default:
+			path.WriteByte(b)
+		}
+	}
+	path.WriteByte('"')
+}
+
 func (s *Sampler) Keys() []string {
 	out := make([]string, 0, len(s.keys))
 	for key := range s.keys {
-- 
2.43.0


From 369dd11718dc88a91a955512eb401b439775158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:14 +0000
Subject: [PATCH 16/28] fix: mark the right characters in queries with
 multi-byte text

Positions count bytes, but were used to index the runes of the query: the
marker was off, or printing failed altogether.
---
 parser/fmtmsg/formatter.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index f22745a..5a6711f 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strings"
 	ttemplate "text/template"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -60,6 +61,7 @@ func NewFormatter(tmpl string, html bool, maxWidth int) (*Formatter, error) {
 func (f *Formatter) WithQuery(query string) *Printer {
 	return &Printer{
 		formatter: f,
+		text:      query,
 		query:     []rune(query),
 	}
 }
@@ -67,6 +69,7 @@ func (f *Formatter) WithQuery(query string) *Printer {
 // Printer prints messages for a given query.
 type Printer struct {
 	formatter *Formatter
+	text      string
 	query     []rune
 }
 
@@ -88,7 +91,7 @@ func (p *Printer) getPrintData(m Message) *printData {
 	pData := &printData{
 		msgType: msgUnknown,
 		query:   p.query,
-		pos:     m.Pos(),
+		pos:     p.runePos(m.Pos()),
 		lo:      0,
 		ro:      len(p.query),
 		HasHL:   m.Pos() != ast.NoPosition(),
@@ -113,6 +116,14 @@ func (p *Printer) getPrintData(m Message) *printData {
 	return pData
 }
 
+// runePos returns pos with its offset counted in runes instead of bytes.
+func (p *Printer) runePos(pos ast.Pos) ast.Pos {
+	if pos.Offset > 0 && pos.Offset <= len(p.text) {
+		pos.Offset = utf8.RuneCountInString(p.text[:pos.Offset])
+	}
+	return pos
+}
+
 type msgType string
 
 const (
-- 
2.43.0


From 90b2b74bdbc78e7f94b9a359f34d4c8ed6016466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:14 +0000
Subject: [PATCH 17/28] fix: show messages whose highlight ends outside of the
 excerpt

Messages about the end of a query or about text wider than the excerpt failed
to print with slice bounds out of range.
---
 parser/fmtmsg/formatter.go | 12 +++++++++---
 parser/fmtmsg/truncate.go  |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index 5a6711f..7e62c7b 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -148,7 +148,13 @@ func (m *printData) Type() string {
 }
 
 func (m *printData) HLLen() int {
-	return m.pos.Len
+	return max(m.hlEnd()-m.pos.Offset, 1)
+}
+
+// hlEnd is where the visible part of the highlight ends. The highlight can
+// extend past the excerpt, and past the query if something is missing there.
+func (m *printData) hlEnd() int {
+	return min(m.pos.Offset+m.pos.Len, m.ro)
 }
 
 func (m *printData) HLStrOffset() int {
@@ -190,7 +196,7 @@ func (m *printData) QueryHL() string {
 	if !m.HasHL {
 		return ""
 	}
-	return string(m.query[m.pos.Offset : m.pos.Offset+m.pos.Len])
+	return string(m.query[m.pos.Offset:m.hlEnd()])
 }
 
 func (m *printData) QueryPost() string {
@@ -198,7 +204,7 @@ func (m *printData) QueryPost() string {
 		return ""
 	}
 	var sb strings.Builder
-	sb.WriteString(string(m.query[m.pos.Offset+m.pos.Len : m.ro]))
+	sb.WriteString(string(m.query[m.hlEnd():m.ro]))
 	if m.ro < (len(m.query)) {
 		sb.WriteString("...")
 	}
diff --git a/parser/fmtmsg/truncate.go b/parser/fmtmsg/truncate.go
index 4f80213..cc4ee17 100644
--- a/parser/fmtmsg/truncate.go
+++ b/parser/fmtmsg/truncate.go
@@ -26,6 +26,7 @@ func findCenterSubstring(r []rune, windowSize int, startOffset int, endOffset in
 	if substringLen >= windowSize {
 		// If the specified substring length is greater than or equal to
 		// the window size, return the substring truncated on the right to windowSize
+		startOffset = min(startOffset, strLen-windowSize)
 		return startOffset, startOffset + windowSize
 	}
 
-- 
2.43.0


From 112749bfaa27f5285407c86e977215ae6160cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:31 +0000
Subject: [PATCH 18/28] fix: parse nested groups in linear time

Every level of parentheses multiplied the work by four, so that a dozen levels
were enough to make a query hang.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3b33f72..31770f2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -26,7 +26,7 @@ func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
 	for _, o := range options {
 		o(opts)
 	}
-	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug))
+	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug), grammar.Memoize(true))
 	if err != nil {
 		return nil, grammar.GetParseError(err)
 	}
-- 
2.43.0


From d86fd9e86c2eb884ea6a7596e6a3334f5a8a9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:43 +0000
Subject: [PATCH 19/28] fix: escape fields and values in graph labels

Markup characters in a query were taken for HTML by graphviz, which then failed
to draw the graph.
---
 aqlgraph/node_html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index f91df89..e03a9a4 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -38,7 +38,7 @@ type NodeVal struct {
 
 var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +53,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From 9231bc508307959f580f454317467c23a4fb0dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:02 +0000
Subject: [PATCH 20/28] fix: resolve escapes before reading a string as a
 number

{"a": "\u0031"} is the same document as {"a": "1"}, but only the latter
matched a:1.
---
 jsonmatcher/json_values.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index eeb4c7b..b2238c7 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -139,7 +139,16 @@ func getStringVal(v jsonValue) (stringVal string, isStringy bool) {
 func getNumberVal(v jsonValue) (floatVal float64, isNumeric bool) {
 	switch v.dataType {
 	case jsonparser.String, jsonparser.Number:
-		fv, err := jsonparser.ParseFloat(v.data)
+		data := v.data
+		if v.dataType == jsonparser.String {
+			// resolve escapes
+			sv, err := jsonparser.ParseString(data)
+			if err != nil {
+				return math.NaN(), false
+			}
+			data = []byte(sv)
+		}
+		fv, err := jsonparser.ParseFloat(data)
 		if err != nil {
 			return math.NaN(), false
 		}
-- 
2.43.0


From 2cd7bc69b03efd1995a4b72ea25a33d4b6bbbdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:12 +0000
Subject: [PATCH 21/28] fix: do not take text without digits for a date

---
 jsonmatcher/json_values.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index b2238c7..8b33ff5 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/araddon/dateparse"
@@ -176,6 +177,10 @@ func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	if !ok {
 		return time.Time{}, false
 	}
+	// dateparse takes some texts such as "a, " for dates
+	if !strings.ContainsAny(sv, "0123456789") {
+		return time.Time{}, false
+	}
 	t, err := dateparse.ParseAny(sv)
 	if err != nil {
 		return time.Time{}, false
-- 
2.43.0


From 8a6c65e97c83a0456149027bff49a8c861ce17b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:24 +0000
Subject: [PATCH 22/28] fix: draw graphs of queries with control characters

---
 aqlgraph/node_html.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index e03a9a4..f6b4ee7 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -1,6 +1,10 @@
 package aqlgraph
 
-import "text/template"
+import (
+	"fmt"
+	"strings"
+	"text/template"
+)
 
 const (
 	colorAnd = `#f59722`
@@ -36,9 +40,23 @@ type NodeVal struct {
 	Color   string
 }
 
-var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
+// visible spells out the characters that must not appear in a label.
+func visible(text string) string {
+	var sb strings.Builder
+	for _, r := range text {
+		switch {
+		case r < ' ' && r != '\t' && r != '\n' && r != '\r', r == 0xfffe, r == 0xffff:
+			fmt.Fprintf(&sb, `\x%02x`, r)
+		default:
+			sb.WriteRune(r)
+		}
+	}
+	return sb.String()
+}
+
+var labelTmpl = template.Must(template.New("").Funcs(template.FuncMap{"visible": visible}).Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|html }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|visible|html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +71,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|html }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|visible|html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From 0f45c957d7fbe94941b13259c2e57298a1aecd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:07 +0000
Subject: [PATCH 23/28] fix: show backslashes and ampersands in drawings as
 they are

Graphviz resolves backslash escapes in all labels and character references in
the caption, so the picture of f:/\\d/ showed f:/\d/ and the caption of f:/\d/
read f:/d/.
---
 aqlgraph/graph.go     |  2 +-
 aqlgraph/node_html.go | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index caa39aa..c8f01e6 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -71,7 +71,7 @@ func QueryGraph(query string) (*Graph, error) {
 	ng := &namegraph{
 		Graph: g,
 	}
-	ng.SetLabel(query).
+	ng.SetLabel(caption(query)).
 		SetLabelLocation(cgraph.TopLocation).
 		SetLabelJust(cgraph.CenteredJust).
 		SetNodeSeparator(0.5).
diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index f6b4ee7..6052e64 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -40,13 +40,16 @@ type NodeVal struct {
 	Color   string
 }
 
-// visible spells out the characters that must not appear in a label.
+// visible spells out the characters that must not appear in a label, and
+// doubles backslashes, which graphviz takes for the start of an escape.
 func visible(text string) string {
 	var sb strings.Builder
 	for _, r := range text {
 		switch {
 		case r < ' ' && r != '\t' && r != '\n' && r != '\r', r == 0xfffe, r == 0xffff:
-			fmt.Fprintf(&sb, `\x%02x`, r)
+			fmt.Fprintf(&sb, `\\x%02x`, r)
+		case r == '\\':
+			sb.WriteString(`\\`)
 		default:
 			sb.WriteRune(r)
 		}
@@ -54,6 +57,11 @@ func visible(text string) string {
 	return sb.String()
 }
 
+// caption writes a text so that graphviz shows it as it is.
+func caption(text string) string {
+	return strings.ReplaceAll(visible(text), "&", "&amp;")
+}
+
 var labelTmpl = template.Must(template.New("").Funcs(template.FuncMap{"visible": visible}).Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
 	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|visible|html }}</TD>
-- 
2.43.0


From e3a9733d64e23911cbb8f7e46b34402a12493b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:07 +0000
Subject: [PATCH 24/28] fix: report positions to the browser in UTF-16 code
 units

The page takes start and end for indexes into a JavaScript string. Byte offsets
marked the wrong text after any non-ASCII character.
---
 wasm/aqlparse/main.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/wasm/aqlparse/main.go b/wasm/aqlparse/main.go
index 49e22cb..afa28cb 100644
--- a/wasm/aqlparse/main.go
+++ b/wasm/aqlparse/main.go
@@ -7,8 +7,11 @@ import (
 	"fmt"
 	"strings"
 	"syscall/js"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
+	"github.com/flowchartsman/aql/parser/ast"
 )
 
 func parseAQL(query string) (string, []*parser.ParserMessage, error) {
@@ -24,19 +27,35 @@ func parseAQL(query string) (string, []*parser.ParserMessage, error) {
 	return string(tree), visitor.Messages(), nil
 }
 
+// jsRange converts a position in the query to a start and end in a JavaScript
+// string, which counts UTF-16 code units.
+func jsRange(input string, pos ast.Pos) (start, end int) {
+	if pos.Offset < 0 || pos.Offset > len(input) {
+		return pos.Offset, pos.Offset + pos.Len
+	}
+	marked := []rune(input[pos.Offset:])
+	if pos.Len < len(marked) {
+		marked = marked[:pos.Len]
+	}
+	start = len(utf16.Encode([]rune(input[:pos.Offset])))
+	return start, start + len(utf16.Encode(marked))
+}
+
 func errConvert(err error, input string) map[string]any {
 	if pe, ok := err.(*parser.ParseError); ok {
 		msg := pe.Msg
 		if strings.HasPrefix(msg, "no match found") {
 			msg = "incomplete query"
-			pe.Position.Offset = len(input) - 1
+			_, size := utf8.DecodeLastRuneInString(input)
+			pe.Position.Offset = len(input) - size
 			pe.Position.Len = 1
 		}
+		start, end := jsRange(input, pe.Position)
 		return map[string]any{
 			"type":  "error",
 			"msg":   msg,
-			"start": pe.Position.Offset,
-			"end":   pe.Position.Offset + pe.Position.Len,
+			"start": start,
+			"end":   end,
 		}
 	} else {
 		return map[string]any{
@@ -55,11 +74,12 @@ func msgConvert(msg *parser.ParserMessage, input string) map[string]any {
 	case parser.MsgError:
 		msgType = "error"
 	}
+	start, end := jsRange(input, msg.Position)
 	return map[string]any{
 		"type":  msgType,
 		"msg":   msg.Msg,
-		"start": msg.Position.Offset,
-		"end":   msg.Position.Offset + msg.Position.Len,
+		"start": start,
+		"end":   end,
 	}
 }
 
-- 
2.43.0


From fe1ff03e837949696dae8ec4a04d0e5d641a0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:07 +0000
Subject: [PATCH 25/28] fix: give the browser the matcher's advice on regular
 expressions

The copy of the visitor still took a trailing escaped dot for a redundant .*
and trimmed more slashes than the delimiters.
---
 wasm/aqlparse/warnings.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wasm/aqlparse/warnings.go b/wasm/aqlparse/warnings.go
index 34408f7..884a0ff 100644
--- a/wasm/aqlparse/warnings.go
+++ b/wasm/aqlparse/warnings.go
@@ -21,12 +21,12 @@ func warningVisitor(node ast.Node, tape *parser.MessageTape) error {
 				if n.Op == ast.SIM {
 					tape.WarningAt(n.Pos(), "Similarity comparison is no longer necessary for regular expressions and will eventually be removed. Please use the normal comparison operator - field:/<regular expression/")
 				}
-				reStr := strings.Trim(v.String(), `/`)
+				reStr := rv.Value().String()
 				if strings.HasPrefix(reStr, "(?i)") && !isASCII(v.String()) {
 					tape.WarningAt(rv.Pos(), `Case-insensitive regular expression %s contains unicode characters. This may not work as intended. Consider a fuzzy match - 'field:~("value", "language")`, v.String())
 				}
 				reStr = strings.TrimPrefix(reStr, "(?i)")
-				if strings.HasPrefix(reStr, ".*") || strings.HasSuffix(reStr, ".*") {
+				if strings.HasPrefix(reStr, ".*") || endsInDotStar(reStr) {
 					tape.HintAt(rv.Pos(), "regular expression %s does not need to begin or end with \".*\", as this is redundant.", v.String())
 				}
 				reg, err := syntax.Parse(rv.Value().String(), syntax.Perl)
@@ -60,6 +60,14 @@ func warningVisitor(node ast.Node, tape *parser.MessageTape) error {
 	return nil
 }
 
+// endsInDotStar returns whether the expression ends in ".*", and the dot is not
+// an escaped one
+func endsInDotStar(reStr string) bool {
+	before := strings.TrimSuffix(reStr, ".*")
+	escapes := len(before) - len(strings.TrimRight(before, `\`))
+	return before != reStr && escapes%2 == 0
+}
+
 func doesSomethingSpecial(r *syntax.Regexp) bool {
 	if len(r.Sub) == 1 {
 		switch r.Op {
-- 
2.43.0


From ce4b9249d1133dcf00e148383eb54ac26f4f334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:18 +0000
Subject: [PATCH 26/28] fix: close index.html after serving it

---
 wasm/aqlparse/server/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/aqlparse/server/main.go b/wasm/aqlparse/server/main.go
index f18204a..a23fed9 100644
--- a/wasm/aqlparse/server/main.go
+++ b/wasm/aqlparse/server/main.go
@@ -50,6 +50,7 @@ func main() {
 			if err != nil {
 				panic("error opening index.html: " + err.Error())
 			}
+			defer f.Close()
 			http.ServeContent(w, r, "index.html", time.Now(), f)
 			return
 		}
-- 
2.43.0


From ce649823eff18710c6e477971a577d508305d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:24:03 +0000
Subject: [PATCH 27/28] fix: escape the slashes of printed regular expressions

Two different lists of expressions could print as the same text, because
a slash inside an expression was printed like the slash that ends it.
---
 parser/ast/ast.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/parser/ast/ast.go b/parser/ast/ast.go
index 7622e4b..bc1aa96 100644
--- a/parser/ast/ast.go
+++ b/parser/ast/ast.go
@@ -344,12 +344,29 @@ func NewRegexpVal(b []byte, pos Pos) (*RegexpVal, error) {
 		return nil, fmt.Errorf("invalid regular expression [%s]: %v", sv, err)
 	}
 	return &RegexpVal{
-		sv:  sv,
+		sv:  `/` + escapeSlashes(rv.String()) + `/`,
 		rv:  rv,
 		pos: pos,
 	}, nil
 }
 
+// escapeSlashes writes the slashes of an expression the way they are written
+// between the slashes that delimit it.
+func escapeSlashes(expr string) string {
+	var sb strings.Builder
+	for i := 0; i < len(expr); i++ {
+		if expr[i] == '/' {
+			sb.WriteByte('\\')
+		}
+		sb.WriteByte(expr[i])
+		if expr[i] == '\\' && i+1 < len(expr) {
+			i++
+			sb.WriteByte(expr[i])
+		}
+	}
+	return sb.String()
+}
+
 func (r *RegexpVal) String() string {
 	return r.sv
 }
-- 
2.43.0


From 013159e8e161736854e8de0cf5c49fa2d7a460a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:29:19 +0000
Subject: [PATCH 28/28] fix: order numbers too large for a float

A number such as 1e400 in a document was not a number to any comparison,
so that it was neither greater nor less than anything.
---
 jsonmatcher/json_values.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 8b33ff5..6ac439c 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -1,6 +1,7 @@
 package jsonmatcher
 
 import (
+	"errors"
 	"math"
 	"regexp"
 	"strconv"
@@ -149,8 +150,10 @@ func getNumberVal(v jsonValue) (floatVal float64, isNumeric bool) {
 			}
 			data = []byte(sv)
 		}
-		fv, err := jsonparser.ParseFloat(data)
-		if err != nil {
+		// a number too large for a float is read as an infinite one, which is
+		// in the right order with all others
+		fv, err := strconv.ParseFloat(string(data), 64)
+		if err != nil && !errors.Is(err, strconv.ErrRange) {
 			return math.NaN(), false
 		}
 		return fv, true
-- 
2.43.0

