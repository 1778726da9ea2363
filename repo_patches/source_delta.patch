From a5af13067e36585318254403b2ea08f50f276868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 01/18] fix: huge slice strides overflowed the index and
 panicked

---
 mach/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 1a1d3e7..9517008 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -552,6 +552,10 @@ func sliceEval(slice *paths.Slice, l int64) (int64, int64, int64) {
 	stride := int64(1)
 	if slice.Stride != nil {
 		stride = cvi(slice.Stride)
+		if stride > l+1 {
+			// selects at most the first item: avoid overflow when stepping
+			stride = l + 1
+		}
 	}
 	start := int64(0)
 	end := int64(l)
-- 
2.43.0


From 54935d78bf6643e7fc34d58dd7166cb7d003005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 02/18] fix: slice of a non-array dropped the values selected
 so far

---
 mach/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 9517008..2d68989 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -721,7 +721,7 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	if isSlice(key) {
 		src, ok := src.([]JSON)
 		if !ok {
-			return nil
+			return vals
 		}
 		slice := key.(*paths.Slice)
 		start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From 97dc0bacea8d6a6c68a2c8500a53df59e8b4cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 03/18] fix: loop without candidates ran its body once

---
 mach/run.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 2d68989..90259d4 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -542,7 +542,14 @@ func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {
 	vm.pushInput(values)
 	go producer(values, vm.out)
 	vm.out = []JSON{}
-	vm.dot = <-values
+	dot, more := <-values
+	if !more {
+		// no values at all: skip the loop
+		vm.popInput()
+		vm.branch(epc)
+		return
+	}
+	vm.dot = dot
 }
 
 // sliceEval returns an interpretation of the given Slice with respect to an array of length l.
-- 
2.43.0


From cf5d68faaf34b07d9b20a384d3d439f96a881ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 04/18] fix: a run-time error inside a loop leaked its producer
 goroutine

---
 mach/run.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 90259d4..8ac8a67 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -89,6 +89,14 @@ func (m *machine) popInput() {
 	m.values = m.values[0 : len(m.values)-1]
 }
 
+// drain consumes the remaining values of unfinished loops, to let their producers finish.
+func (m *machine) drain() {
+	for _, values := range m.values {
+		for range values {
+		}
+	}
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -125,6 +133,7 @@ func (m *machine) valsOK(a, b JSON) bool {
 // Following the usual JavaScript conventions, many other errors do not stop evaluation, but yield a null result, detectable using || and &&.
 func (p *Program) Run(root JSON) ([]JSON, error) {
 	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
+	defer vm.drain()
 	for vm.pc < len(p.orders) {
 		ord := p.orders[vm.pc]
 		vm.pc++
-- 
2.43.0


From 8c74840a6364f92cd121ebcdcb0a3b4e502a4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 05/18] fix: floating-point value of (expr) was not accepted as
 array index

---
 mach/run.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mach/run.go b/mach/run.go
index 8ac8a67..1c028f2 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -757,8 +757,8 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	}
 	switch src := src.(type) {
 	case []JSON:
-		if isInt(key) {
-			// [integer]
+		if isInt(key) || isFloat(key) {
+			// [integer] (a float is the result of (expr), converted to integer)
 			v, ok := valByKey(src, key, negIndex)
 			if ok {
 				vals = append(vals, v)
-- 
2.43.0


From 550ff2800ab0dd897b8450afb545d3d620377185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 06/18] fix: max of strings returned the least

---
 mach/fns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/fns.go b/mach/fns.go
index 21280ba..03542b0 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -350,7 +350,7 @@ func minString(index int, min, el string) string {
 }
 
 func maxString(index int, max, el string) string {
-	if index == 0 || el < max {
+	if index == 0 || el > max {
 		return el
 	}
 	return max
-- 
2.43.0


From 78c7cb4c5006f2199d7c8264722e8df67e5391e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 07/18] fix: avg of an empty array was NaN, not null

---
 mach/fns.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mach/fns.go b/mach/fns.go
index 03542b0..251561e 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -52,6 +52,9 @@ var functions = map[string]Function{
 		1,
 		func(args []JSON) JSON {
 			if a, ok := args[0].([]JSON); ok {
+				if len(a) == 0 {
+					return nil
+				}
 				var sum float64
 				for _, v := range a {
 					if !isArith(v) {
-- 
2.43.0


From 43865bad6170dd2861dcbc8cbfeef5128369f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 08/18] fix: == took a missing object member for null

---
 mach/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 42740c6..f18b1d1 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -247,7 +247,8 @@ func eqVal(a, b JSON) bool {
 				return false
 			}
 			for k, v := range a {
-				if !eqVal(v, b[k]) {
+				w, ok := b[k]
+				if !ok || !eqVal(v, w) {
 					return false
 				}
 			}
-- 
2.43.0


From d246502fc5486079de78cf28cb1562214c506d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 09/18] fix: == of number or boolean and string ignored the
 fraction or JavaScript's numeral syntax

---
 mach/json.go | 60 ++++++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index f18b1d1..ca89855 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -2,10 +2,12 @@ package mach
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"math"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/forsyth/jsonpath/paths"
 )
@@ -114,22 +116,36 @@ func eqArrayN(a []JSON, b JSON) bool {
 	}
 }
 
-// badNum returns true if the string s would result in NaN in JS, where fp requires floating-point.
-func badNum(s string, fp bool) bool {
+// stringNum converts s to Number as JS does (ECMA-262, 5.1, 9.3.1), returning false if the result is NaN.
+func stringNum(s string) (JSON, bool) {
+	s = strings.TrimFunc(s, func(r rune) bool {
+		return r == '\uFEFF' || unicode.IsSpace(r) && r != '\u0085'
+	})
 	if s == "" {
-		return false
+		return int64(0), true // wat!
 	}
-	if !fp {
-		_, err := strconv.ParseInt(s, 10, 64)
-		if err == nil {
-			return false
-		}
+	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
+		return n, true
 	}
-	_, err := strconv.ParseFloat(s, 64)
-	if err != nil {
-		return true
+	if len(s) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
+		n, err := strconv.ParseUint(s[2:], 16, 64)
+		return float64(n), err == nil
 	}
-	return false
+	if strings.TrimLeft(s, "0123456789.eE+-") != "" && strings.TrimLeft(s, "+-") != "Infinity" {
+		// allowed by ParseFloat but not JS
+		return nil, false
+	}
+	f, err := strconv.ParseFloat(s, 64)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
+		return nil, false
+	}
+	return f, true
+}
+
+// eqNumString returns true if n, a Number or Boolean, equals s converted to Number.
+func eqNumString(n JSON, s string) bool {
+	v, ok := stringNum(s)
+	return ok && eqNum(n, v)
 }
 
 // eqNum returns true if numeric values a and b are equal
@@ -158,31 +174,19 @@ func eqVal(a, b JSON) bool {
 			return true
 		case Number<<8 | String:
 			// 11.9.3(4)
-			if badNum(cvs(b), isFloat(a)) {
-				return false
-			}
-			return eqNum(a, b)
+			return eqNumString(a, cvs(b))
 		case String<<8 | Number:
 			// 11.9.3(5)
-			if badNum(cvs(a), isFloat(b)) {
-				return false
-			}
-			return eqNum(a, b)
+			return eqNumString(b, cvs(a))
 		case Boolean<<8 | Number, Number<<8 | Boolean:
 			// 11.9.3(6)
 			return eqNum(a, b)
 		case Boolean<<8 | String:
 			// 11.9.3(6)
-			if badNum(cvs(b), true) {
-				return false
-			}
-			return cvf(a) == cvf(b) // wat!
+			return eqNumString(a, cvs(b)) // wat!
 		case String<<8 | Boolean:
 			// 11.9.3(7)
-			if badNum(cvs(a), true) {
-				return false
-			}
-			return cvf(a) == cvf(b) // wat!
+			return eqNumString(b, cvs(a)) // wat!
 		case Object<<8 | Boolean:
 			// 11.9.3(6) [a == ToNumber(b)]
 			a, ok := a.([]JSON)
-- 
2.43.0


From f80c88b33178ee829f0227c75bb555885deaa95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 10/18] fix: string ending in an escaped quote at the end of
 the text was taken as closed

---
 paths/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paths/lex.go b/paths/lex.go
index aebc49f..37de6d9 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -200,7 +200,9 @@ func (l *lexer) lexString(cq int) (string, error) {
 				}
 				s.WriteRune(rv)
 			}
-			r.unget()
+			if c != eof {
+				r.unget()
+			}
 			if surr != 0 {
 				// surrogate prefix without successor
 				s.WriteRune(unicode.ReplacementChar)
-- 
2.43.0


From c7917479907207378dd8587c924287ba8cec2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 11/18] fix: surrogate pair after an unpaired surrogate was not
 decoded

---
 paths/lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paths/lex.go b/paths/lex.go
index 37de6d9..17bffb8 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -194,7 +194,8 @@ func (l *lexer) lexString(cq int) (string, error) {
 						continue
 					}
 					// invalid surrogate pair: already produced ReplacementChar
-				} else if utf16.IsSurrogate(rv) {
+				}
+				if utf16.IsSurrogate(rv) {
 					surr = rv
 					continue
 				}
-- 
2.43.0


From e25fcc6ac23a0b92dfa9e3e9620f00379536f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 12/18] fix: comment named a function that is gone

---
 mach/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index ca89855..2618338 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -315,7 +315,7 @@ func cvi(v JSON) int64 {
 		}
 		n, err := strconv.ParseInt(v, 10, 64)
 		if err != nil {
-			// should really be NaN, so check first with badNum when required
+			// should really be NaN, so use stringNum when that matters
 			return 0
 		}
 		return n
-- 
2.43.0


From 456897a2dfd1414af2da1806edf1ea7aa2916f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 13/18] fix: jpath -l failed on lines of more than 64k bytes

---
 cmd/jpath/jpath.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 601cd9e..d37d025 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -7,6 +7,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 
@@ -95,6 +96,7 @@ func readValues(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error
 // readLines runs the JSONPath machine against JSON values, one per line, also producing the results on a single line (thus 1:1).
 func readLines(fd *os.File, jpath *jsonpath.JSONPath, enc *json.Encoder) error {
 	input := bufio.NewScanner(fd)
+	input.Buffer(nil, math.MaxInt) // lines can be any length
 	input.Split(bufio.ScanLines)
 	for lno := 1; input.Scan(); lno++ {
 		var root interface{}
-- 
2.43.0


From f95827800c3f36b41f99972e48ed1e1c073cdcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 14/18] fix: jpath exited with status 0 when its output could
 not be written

---
 cmd/jpath/jpath.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index d37d025..a71c574 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -25,7 +25,6 @@ func main() {
 		os.Exit(2)
 	}
 	stdout = bufio.NewWriter(os.Stdout)
-	defer stdout.Flush()
 	jexp := flag.Arg(0)
 	jpath, err := jsonpath.Compile(jexp)
 	if err != nil {
@@ -58,6 +57,9 @@ func main() {
 			errorf("%s", err.Error())
 		}
 	}
+	if err := stdout.Flush(); err != nil {
+		errorf("%s", err.Error())
+	}
 }
 
 func quote(s string) string {
-- 
2.43.0


From 2853ed36206adbd476196fd03f410f52af27f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:38 +0000
Subject: [PATCH 15/18] fix: compare an array of one element as JavaScript does

"[0.5] == false" and "['x'] == 0" were true, because the element was
converted to an integer whatever it was, and "['1.0'] == 1", "[null] == ''"
and "[1234567] == '1234567'" (a number of the document) were false.
---
 mach/json.go | 51 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index 2618338..77ec176 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -91,31 +91,68 @@ func IsStructure(j JSON) bool {
 }
 
 // eqArrayS returns true if array a as a string equals b.
-// This represents Array.prototype.toString, reduced to the cases that can be true.
+// This represents Array.prototype.toString, except that an array of several elements equals no string.
 func eqArrayS(a []JSON, b string) bool {
 	switch len(a) {
 	case 0:
 		return b == ""
 	case 1:
-		return cvs(a[0]) == b
+		switch e := a[0].(type) {
+		case nil, error:
+			return b == ""
+		case []JSON:
+			return eqArrayS(e, b)
+		case float64:
+			return floatString(e) == b
+		default:
+			return cvs(e) == b
+		}
 	default:
 		return false
 	}
 }
 
-// eqArrayN returns true if array a as a string converted to a Number equals b.
+// eqArrayN returns true if array a as a string converted to a Number equals b, a Number or Boolean.
 // This represents Array.prototype.toString, reduced to the cases that can be true.
 func eqArrayN(a []JSON, b JSON) bool {
 	switch len(a) {
 	case 0:
 		return eqNum(b, 0.0)
 	case 1:
-		return eqNum(a[0], b)
+		switch e := a[0].(type) {
+		case nil, error:
+			return eqNum(b, 0.0) // the empty string
+		case string:
+			return eqNumString(b, e)
+		case []JSON:
+			return eqArrayN(e, b)
+		case map[string]JSON:
+			return false
+		default:
+			return eqNum(e, b)
+		}
 	default:
 		return false
 	}
 }
 
+// floatString returns f as a string as JS does (ECMA-262, 5.1, 9.8.1).
+func floatString(f float64) string {
+	switch {
+	case f == 0:
+		return "0"
+	case math.IsInf(f, 1):
+		return "Infinity"
+	case math.IsInf(f, -1):
+		return "-Infinity"
+	}
+	if m := math.Abs(f); m >= 1e21 || m < 1e-6 {
+		// Go's exponent has at least two digits
+		return strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "e-0", "e-", 1)
+	}
+	return strconv.FormatFloat(f, 'f', -1, 64)
+}
+
 // stringNum converts s to Number as JS does (ECMA-262, 5.1, 9.3.1), returning false if the result is NaN.
 func stringNum(s string) (JSON, bool) {
 	s = strings.TrimFunc(s, func(r rune) bool {
@@ -190,13 +227,11 @@ func eqVal(a, b JSON) bool {
 		case Object<<8 | Boolean:
 			// 11.9.3(6) [a == ToNumber(b)]
 			a, ok := a.([]JSON)
-			b := cvi(b)
-			return ok && (b == 0 && len(a) == 0 || len(a) == 1 && cvi(a[0]) == b)
+			return ok && eqArrayN(a, b)
 		case Boolean<<8 | Object:
 			// 11.9.3(7) [ToNumber(a) == b]
 			b, ok := b.([]JSON)
-			a := cvi(a)
-			return ok && (a == 0 && len(b) == 0 || len(b) == 1 && cvi(b[0]) == a)
+			return ok && eqArrayN(b, a)
 		case String<<8 | Object, Object<<8 | String:
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
-- 
2.43.0


From c6ba20b9001515c440383c86ba4c69f51017f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:40 +0000
Subject: [PATCH 16/18] fix: limit the depth of expressions

A long run of brackets or unary operators, or of binary operators, made
Compile exhaust the stack, which ends the process.
---
 mach/coder.go      | 14 ++++++++++++--
 paths/parseexpr.go | 10 +++++++++-
 paths/parser.go    |  8 ++++++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/mach/coder.go b/mach/coder.go
index 327e308..00f92f2 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -9,14 +9,19 @@ import (
 
 var (
 	ErrTooManyVals = errors.New("program has too many values")
+	ErrTooDeep     = errors.New("expression is too deep")
 )
 
 // builder is the state when building a program
 type builder struct {
-	vals map[paths.Val]uint32 // map value to its index in prog.vals
-	prog *Program
+	vals  map[paths.Val]uint32 // map value to its index in prog.vals
+	prog  *Program
+	depth int // depth of codeExpr
 }
 
+// maxDepth limits the depth of an expression tree, to bound the depth of recursion.
+const maxDepth = 1000000
+
 // Compile compiles a Path into a Program for a small abstract machine that evaluates paths and expressions.
 func Compile(path paths.Path) (*Program, error) {
 	prog := &Program{}
@@ -117,6 +122,10 @@ func (b *builder) codeExpr(expr paths.Expr) error {
 	if expr.IsLeaf() {
 		return b.codeLeaf(expr)
 	}
+	if b.depth >= maxDepth {
+		return ErrTooDeep
+	}
+	b.depth++
 	t := expr.(*paths.Inner)
 	for _, k := range t.Kids {
 		err := b.codeExpr(k)
@@ -124,6 +133,7 @@ func (b *builder) codeExpr(expr paths.Expr) error {
 			return err
 		}
 	}
+	b.depth--
 	b.prog.asm(mkSmall(t.Op, len(t.Kids)))
 	return nil
 }
diff --git a/paths/parseexpr.go b/paths/parseexpr.go
index 4e49af8..6956ada 100644
--- a/paths/parseexpr.go
+++ b/paths/parseexpr.go
@@ -4,11 +4,15 @@ package paths
 // It's a small subset of JavaScript (at least I hope it's a small subset.)
 
 import (
-	//	"errors"
+	"errors"
 	"fmt"
 	"regexp"
 )
 
+var (
+	ErrTooDeep = errors.New("expression is nested too deeply")
+)
+
 // ParseScriptExpression gives direct access to the secondary parser for expressions, returning an Expr tree representing
 // the expression in s.
 func ParseScriptExpression(s string) (Expr, error) {
@@ -103,6 +107,9 @@ func (p *parser) unary(op Op) (Expr, error) {
 
 // primary ::= primary1 ("(" e-list ")" | "[" e "]" | "." identifier)*
 func (p *parser) primary() (Expr, error) {
+	if p.depth++; p.depth > maxDepth {
+		return nil, ErrTooDeep
+	}
 	e, err := p.primary1()
 	if err != nil {
 		return nil, err
@@ -143,6 +150,7 @@ func (p *parser) primary() (Expr, error) {
 			}
 			e = &Inner{OpDot, []Expr{e, &NameLeaf{OpID, lx.s()}}}
 		default:
+			p.depth--
 			return e, nil
 		}
 	}
diff --git a/paths/parser.go b/paths/parser.go
index 56baec5..d134502 100644
--- a/paths/parser.go
+++ b/paths/parser.go
@@ -6,12 +6,16 @@ import "fmt"
 // (all of which is currently in the lexer), and provides a scope for the
 // parsing methods.
 type parser struct {
-	*lexer // source of tokens
+	*lexer     // source of tokens
+	depth  int // nesting of primaries being parsed
 }
 
+// maxDepth limits the nesting of expressions, to bound the depth of recursion.
+const maxDepth = 100000
+
 // newParser initialises and returns a parser.
 func newParser(s string) *parser {
-	return &parser{newLexer(&rd{s: s})}
+	return &parser{lexer: newLexer(&rd{s: s})}
 }
 
 func (p *parser) expect(lex func() lexeme, nt token) error {
-- 
2.43.0


From 96a9823da25ef33237d5ad8da1bfbd440a3557f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:41 +0000
Subject: [PATCH 17/18] fix: reject a program too big for its orders

A pc or an operand count of more than 22 bits lost its top bits, so an array
or union of millions of elements made Eval panic or give other results.
---
 mach/coder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mach/coder.go b/mach/coder.go
index 00f92f2..9f82fcd 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -9,6 +9,7 @@ import (
 
 var (
 	ErrTooManyVals = errors.New("program has too many values")
+	ErrTooBig      = errors.New("program is too big")
 	ErrTooDeep     = errors.New("expression is too deep")
 )
 
@@ -54,6 +55,10 @@ func Compile(path paths.Path) (*Program, error) {
 			}
 		}
 	}
+	if prog.size() >= indexTop {
+		// neither a pc nor an operand count would be sure to fit
+		return nil, ErrTooBig
+	}
 	return prog, nil
 }
 
-- 
2.43.0


From b81df413ded5eda0965c0571ec954e74d4ecb589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:33 +0000
Subject: [PATCH 18/18] fix: == of a number and a hexadecimal string of more
 than 64 bits was false

---
 mach/json.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mach/json.go b/mach/json.go
index 77ec176..c37bea1 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -166,6 +166,11 @@ func stringNum(s string) (JSON, bool) {
 	}
 	if len(s) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
 		n, err := strconv.ParseUint(s[2:], 16, 64)
+		if err != nil && strings.Trim(s[2:], "0123456789abcdefABCDEF") == "" {
+			// more than 64 bits
+			f, _ := strconv.ParseFloat(s+"p0", 64)
+			return f, true
+		}
 		return float64(n), err == nil
 	}
 	if strings.TrimLeft(s, "0123456789.eE+-") != "" && strings.TrimLeft(s, "+-") != "Infinity" {
-- 
2.43.0

