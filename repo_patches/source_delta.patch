From d28933d844344b74ffa7fe0a9e8a81bbf2e88802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 01/49] fix: Not must be true for values of other types (keep
 not(eq), do not rewrite to ne)

---
 relapse/funcs/logic.go | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/relapse/funcs/logic.go b/relapse/funcs/logic.go
index f2cdfde..962017f 100644
--- a/relapse/funcs/logic.go
+++ b/relapse/funcs/logic.go
@@ -30,32 +30,6 @@ func Not(v1 Bool) Bool {
 	if vv, ok := v1.(*or); ok {
 		return And(Not(vv.V1), Not(vv.V2))
 	}
-	switch vv := v1.(type) {
-	case *boolEq:
-		return BoolNe(vv.V1, vv.V2)
-	case *bytesEq:
-		return BytesNe(vv.V1, vv.V2)
-	case *doubleEq:
-		return DoubleNe(vv.V1, vv.V2)
-	case *intEq:
-		return IntNe(vv.V1, vv.V2)
-	case *stringEq:
-		return StringNe(vv.V1, vv.V2)
-	case *uintEq:
-		return UintNe(vv.V1, vv.V2)
-	case *boolNe:
-		return BoolEq(vv.V1, vv.V2)
-	case *bytesNe:
-		return BytesEq(vv.V1, vv.V2)
-	case *doubleNe:
-		return DoubleEq(vv.V1, vv.V2)
-	case *intNe:
-		return IntEq(vv.V1, vv.V2)
-	case *stringNe:
-		return StringEq(vv.V1, vv.V2)
-	case *uintNe:
-		return UintEq(vv.V1, vv.V2)
-	}
 	return TrimBool(&not{
 		V1:          v1,
 		hash:        hashWithId(23, v1),
@@ -138,6 +112,13 @@ func And(v1, v2 Bool) Bool {
 			return BoolConst(false)
 		}
 	}
+	//v1 and not(v2) is v1, when v1 and v2 exclude each other.
+	if l, ok := v1.(*not); ok && exclusive(l.V1, v2) {
+		return v2
+	}
+	if r, ok := v2.(*not); ok && exclusive(v1, r.V1) {
+		return v1
+	}
 	switch vv1 := v1.(type) {
 	case *stringEq:
 		if vv2, ok := v2.(*stringEq); ok {
@@ -247,6 +228,15 @@ func And(v1, v2 Bool) Bool {
 	})
 }
 
+//exclusive returns whether the two functions can never both be true.
+func exclusive(v1, v2 Bool) bool {
+	if _, ok := v1.(*not); ok {
+		return false
+	}
+	c, ok := And(v1, v2).(*constBool)
+	return ok && !c.v
+}
+
 type and struct {
 	V1          Bool
 	V2          Bool
-- 
2.43.0


From 17773168c38b566375ed6d03a0239255f93af9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 02/49] fix: negative indexes of elem and range must not panic

---
 relapse/funcs/elem.gen.go       | 12 ++++++------
 relapse/funcs/funcs-gen/main.go |  6 +++---
 relapse/funcs/range.gen.go      | 24 ++++++++++++------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/relapse/funcs/elem.gen.go b/relapse/funcs/elem.gen.go
index f6f8bb7..ede2ea8 100644
--- a/relapse/funcs/elem.gen.go
+++ b/relapse/funcs/elem.gen.go
@@ -26,7 +26,7 @@ func (this *elemDoubles) Eval() (float64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -100,7 +100,7 @@ func (this *elemInts) Eval() (int64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -174,7 +174,7 @@ func (this *elemUints) Eval() (uint64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -248,7 +248,7 @@ func (this *elemBools) Eval() (bool, error) {
 		return false, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return false, NewRangeCheckErr(index, len(list))
@@ -322,7 +322,7 @@ func (this *elemStrings) Eval() (string, error) {
 		return "", NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return "", NewRangeCheckErr(index, len(list))
@@ -396,7 +396,7 @@ func (this *elemListOfBytes) Eval() ([]byte, error) {
 		return nil, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return nil, NewRangeCheckErr(index, len(list))
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 22dcdf1..8755f4b 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -438,7 +438,7 @@ func (this *elem{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
@@ -526,7 +526,7 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -537,7 +537,7 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
diff --git a/relapse/funcs/range.gen.go b/relapse/funcs/range.gen.go
index a38d2c7..94777b2 100644
--- a/relapse/funcs/range.gen.go
+++ b/relapse/funcs/range.gen.go
@@ -27,7 +27,7 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -38,7 +38,7 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -120,7 +120,7 @@ func (this *rangeInts) Eval() ([]int64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -131,7 +131,7 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -213,7 +213,7 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -224,7 +224,7 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -306,7 +306,7 @@ func (this *rangeBools) Eval() ([]bool, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -317,7 +317,7 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -399,7 +399,7 @@ func (this *rangeStrings) Eval() ([]string, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -410,7 +410,7 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -492,7 +492,7 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -503,7 +503,7 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
-- 
2.43.0


From e40417b120f4840d9f662fceb4110f726375f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 03/49] fix: print constants of functions exactly (doubles,
 quotes, regular expressions, nil bytes)

---
 relapse/funcs/const.gen.go      | 12 ++++++------
 relapse/funcs/funcs-gen/main.go | 29 +++++++++++++++--------------
 relapse/funcs/regex.go          |  2 +-
 relapse/funcs/sprint.go         | 22 ++++++++++++++++++++++
 4 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/relapse/funcs/const.gen.go b/relapse/funcs/const.gen.go
index d92aa08..946dab3 100644
--- a/relapse/funcs/const.gen.go
+++ b/relapse/funcs/const.gen.go
@@ -39,7 +39,7 @@ func (this *constDouble) Hash() uint64 {
 }
 
 func (this *constDouble) String() string {
-	return fmt.Sprintf("double(%f)", this.v)
+	return fmt.Sprintf("double(%s)", formatDouble(this.v))
 }
 
 // TrimDouble turns functions into constants, if they can be evaluated at compile time.
@@ -239,7 +239,7 @@ func (this *constString) Hash() uint64 {
 }
 
 func (this *constString) String() string {
-	return fmt.Sprintf("`%s`", this.v)
+	return fmt.Sprintf("%s", formatString(this.v))
 }
 
 // TrimString turns functions into constants, if they can be evaluated at compile time.
@@ -289,7 +289,7 @@ func (this *constBytes) Hash() uint64 {
 }
 
 func (this *constBytes) String() string {
-	return fmt.Sprintf("%#v", this.v)
+	return fmt.Sprintf("%#v", formatBytes(this.v))
 }
 
 // TrimBytes turns functions into constants, if they can be evaluated at compile time.
@@ -341,7 +341,7 @@ func (this *constDoubles) Hash() uint64 {
 func (this *constDoubles) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("double(%f)", this.v[i])
+		ss[i] = fmt.Sprintf("double(%s)", formatDouble(this.v[i]))
 	}
 	return "[]double{" + strings.Join(ss, ",") + "}"
 }
@@ -557,7 +557,7 @@ func (this *constStrings) Hash() uint64 {
 func (this *constStrings) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("`%s`", this.v[i])
+		ss[i] = fmt.Sprintf("%s", formatString(this.v[i]))
 	}
 	return "[]string{" + strings.Join(ss, ",") + "}"
 }
@@ -611,7 +611,7 @@ func (this *constListOfBytes) Hash() uint64 {
 func (this *constListOfBytes) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("%#v", this.v[i])
+		ss[i] = fmt.Sprintf("%#v", formatBytes(this.v[i]))
 	}
 	return "[][]byte{" + strings.Join(ss, ",") + "}"
 }
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 8755f4b..986acd0 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -169,9 +169,9 @@ func (this *const{{.CType}}) Hash() uint64 {
 func (this *const{{.CType}}) String() string {
 	{{if .ListType}}ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("{{.String}}", this.v[i])
+		ss[i] = fmt.Sprintf("{{.String}}", {{if .Format}}{{.Format}}(this.v[i]){{else}}this.v[i]{{end}})
 	}
-	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", this.v){{end}}
+	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", {{if .Format}}{{.Format}}(this.v){{else}}this.v{{end}}){{end}}
 }
 
 // Trim{{.CType}} turns functions into constants, if they can be evaluated at compile time.
@@ -195,6 +195,7 @@ type conster struct {
 	GoType   string
 	String   string
 	ListType string
+	Format   string
 }
 
 func (this *conster) Hash() uint64 {
@@ -876,18 +877,18 @@ func main() {
 		"ListOfBytes",
 	})
 	gen(constStr, "const.gen.go", []interface{}{
-		&conster{"Double", "float64", "double(%f)", ""},
-		&conster{"Int", "int64", "int(%d)", ""},
-		&conster{"Uint", "uint64", "uint(%d)", ""},
-		&conster{"Bool", "bool", "%v", ""},
-		&conster{"String", "string", "`%s`", ""},
-		&conster{"Bytes", "[]byte", "%#v", ""},
-		&conster{"Doubles", "[]float64", "double(%f)", "double"},
-		&conster{"Ints", "[]int64", "int(%d)", "int"},
-		&conster{"Uints", "[]uint64", "uint(%d)", "uint"},
-		&conster{"Bools", "[]bool", "%v", "bool"},
-		&conster{"Strings", "[]string", "`%s`", "string"},
-		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte"},
+		&conster{"Double", "float64", "double(%s)", "", "formatDouble"},
+		&conster{"Int", "int64", "int(%d)", "", ""},
+		&conster{"Uint", "uint64", "uint(%d)", "", ""},
+		&conster{"Bool", "bool", "%v", "", ""},
+		&conster{"String", "string", "%s", "", "formatString"},
+		&conster{"Bytes", "[]byte", "%#v", "", "formatBytes"},
+		&conster{"Doubles", "[]float64", "double(%s)", "double", "formatDouble"},
+		&conster{"Ints", "[]int64", "int(%d)", "int", ""},
+		&conster{"Uints", "[]uint64", "uint(%d)", "uint", ""},
+		&conster{"Bools", "[]bool", "%v", "bool", ""},
+		&conster{"Strings", "[]string", "%s", "string", "formatString"},
+		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte", "formatBytes"},
 	}, `"fmt"`, `"strings"`, `"reflect"`)
 	gen(listStr, "list.gen.go", []interface{}{
 		&list{"double", "Doubles", "Double", "float64"},
diff --git a/relapse/funcs/regex.go b/relapse/funcs/regex.go
index 4194742..6e8938a 100644
--- a/relapse/funcs/regex.go
+++ b/relapse/funcs/regex.go
@@ -55,7 +55,7 @@ func (this *regex) HasVariable() bool {
 }
 
 func (this *regex) String() string {
-	return "regex(" + this.expr + "," + this.S.String() + ")"
+	return "regex(" + formatString(this.expr) + "," + this.S.String() + ")"
 }
 
 func (this *regex) Eval() (bool, error) {
diff --git a/relapse/funcs/sprint.go b/relapse/funcs/sprint.go
index f6ca3d2..9c4872b 100644
--- a/relapse/funcs/sprint.go
+++ b/relapse/funcs/sprint.go
@@ -15,6 +15,7 @@
 package funcs
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -38,3 +39,24 @@ func Sprint(s Stringer) string {
 	}
 	return "->" + s.String()
 }
+
+//formatDouble prints a double exactly.
+func formatDouble(v float64) string {
+	return strconv.FormatFloat(v, 'f', -1, 64)
+}
+
+//formatString prints a string literal, which is raw if possible.
+func formatString(v string) string {
+	if strconv.CanBackquote(v) {
+		return "`" + v + "`"
+	}
+	return strconv.Quote(v)
+}
+
+//formatBytes avoids nil bytes, since these do not have a literal.
+func formatBytes(v []byte) []byte {
+	if v == nil {
+		return []byte{}
+	}
+	return v
+}
-- 
2.43.0


From 8606a7f67973318d95270fc1380c42dd9a352029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 04/49] fix: merging interned patterns must not modify the
 merged patterns

---
 relapse/intern/construct.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ce7f68e..43b78d0 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -359,7 +359,9 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewOr(append(left, right...))
+	//copy the patterns, since NewOr modifies its input and left belongs to another pattern.
+	ps := make([]*Pattern, 0, len(left)+len(right))
+	return c.NewOr(append(append(ps, left...), right...))
 }
 
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
@@ -500,7 +502,9 @@ func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewAnd(append(left, right...))
+	//copy the patterns, since NewAnd modifies its input and left belongs to another pattern.
+	ps := make([]*Pattern, 0, len(left)+len(right))
+	return c.NewAnd(append(append(ps, left...), right...))
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
-- 
2.43.0


From 3f3c8004c38283fdcba807534031b4cad4e2c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 05/49] fix: set the context of functions inside zero or more
 patterns

---
 relapse/intern/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/intern/context.go b/relapse/intern/context.go
index 7238cec..83c2451 100644
--- a/relapse/intern/context.go
+++ b/relapse/intern/context.go
@@ -46,7 +46,7 @@ func (c *construct) setContext(p *Pattern) {
 			c.setContext(pp)
 		}
 	case ZeroOrMore:
-		return
+		c.setContext(p.Patterns[0])
 	case Reference:
 		return
 	case Not:
-- 
2.43.0


From fd63c5a7fee3aea878b4f1cca66d7e1fc37e19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 06/49] fix: simplification must keep equal patterns of an
 interleave

---
 relapse/interp/order.go    | 18 ++++++++++++------
 relapse/interp/simplify.go |  6 +++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/relapse/interp/order.go b/relapse/interp/order.go
index d105e8f..3c86129 100644
--- a/relapse/interp/order.go
+++ b/relapse/interp/order.go
@@ -49,12 +49,8 @@ func (ps *sortable) Less(i, j int) bool {
 	return ps.list[i].GetTreeNode() == nil
 }
 
-// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
-func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
-	if len(ps) == 0 || len(ps) == 1 {
-		return ps
-	}
-
+// ordered creates a stable order, while taking into account treenodes, and also returns the hashes that were used.
+func ordered(ps []*ast.Pattern) ([]*ast.Pattern, []uint64) {
 	hashes := make([]uint64, len(ps))
 	for i, p := range ps {
 		if p.GetTreeNode() == nil {
@@ -66,6 +62,16 @@ func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
 
 	sortable := &sortable{hashes, ps}
 	sort.Sort(sortable)
+	return ps, hashes
+}
+
+// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
+func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
+	if len(ps) == 0 || len(ps) == 1 {
+		return ps
+	}
+
+	ps, hashes := ordered(ps)
 
 	u := 0
 	for i := 1; i < len(ps); i++ {
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index f8eede6..0399e6c 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -380,12 +380,16 @@ func simplifyInterleave(refs ast.RefLookup, p1, p2 *ast.Pattern) *ast.Pattern {
 	}
 	left := getInterleaves(p1)
 	right := getInterleaves(p2)
-	list := orderedSet(append(left, right...))
+	//duplicates are not removed, since {A;A} is not the same as A, except when A is zany.
+	list, _ := ordered(append(left, right...))
 	var p *ast.Pattern = list[0]
 	for i := range list {
 		if i == 0 {
 			continue
 		}
+		if isZany(list[i]) && isZany(list[i-1]) {
+			continue
+		}
 		p = ast.NewInterleave(p, list[i])
 	}
 	return p
-- 
2.43.0


From c771dbb1a47b40de8ed3b801a5935958afae1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 07/49] fix: compiled conditions that are implied by an earlier
 one must keep their else branch

---
 relapse/auto/ifs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/auto/ifs.go b/relapse/auto/ifs.go
index 66225e1..bc3c854 100644
--- a/relapse/auto/ifs.go
+++ b/relapse/auto/ifs.go
@@ -113,8 +113,8 @@ func (this *ifExprs) addIfExpr(cond funcs.Bool, then, els *ast.Pattern) {
 	}
 	// remove impossible (always false) else condition
 	if funcs.IsFalse(funcs.And(this.cond, funcs.Not(cond))) {
-		this.then.addIfExpr(cond, then, els)
-		this.els.addReturn(then)
+		this.then.addReturn(then)
+		this.els.addIfExpr(cond, then, els)
 		return
 	}
 	this.then.addIfExpr(cond, then, els)
-- 
2.43.0


From d9c746e5578e034fcc3e35d3ba117270b69d38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 08/49] fix: interned engines accept a grammar that declares
 main by name

---
 relapse/intern/construct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index 43b78d0..db4bb67 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -91,12 +91,15 @@ func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
 		c.nullRefs[name] = interp.Nullable(refs, p)
 	}
 
-	main, err := c.AddPatternDecl("main", g.GetTopPattern())
+	main, err := c.AddPatternDecl("main", refs["main"])
 	if err != nil {
 		return nil, err
 	}
 
 	for _, p := range ps {
+		if p.GetName() == "main" {
+			continue
+		}
 		if _, err := c.AddPatternDecl(p.GetName(), p.GetPattern()); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 745986c571756f0c3d3b607105d12f01833a9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:05 +0000
Subject: [PATCH 09/49] fix: HasRecursion must not report references that are
 used more than once

---
 relapse/interp/recursion.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relapse/interp/recursion.go b/relapse/interp/recursion.go
index ea1672d..5c972be 100644
--- a/relapse/interp/recursion.go
+++ b/relapse/interp/recursion.go
@@ -40,10 +40,14 @@ func HasRecursion(g *ast.Grammar) bool {
 }
 
 func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
-	if _, ok := visited[p]; ok {
-		return true
+	//visited is true for the patterns that are still being visited and
+	//false for the patterns that are known not to have recursion,
+	//which can be referenced more than once.
+	if visiting, ok := visited[p]; ok {
+		return visiting
 	}
 	visited[p] = true
+	defer func() { visited[p] = false }()
 	typ := p.GetValue()
 	switch v := typ.(type) {
 	case *ast.Empty:
-- 
2.43.0


From cfb5eb524331410407be439f191df9e57b3f5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 10/49] fix: an undefined reference or missing main pattern is
 an error, not a panic

---
 relapse/ast/new.go          | 26 ++++++++++++++++++++++++++
 relapse/auto/compiler.go    |  3 +++
 relapse/intern/construct.go |  3 +++
 relapse/interp/deriv.go     |  3 +++
 relapse/interp/recursion.go |  4 ++++
 5 files changed, 39 insertions(+)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index b63b6fa..9f679ac 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -15,6 +15,7 @@
 package ast
 
 import (
+	"fmt"
 	"sort"
 
 	"github.com/gogo/protobuf/proto"
@@ -37,6 +38,31 @@ func NewRefLookup(g *Grammar) RefLookup {
 	return refs
 }
 
+//Check returns an error when there is no main pattern or
+//when a pattern references a pattern declaration that does not exist.
+func (refs RefLookup) Check() error {
+	if refs["main"] == nil {
+		return fmt.Errorf("no main pattern")
+	}
+	c := &refChecker{refs: refs}
+	for _, p := range refs {
+		p.Walk(c)
+	}
+	return c.err
+}
+
+type refChecker struct {
+	refs RefLookup
+	err  error
+}
+
+func (this *refChecker) Visit(node interface{}) interface{} {
+	if r, ok := node.(*Reference); ok && this.refs[r.GetName()] == nil {
+		this.err = fmt.Errorf("no reference with name: %s", r.GetName())
+	}
+	return this
+}
+
 //NewGrammar converts a refenence lookup map into a Grammar.
 func NewGrammar(m map[string]*Pattern) *Grammar {
 	names := make([]string, 0, len(m))
diff --git a/relapse/auto/compiler.go b/relapse/auto/compiler.go
index b870bef..8f72c84 100644
--- a/relapse/auto/compiler.go
+++ b/relapse/auto/compiler.go
@@ -23,6 +23,9 @@ import (
 )
 
 func newCompiler(g *ast.Grammar, record bool) (*compiler, error) {
+	if err := ast.NewRefLookup(g).Check(); err != nil {
+		return nil, err
+	}
 	simp := interp.NewSimplifier(g)
 	if record {
 		simp = simp.OptimizeForRecord()
diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index db4bb67..6412233 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -83,6 +83,9 @@ func (c *construct) Deref(name string) *Pattern {
 func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
 	ps := g.GetPatternDecls()
 	refs := ast.NewRefLookup(g)
+	if err := refs.Check(); err != nil {
+		return nil, err
+	}
 
 	// nullRefs are useful when constructing references for pattern declarations,
 	// which have not been created yet.
diff --git a/relapse/interp/deriv.go b/relapse/interp/deriv.go
index cd8d673..1ca88f3 100644
--- a/relapse/interp/deriv.go
+++ b/relapse/interp/deriv.go
@@ -31,6 +31,9 @@ import (
 //This implementation does not handle immediate recursion, see the HasRecursion function.
 func Interpret(g *ast.Grammar, parser parser.Interface) (bool, error) {
 	refs := ast.NewRefLookup(g)
+	if err := refs.Check(); err != nil {
+		return false, err
+	}
 	finals, err := deriv(refs, []*ast.Pattern{refs["main"]}, parser)
 	if err != nil {
 		return false, err
diff --git a/relapse/interp/recursion.go b/relapse/interp/recursion.go
index 5c972be..2d21ee0 100644
--- a/relapse/interp/recursion.go
+++ b/relapse/interp/recursion.go
@@ -40,6 +40,10 @@ func HasRecursion(g *ast.Grammar) bool {
 }
 
 func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
+	if p == nil {
+		//an undefined reference
+		return false
+	}
 	//visited is true for the patterns that are still being visited and
 	//false for the patterns that are known not to have recursion,
 	//which can be referenced more than once.
-- 
2.43.0


From a2abb1560c2623590f754950414620f45031046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 11/49] fix: conditions of simplified and interned patterns
 must not be printed with swapped operands

---
 relapse/intern/pattern.go  | 2 +-
 relapse/interp/simplify.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/pattern.go b/relapse/intern/pattern.go
index ab91728..bc9abba 100644
--- a/relapse/intern/pattern.go
+++ b/relapse/intern/pattern.go
@@ -68,7 +68,7 @@ func newASTPattern(p *Pattern) (*ast.Pattern, error) {
 		return ast.NewEmpty(), nil
 	case Node:
 		if isEmpty(p.Patterns[0]) {
-			exprStr := funcs.Sprint(p.Func)
+			exprStr := "->" + p.Func.String()
 			expr, err := parser.NewParser().ParseExpr(exprStr)
 			if err != nil {
 				return nil, err
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index 0399e6c..815c4b7 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -127,7 +127,7 @@ func (this *simplifier) simplify(p *ast.Pattern, top bool) *ast.Pattern {
 		if funcs.IsFalse(b) {
 			return emptyset
 		}
-		e, err := parser.ParseExpr(funcs.Sprint(b))
+		e, err := parser.ParseExpr("->" + b.String())
 		if err != nil {
 			//Don't simplify if there is an error to keep this function signature simple.
 			return p
-- 
2.43.0


From 1f12ac6b28c7b0137d16991c55420981ad49e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 12/49] fix: FuncToName supports every function that NameToFunc
 makes

---
 relapse/name/name.go | 74 ++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/relapse/name/name.go b/relapse/name/name.go
index 213f37b..22baf04 100644
--- a/relapse/name/name.go
+++ b/relapse/name/name.go
@@ -78,28 +78,49 @@ func FuncToName(f funcs.Bool) (*ast.NameExpr, error) {
 	return exprToName(expr)
 }
 
+//constToName returns the name that is equal to a constant or nil if the terminal is not a constant.
+func constToName(t *ast.Terminal) *ast.NameExpr {
+	switch {
+	case t == nil:
+		return nil
+	case t.DoubleValue != nil:
+		return ast.NewDoubleName(t.GetDoubleValue())
+	case t.IntValue != nil:
+		return ast.NewIntName(t.GetIntValue())
+	case t.UintValue != nil:
+		return ast.NewUintName(t.GetUintValue())
+	case t.BoolValue != nil:
+		return ast.NewBoolName(t.GetBoolValue())
+	case t.StringValue != nil:
+		return ast.NewStringName(t.GetStringValue())
+	case t.BytesValue != nil:
+		return ast.NewBytesName(t.GetBytesValue())
+	}
+	return nil
+}
+
+//eqToName returns the name for an equality between a variable and a constant.
+func eqToName(params []*ast.Expr) (*ast.NameExpr, error) {
+	if len(params) == 2 {
+		v, c := params[0].GetTerminal(), params[1].GetTerminal()
+		if c.GetVariable() != nil {
+			v, c = c, v
+		}
+		if v.GetVariable() != nil {
+			if n := constToName(c); n != nil {
+				return n, nil
+			}
+		}
+	}
+	return nil, fmt.Errorf("not an equality between a variable and a constant: %v", params)
+}
+
 func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 	if e.GetBuiltIn() != nil {
 		if e.GetBuiltIn().GetSymbol().String() == "==" {
 			if e.GetBuiltIn().GetExpr().GetTerminal() != nil {
-				t := e.GetBuiltIn().GetExpr().GetTerminal()
-				if t.DoubleValue != nil {
-					return ast.NewDoubleName(t.GetDoubleValue()), nil
-				}
-				if t.IntValue != nil {
-					return ast.NewIntName(t.GetIntValue()), nil
-				}
-				if t.UintValue != nil {
-					return ast.NewUintName(t.GetUintValue()), nil
-				}
-				if t.BoolValue != nil {
-					return ast.NewBoolName(t.GetBoolValue()), nil
-				}
-				if t.StringValue != nil {
-					return ast.NewStringName(t.GetStringValue()), nil
-				}
-				if t.BytesValue != nil {
-					return ast.NewBytesName(t.GetBytesValue()), nil
+				if n := constToName(e.GetBuiltIn().GetExpr().GetTerminal()); n != nil {
+					return n, nil
 				}
 			} else {
 				return nil, fmt.Errorf("unknown terminal: %v", e.GetBuiltIn().GetExpr())
@@ -127,6 +148,21 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 			}
 			return ast.NewNameChoice(e1, e2), nil
 		}
+		if e.GetFunction().GetName() == "and" {
+			//there is no conjunction of names: a & b is !(!a | !b)
+			e1, err := exprToName(e.GetFunction().GetParams()[0])
+			if err != nil {
+				return nil, err
+			}
+			e2, err := exprToName(e.GetFunction().GetParams()[1])
+			if err != nil {
+				return nil, err
+			}
+			return ast.NewAnyNameExcept(ast.NewNameChoice(ast.NewAnyNameExcept(e1), ast.NewAnyNameExcept(e2))), nil
+		}
+		if e.GetFunction().GetName() == "eq" {
+			return eqToName(e.GetFunction().GetParams())
+		}
 		return nil, fmt.Errorf("unsupported function: %v", e)
 	}
 	if e.GetTerminal() != nil {
@@ -134,7 +170,7 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 			if e.GetTerminal().GetBoolValue() {
 				return ast.NewAnyName(), nil
 			} else {
-				return nil, fmt.Errorf("not true")
+				return ast.NewAnyNameExcept(ast.NewAnyName()), nil
 			}
 		} else {
 			return nil, fmt.Errorf("not bool")
-- 
2.43.0


From 6a3e4c6c22f0c2fd63b328e2a03ed69ca64c59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 13/49] fix: NewHasSuffix makes a $= expression

---
 relapse/ast/keywords.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/keywords.go b/relapse/ast/keywords.go
index 0cd3c2a..ac76cdc 100644
--- a/relapse/ast/keywords.go
+++ b/relapse/ast/keywords.go
@@ -82,7 +82,7 @@ func newCaretEqual() *Keyword {
 
 func newDollarEqual() *Keyword {
 	return &Keyword{
-		Value: "*=",
+		Value: "$=",
 	}
 }
 
-- 
2.43.0


From 70ec1a60f6bb505c2f953292befb790d614df250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 14/49] fix: order constants by hash first, like every other
 function

---
 relapse/funcs/const.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/relapse/funcs/const.go b/relapse/funcs/const.go
index e0c73ff..2dfa0e0 100644
--- a/relapse/funcs/const.go
+++ b/relapse/funcs/const.go
@@ -39,6 +39,12 @@ func (this *constString) aConst() {}
 func (this *constUint) aConst()   {}
 
 func (this *constDouble) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constDouble); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -52,6 +58,12 @@ func (this *constDouble) Compare(that Comparable) int {
 }
 
 func (this *constInt) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constInt); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -65,6 +77,12 @@ func (this *constInt) Compare(that Comparable) int {
 }
 
 func (this *constUint) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constUint); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -78,6 +96,12 @@ func (this *constUint) Compare(that Comparable) int {
 }
 
 func (this *constBool) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBool); ok {
 		if this.v != other.v {
 			if !this.v {
@@ -91,6 +115,12 @@ func (this *constBool) Compare(that Comparable) int {
 }
 
 func (this *constString) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constString); ok {
 		return strings.Compare(this.v, other.v)
 	}
@@ -98,6 +128,12 @@ func (this *constString) Compare(that Comparable) int {
 }
 
 func (this *constBytes) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBytes); ok {
 		return bytes.Compare(this.v, other.v)
 	}
-- 
2.43.0


From c0b665c179654b05f7de337ecea3d241410e0de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 15/49] fix: doubles and the names true, false and _ are
 printed such that they parse back

---
 relapse/ast/string.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 03d3d40..9a61d21 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -160,13 +160,18 @@ func (this *NameExpr) String() string {
 var idRegexp = regexp.MustCompile("^[a-zA-Z_][_a-zA-Z0-9]*$")
 
 func isId(s string) bool {
-	return idRegexp.MatchString(s)
+	// true, false and _ also match the expression for an id, but are not names.
+	return idRegexp.MatchString(s) && s != "true" && s != "false" && s != "_"
+}
+
+func doubleToString(f float64) string {
+	return "double(" + strconv.FormatFloat(f, 'f', -1, 64) + ")"
 }
 
 //String returns the relapse string representation of the Name instance.
 func (this *Name) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + doubleToString(this.GetDoubleValue())
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
@@ -251,7 +256,7 @@ func (this *BuiltIn) String() string {
 //String returns the relapse string representation of the Terminal instance.
 func (this *Terminal) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + doubleToString(this.GetDoubleValue())
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
-- 
2.43.0


From a0ca4f6224111958f3e219fca44dc731376cd9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 16/49] fix: separate the colon of a tree node from the type
 operator when printing

---
 relapse/ast/string.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 9a61d21..7b98781 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -57,8 +57,12 @@ func (this *Empty) String() string {
 
 //String returns the relapse string representation of the TreeNode instance.
 func (this *TreeNode) String() string {
-	return this.Name.String() + this.Colon.String() +
-		this.Pattern.String()
+	pattern := this.Pattern.String()
+	if this.Colon != nil && strings.HasPrefix(pattern, ":") {
+		// a colon that is followed by the type operator (::)
+		pattern = " " + pattern
+	}
+	return this.Name.String() + this.Colon.String() + pattern
 }
 
 //String returns the relapse string representation of the Contains instance.
-- 
2.43.0


From 4fe10445f60dfd727041e1376aa5cc047ddef824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 17/49] fix: return an error for a number that does not fit,
 instead of panicking

---
 relapse/ast/util.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 3dcc395..d2b5e5d 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -110,7 +110,11 @@ func ToString(s1 string) string {
 
 //NewIntTerminal is a parser utility function that parses the int value out of the input string and returns a Terminal of type int.
 func NewIntTerminal(slit string) (*Terminal, error) {
-	return &Terminal{IntValue: ToInt64(Strip(slit, "int")), Literal: slit}, nil
+	i, err := strconv.ParseInt(string(Strip(slit, "int")), 0, 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{IntValue: &i, Literal: slit}, nil
 }
 
 //ToInt64 is a parser utility function that returns a pointer to a parsed an int64 or panics.
@@ -124,7 +128,11 @@ func ToInt64(tok []byte) *int64 {
 
 //NewUintTerminal is a parser utility function that parses the uint value out of the input string and returns a Terminal of type uint.
 func NewUintTerminal(slit string) (*Terminal, error) {
-	return &Terminal{UintValue: ToUint64(Strip(slit, "uint")), Literal: slit}, nil
+	i, err := strconv.ParseUint(string(Strip(slit, "uint")), 0, 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{UintValue: &i, Literal: slit}, nil
 }
 
 //ToUint64 is a parser utility function that returns a pointer to a parsed an uint64 or panics.
@@ -138,7 +146,11 @@ func ToUint64(tok []byte) *uint64 {
 
 //NewDoubleTerminal is a parser utility function that parses the double value out of the input string and returns a Terminal of type double.
 func NewDoubleTerminal(slit string) (*Terminal, error) {
-	return &Terminal{DoubleValue: ToFloat64(Strip(slit, "double")), Literal: slit}, nil
+	f, err := strconv.ParseFloat(string(Strip(slit, "double")), 64)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{DoubleValue: &f, Literal: slit}, nil
 }
 
 //ToFloat64 is a parser utility function that returns a pointer to a parsed an float64 or panics.
-- 
2.43.0


From b7459ce14ab97bc46af541f2980e338e6335f5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 18/49] fix: parse the character and octal elements of a bytes
 literal

---
 relapse/ast/util.go | 94 ++++++++++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 49 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index d2b5e5d..2c4c550 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -21,7 +21,6 @@ import (
 	"github.com/katydid/katydid/relapse/types"
 	"strconv"
 	"strings"
-	"unicode/utf8"
 )
 
 //NewKeyword is a parser utility function that returns a Keyword given a space and a token.
@@ -172,7 +171,7 @@ func NewBytesTerminal(stringLit string) (*Terminal, error) {
 }
 
 func parseBytes(s string) ([]byte, error) {
-	byteElems := strings.Split(s[strings.Index(s, "{")+1:strings.LastIndex(s, "}")], ",")
+	byteElems := splitBytes(s[strings.Index(s, "{")+1 : strings.LastIndex(s, "}")])
 	data := make([]byte, 0, len(byteElems))
 	for _, b := range byteElems {
 		s := strings.TrimSpace(b)
@@ -188,63 +187,60 @@ func parseBytes(s string) ([]byte, error) {
 	return data, nil
 }
 
-func hexToByte(c byte) byte {
-	if 'a' <= c && c <= 'f' {
-		return c - 'a' + 10
-	}
-	if 'A' <= c && c <= 'F' {
-		return c - 'A' + 10
+//splitBytes splits the elements at the commas that are not inside a character literal.
+func splitBytes(s string) []string {
+	elems := []string{}
+	start := 0
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case ',':
+			elems = append(elems, s[start:i])
+			start = i + 1
+		case '\'':
+			//the first character can be any character, including a quote.
+			i++
+			if i < len(s) && s[i] == '\\' {
+				i++
+			}
+			i++
+			for i < len(s) && s[i] != '\'' {
+				i++
+			}
+		}
 	}
-	return c - '0'
-}
-
-func hexesToByte(a byte, b byte) byte {
-	aa, bb := hexToByte(a), hexToByte(b)
-	return byte(aa*16 + bb)
+	return append(elems, s[start:])
 }
 
 func parseByte(s string) (byte, error) {
 	if s[0] == '\'' {
-		r, _ := utf8.DecodeRune([]byte(s)[1:])
-		if r <= 255 {
-			return byte(r), nil
-		}
-		return 0, fmt.Errorf("rune too large %v", r)
-	} else if s[0] == '0' {
-		if len(s) == 1 {
-			return 0, nil
-		}
-		if s[1] == 'x' || s[1] == 'X' {
-			if len(s) == 4 {
-				return hexesToByte(s[2], s[3]), nil
-			} else if len(s) == 3 {
-				return hexToByte(s[2]), nil
-			}
-			return 0, fmt.Errorf("not a hex digit %v", s)
-		} else {
-			switch len(s) {
-			case 4:
-				o := (int(s[1]-'0') * 64) + (int(s[2]-'0') * 8) + int(s[3]-'0')
-				if o >= 255 {
-					return 0, fmt.Errorf("octal too large %d", o)
-				}
-				return byte(o), nil
-			case 3:
-				return byte((s[1]-'0')*8 + (s[2] - '0')), nil
-			case 2:
-				return byte(s[1] - '0'), nil
-			}
-			return 0, nil
-		}
+		return parseChar(s)
+	}
+	i, err := strconv.ParseUint(s, 0, 8)
+	if err != nil {
+		return 0, err
+	}
+	return byte(i), nil
+}
+
+func parseChar(s string) (byte, error) {
+	if len(s) < 3 || s[len(s)-1] != '\'' {
+		return 0, fmt.Errorf("invalid character %s", s)
+	}
+	c := s[1 : len(s)-1]
+	if c == "'" || c == `\"` {
+		return c[len(c)-1], nil
 	}
-	i, err := strconv.Atoi(s)
+	r, _, tail, err := strconv.UnquoteChar(c, '\'')
 	if err != nil {
 		return 0, err
 	}
-	if i >= 0 && i <= 255 {
-		return byte(i), nil
+	if len(tail) > 0 {
+		return 0, fmt.Errorf("invalid character %s", s)
+	}
+	if r > 255 {
+		return 0, fmt.Errorf("rune too large %v", r)
 	}
-	return 0, fmt.Errorf("int too large %d", i)
+	return byte(r), nil
 }
 
 //NewSDTName is a parser utility function that returns a NameExpr given a white space and a terminal value expression.
-- 
2.43.0


From 689edebed3fea21de27f167784979960af0ede48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 19/49] fix: refuse a string literal that cannot be unquoted,
 instead of keeping its quotes

---
 relapse/ast/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 2c4c550..495c826 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -95,7 +95,11 @@ func NewBoolTerminal(v interface{}) *Terminal {
 //NewStringTerminal is a parser utility function that returns a Terminal of type string given a string literal.
 //The input string is also unquoted.
 func NewStringTerminal(slit string) (*Terminal, error) {
-	return &Terminal{StringValue: proto.String(ToString(slit)), Literal: slit}, nil
+	s, err := strconv.Unquote(slit)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{StringValue: proto.String(s), Literal: slit}, nil
 }
 
 //ToString unquotes a quoted string or returns the original string.
-- 
2.43.0


From d02ddbe3d67deaaab9a4715d8c38119741493173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 20/49] fix: print the arrow and the comma before an operator
 expression

---
 relapse/ast/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 7b98781..46e7e88 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -144,7 +144,7 @@ func (this *Expr) String() string {
 	if this.Function != nil {
 		return space + this.GetFunction().String()
 	}
-	return this.BuiltIn.String()
+	return space + this.BuiltIn.String()
 }
 
 //String returns the relapse string representation of the NameExpr instance.
-- 
2.43.0


From 041ee90e3de2e0816369522d970737d740d71da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 21/49] fix: turn the operator around when a constant comes
 first in Value

---
 relapse/combinator/funcs.go | 55 +++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/relapse/combinator/funcs.go b/relapse/combinator/funcs.go
index 7e85d2b..f270056 100644
--- a/relapse/combinator/funcs.go
+++ b/relapse/combinator/funcs.go
@@ -23,21 +23,20 @@ import (
 //Value represents a field value.
 func Value(expr *ast.Expr) *ast.Pattern {
 	if expr.Function != nil && len(expr.Function.Params) == 2 {
-		constructor := ast.FunctionNameToBuiltIn(expr.Function.Name)
-		if constructor != nil {
-			p1 := expr.Function.Params[0]
-			p2 := expr.Function.Params[1]
-			if p1.Terminal != nil && p1.Terminal.Variable != nil &&
-				p2.Terminal != nil && p2.Terminal.Variable == nil {
-				p := p2.Clone()
-				p.Comma = nil
-				expr = constructor(p)
-			} else if p2.Terminal != nil && p2.Terminal.Variable != nil &&
-				p1.Terminal != nil && p1.Terminal.Variable == nil {
-				p := p1.Clone()
-				p.Comma = nil
-				expr = constructor(p)
-			}
+		name := expr.Function.Name
+		p1 := expr.Function.Params[0]
+		p2 := expr.Function.Params[1]
+		var constant *ast.Expr
+		if isVar(p1) && isConst(p2) && name != "regex" {
+			constant = p2
+		} else if isConst(p1) && isVar(p2) {
+			name = swapped(name)
+			constant = p1
+		}
+		if constructor := ast.FunctionNameToBuiltIn(name); constant != nil && constructor != nil {
+			p := constant.Clone()
+			p.Comma = nil
+			expr = constructor(p)
 		}
 	}
 	e, err := parser.ParseExpr(expr.String())
@@ -47,6 +46,32 @@ func Value(expr *ast.Expr) *ast.Pattern {
 	return ast.NewLeafNode(e)
 }
 
+func isVar(e *ast.Expr) bool {
+	return e.Terminal != nil && e.Terminal.Variable != nil
+}
+
+func isConst(e *ast.Expr) bool {
+	return e.Terminal != nil && e.Terminal.Variable == nil
+}
+
+//swapped returns the name of the function that has the variable as its first parameter and the same value
+//as the function with the given name that has the variable as its second parameter, or an empty string if there is none.
+func swapped(name string) string {
+	switch name {
+	case "lt":
+		return "gt"
+	case "le":
+		return "ge"
+	case "gt":
+		return "lt"
+	case "ge":
+		return "le"
+	case "eq", "ne", "regex":
+		return name
+	}
+	return ""
+}
+
 func Eq(left, right *ast.Expr) *ast.Expr {
 	return ast.NewFunction("eq", left, right)
 }
-- 
2.43.0


From 62a9ac626437f62394af261156b374c2ae27d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 22/49] fix: give terminals that are equal the same hash

---
 relapse/ast/compare.go     | 18 ++++++++++++++++++
 relapse/ast/derived.gen.go | 20 +-------------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/relapse/ast/compare.go b/relapse/ast/compare.go
index d7c6b84..d606279 100644
--- a/relapse/ast/compare.go
+++ b/relapse/ast/compare.go
@@ -95,3 +95,21 @@ func (this *Terminal) Compare(that *Terminal) int {
 	}
 	return 0
 }
+
+func (this *Terminal) Hash() uint64 {
+	if this == nil {
+		return 0
+	}
+	h := uint64(17)
+	h = 31*h + deriveHash_16(this.Before)
+	// the Literal is left out, since Equal and Compare do not look at it.
+	h = 31*h + 17
+	h = 31*h + deriveHash_26(this.DoubleValue)
+	h = 31*h + deriveHash_27(this.IntValue)
+	h = 31*h + deriveHash_28(this.UintValue)
+	h = 31*h + deriveHash_29(this.BoolValue)
+	h = 31*h + deriveHash_30(this.StringValue)
+	h = 31*h + deriveHash_31(this.BytesValue)
+	h = 31*h + deriveHash_32(this.Variable)
+	return h
+}
diff --git a/relapse/ast/derived.gen.go b/relapse/ast/derived.gen.go
index 51b6c94..9aa4e16 100644
--- a/relapse/ast/derived.gen.go
+++ b/relapse/ast/derived.gen.go
@@ -2784,7 +2784,7 @@ func deriveHash_15(object *Expr) uint64 {
 	h := uint64(17)
 	h = 31*h + deriveHash_13(object.RightArrow)
 	h = 31*h + deriveHash_13(object.Comma)
-	h = 31*h + deriveHash_21(object.Terminal)
+	h = 31*h + object.Terminal.Hash()
 	h = 31*h + deriveHash_22(object.List)
 	h = 31*h + deriveHash_23(object.Function)
 	h = 31*h + deriveHash_24(object.BuiltIn)
@@ -3217,24 +3217,6 @@ func deriveHash_20(object *NameChoice) uint64 {
 	return h
 }
 
-// deriveHash_21 returns the hash of the object.
-func deriveHash_21(object *Terminal) uint64 {
-	if object == nil {
-		return 0
-	}
-	h := uint64(17)
-	h = 31*h + deriveHash_16(object.Before)
-	h = 31*h + deriveHash_s(object.Literal)
-	h = 31*h + deriveHash_26(object.DoubleValue)
-	h = 31*h + deriveHash_27(object.IntValue)
-	h = 31*h + deriveHash_28(object.UintValue)
-	h = 31*h + deriveHash_29(object.BoolValue)
-	h = 31*h + deriveHash_30(object.StringValue)
-	h = 31*h + deriveHash_31(object.BytesValue)
-	h = 31*h + deriveHash_32(object.Variable)
-	return h
-}
-
 // deriveHash_22 returns the hash of the object.
 func deriveHash_22(object *List) uint64 {
 	if object == nil {
-- 
2.43.0


From 9bb9555fd6a157cfee173660def3007bca489517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 23/49] fix: keep the equal sign of a declaration apart from an
 operator expression

---
 relapse/ast/string.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 46e7e88..0237073 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -38,8 +38,13 @@ func (this *Grammar) String() string {
 
 //String returns the relapse string representation of the PatternDecl instance.
 func (this *PatternDecl) String() string {
+	pattern := this.Pattern.String()
+	if strings.HasPrefix(pattern, "=") {
+		// keeps the equal sign apart from the operator.
+		pattern = " " + pattern
+	}
 	return this.Hash.String() + this.Before.String() + this.Name +
-		this.Eq.String() + this.Pattern.String()
+		this.Eq.String() + pattern
 }
 
 //String returns the relapse string representation of the Pattern instance.
-- 
2.43.0


From fa186eb3bd2ea0ac4048c2320a18547f90c6b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 24/49] fix: read unicode escapes in json strings

---
 parser/json/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/json/json.go b/parser/json/json.go
index d4eb643..db76537 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -48,6 +48,7 @@ func scanString(buf []byte) (int, error) {
 				escaped = false
 				continue
 			case 'u':
+				escaped = false
 				udigits = 0
 				continue
 			}
-- 
2.43.0


From b42a5da717321004727b0e21ebbcd689ac59bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 25/49] fix: ignore brackets inside strings when a json object
 or array is skipped

---
 parser/json/json.go | 51 ++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index db76537..fad3c55 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -197,23 +197,35 @@ func (s *jsonParser) scanNull() error {
 	return s.skipSpace()
 }
 
-func (s *jsonParser) scanArray() error {
+//scanNested returns the index, relative to the offset, of the bracket that closes the one at the offset.
+//Brackets inside strings do not count.
+func (s *jsonParser) scanNested(open, close byte) (int, error) {
+	buf := s.buf[s.offset:]
 	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '[' {
+	for i := 0; i < len(buf); i++ {
+		switch buf[i] {
+		case '"':
+			n, err := scanString(buf[i:])
+			if err != nil {
+				return 0, err
+			}
+			i += n - 1
+		case open:
 			count++
-		}
-		if c == ']' {
+		case close:
 			count--
 		}
 		if count == 0 {
-			index = i
-			break
+			return i, nil
 		}
 	}
-	if count != 0 {
-		return s.expected("]")
+	return 0, s.expected(string([]byte{close}))
+}
+
+func (s *jsonParser) scanArray() error {
+	index, err := s.scanNested('[', ']')
+	if err != nil {
+		return err
 	}
 	s.startValueOffset = s.offset
 	s.endValueOffset = s.offset + index + 1
@@ -223,22 +235,9 @@ func (s *jsonParser) scanArray() error {
 }
 
 func (s *jsonParser) scanObject() error {
-	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '{' {
-			count++
-		}
-		if c == '}' {
-			count--
-		}
-		if count == 0 {
-			index = i
-			break
-		}
-	}
-	if count != 0 {
-		return s.expected("}")
+	index, err := s.scanNested('{', '}')
+	if err != nil {
+		return err
 	}
 	s.startValueOffset = s.offset
 	s.endValueOffset = s.offset + index + 1
-- 
2.43.0


From 6aa328430ffc2f17346992007d0c01522ee04773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:45 +0000
Subject: [PATCH 26/49] fix: report the end of a truncated json document
 instead of panicking

---
 parser/json/json.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index fad3c55..a341ebd 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -32,13 +32,13 @@ func errInString(buf []byte) error {
 }
 
 func isString(buf []byte) bool {
-	return buf[0] == '"'
+	return len(buf) > 0 && buf[0] == '"'
 }
 
 func scanString(buf []byte) (int, error) {
 	escaped := false
 	udigits := -1
-	if buf[0] != '"' {
+	if !isString(buf) {
 		return 0, errInString(buf)
 	}
 	for i, c := range buf[1:] {
@@ -76,7 +76,7 @@ func scanString(buf []byte) (int, error) {
 			return 0, errInString(buf)
 		}
 	}
-	panic("unreachable")
+	return 0, io.ErrShortBuffer
 }
 
 func isNumber(c byte) bool {
@@ -97,11 +97,19 @@ func skipSpace(buf []byte) int {
 }
 
 func (s *jsonParser) expected(expected string) error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	return fmt.Errorf("katydid/json/parser: expected '%s' at offset %d, but got '%c'", expected, s.offset, s.buf[s.offset])
 }
 
+//at returns whether the offset is at the given character, which it is not at the end of the buffer.
+func (s *jsonParser) at(c byte) bool {
+	return s.offset < len(s.buf) && s.buf[s.offset] == c
+}
+
 func (s *jsonParser) scanOpenObject() error {
-	if s.buf[s.offset] == '{' {
+	if s.at('{') {
 		s.offset++
 	} else {
 		return s.expected("{")
@@ -110,7 +118,7 @@ func (s *jsonParser) scanOpenObject() error {
 }
 
 func (s *jsonParser) scanOpenArray() error {
-	if s.buf[s.offset] == '[' {
+	if s.at('[') {
 		s.offset++
 	} else {
 		return s.expected("[")
@@ -317,6 +325,9 @@ func (s *jsonParser) scanNumber() error {
 }
 
 func (s *jsonParser) scanValue() error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	c := s.buf[s.offset]
 	if isNumber(c) {
 		return s.scanNumber()
@@ -339,7 +350,7 @@ func (s *jsonParser) scanValue() error {
 }
 
 func (s *jsonParser) scanColon() error {
-	if s.buf[s.offset] != ':' {
+	if !s.at(':') {
 		return s.expected(":")
 	}
 	s.offset++
@@ -347,21 +358,21 @@ func (s *jsonParser) scanColon() error {
 }
 
 func (s *jsonParser) scanCloseObject() error {
-	if s.buf[s.offset] == '}' {
+	if s.at('}') {
 		return io.EOF
 	}
 	return s.expected("}")
 }
 
 func (s *jsonParser) scanCloseArray() error {
-	if s.buf[s.offset] == ']' {
+	if s.at(']') {
 		return io.EOF
 	}
 	return s.expected("]")
 }
 
 func (s *jsonParser) scanComma() error {
-	if s.buf[s.offset] != ',' {
+	if !s.at(',') {
 		return s.expected(",")
 	}
 	s.offset++
@@ -375,7 +386,7 @@ func (s *jsonParser) nextValueInArray() error {
 		}
 		s.firstArrayValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.at(',') {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -383,7 +394,7 @@ func (s *jsonParser) nextValueInArray() error {
 			return s.scanCloseArray()
 		}
 	}
-	if s.buf[s.offset] == ']' {
+	if s.at(']') {
 		return s.scanCloseArray()
 	}
 	return s.scanValue()
@@ -396,7 +407,7 @@ func (s *jsonParser) nextValueInObject() error {
 		}
 		s.firstObjectValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.at(',') {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -552,9 +563,9 @@ func (s *jsonParser) Init(buf []byte) error {
 	if err := s.skipSpace(); err != nil {
 		return err
 	}
-	if s.buf[s.offset] == '{' {
+	if s.at('{') {
 		//do nothing
-	} else if s.buf[s.offset] == '[' {
+	} else if s.at('[') {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
-- 
2.43.0


From 07b27ec2ce954f3853c8c7e0cc545ae7a323234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 27/49] fix: a json number below the smallest int is not an int

---
 parser/json/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/json/json.go b/parser/json/json.go
index a341ebd..eb9f794 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -475,6 +475,9 @@ func (s *jsonParser) Int() (int64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
 		i, err := strconv.ParseInt(v, 10, 64)
+		if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
+			return 0, err
+		}
 		if err != nil {
 			f, ferr := strconv.ParseFloat(v, 64)
 			if ferr != nil {
-- 
2.43.0


From 03d76ec43895a506b8602e2c2868cb19adbae462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 28/49] fix: decode negative sint32 values

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 8866993..6f54fe2 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -465,7 +465,7 @@ func (s *protoParser) decodeSint32() (int32, error) {
 	if n <= 0 {
 		return 0, fmt.Errorf("decodeVarint n = %d", n)
 	}
-	return int32((uint32(v) >> 1) ^ uint32(((v&1)<<31)>>31)), nil
+	return int32((uint32(v) >> 1) ^ uint32((int32(v&1)<<31)>>31)), nil
 }
 
 func (s *protoParser) decodeSint64() (int64, error) {
-- 
2.43.0


From 8c595d40cf337fec1c505217d1de86c38200adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 29/49] fix: refuse a protocol buffer value that is longer than
 the buffer

---
 parser/proto/proto.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 6f54fe2..1898db0 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -71,11 +71,20 @@ func length(wireType int, buf []byte) (prefix int, l int, err error) {
 		_, n2, err := uvarint(buf)
 		return 0, n2, err
 	case 1:
+		if len(buf) < 8 {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return 0, 8, nil
 	case 2:
 		l, n2, err := uvarint(buf)
+		if err == nil && l > uint64(len(buf)-n2) {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return n2, int(l), err
 	case 5:
+		if len(buf) < 4 {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return 0, 4, nil
 	}
 	return 0, 0, errUnknownWireType
-- 
2.43.0


From 8b8124804a5ae1a3da93fa1c6970b925fe5b2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:17 +0000
Subject: [PATCH 30/49] fix: an element of a packed field is only labelled with
 its index

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 1898db0..ca497ab 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -379,7 +379,7 @@ func (s *protoParser) Bool() (bool, error) {
 
 func (s *protoParser) String() (string, error) {
 	if !s.isLeaf {
-		if s.fieldNames && !s.inRepeated {
+		if s.fieldNames && !s.inRepeated && !s.inPacked {
 			return s.field.GetName(), nil
 		}
 		return "", parser.ErrNotString
-- 
2.43.0


From ce41da239c8dc1dbe1f56faf1fd71cae36a1100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 31/49] fix: read all kinds of ints and uints of reflected
 values, instead of panicking on int8 and uint8

---
 parser/reflect/reflect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index ea52340..d51da63 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -130,7 +130,7 @@ func (s *reflectParser) Int() (int64, error) {
 	if s.isLeaf {
 		value := s.getValue()
 		switch value.Kind() {
-		case reflect.Int64, reflect.Int32:
+		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
 			return value.Int(), nil
 		}
 	}
@@ -141,7 +141,7 @@ func (s *reflectParser) Uint() (uint64, error) {
 	if s.isLeaf {
 		value := s.getValue()
 		switch value.Kind() {
-		case reflect.Uint64, reflect.Uint32:
+		case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
 			return value.Uint(), nil
 		}
 	}
@@ -175,7 +175,7 @@ func (s *reflectParser) Bytes() ([]byte, error) {
 	if s.isLeaf {
 		value := s.getValue()
 		switch value.Kind() {
-		case reflect.Slice, reflect.Uint8, reflect.Int8:
+		case reflect.Slice:
 			return value.Bytes(), nil
 		}
 	}
-- 
2.43.0


From cf0de9ccc30bc561730ac9ced31abbad995be1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 32/49] fix: an element of a reflected slice has no name

---
 parser/reflect/reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index d51da63..d92cd99 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -160,6 +160,9 @@ func (s *reflectParser) Bool() (bool, error) {
 }
 
 func (s *reflectParser) String() (string, error) {
+	if s.isArray {
+		return "", parser.ErrNotString
+	}
 	if !s.isLeaf {
 		return s.typ.Name, nil
 	}
-- 
2.43.0


From 4fd81662a1fa907825b4f3d893edb77ae9f749c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 33/49] fix: forget the position in the previous xml document
 in Init and Reset

---
 parser/xml/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index e731336..c443080 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -88,6 +88,11 @@ func (p *xmlParser) Init(buf []byte) error {
 	p.buf = buf
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
+	p.attrValue = false
+	p.attrFirst = false
 	return nil
 }
 
-- 
2.43.0


From b58b1de8e3e919ee02ad6ee1570b4f3a0fadb400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:39 +0000
Subject: [PATCH 34/49] fix: skip the rest of the attributes when moving up
 from an xml attribute

---
 parser/xml/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index c443080..b5239ab 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -243,6 +243,11 @@ func (p *xmlParser) Up() {
 		p.attrIndex = 0
 		return
 	}
+	if p.tok == nil {
+		// the rest of the attributes are skipped.
+		p.attrs = nil
+		p.attrIndex = 0
+	}
 	if err := p.dec.Skip(); err != nil {
 		if err != io.EOF {
 			panic(err)
-- 
2.43.0


From 804f494574a248b1881ce173d9dda3ed9d05c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 35/49] fix: only remove processing instructions from xml, not
 what is between two of them

---
 parser/xml/parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index b5239ab..20cf8d4 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -80,10 +80,18 @@ func WithTextPrefix(e string) func(x *xmlParser) {
 	}
 }
 
-var procInstPattern = regexp.MustCompile(`<\?.*\?>`)
+// procInstPattern also matches comments and character data, since these can contain what looks like a processing instruction.
+var procInstPattern = regexp.MustCompile(`(?s)<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>`)
+
+func removeProcInst(m []byte) []byte {
+	if m[1] == '?' {
+		return nil
+	}
+	return m
+}
 
 func (p *xmlParser) Init(buf []byte) error {
-	buf = procInstPattern.ReplaceAll(buf, []byte{})
+	buf = procInstPattern.ReplaceAllFunc(buf, removeProcInst)
 	buf = bytes.TrimSpace(buf)
 	p.buf = buf
 	p.dec = NewDecoder(NewBuffer(buf))
-- 
2.43.0


From cd8d8e8e1fabf5d93a413449f9f68d4df08a5b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:11 +0000
Subject: [PATCH 36/49] fix: report the unexpected end of an xml document, like
 encoding/xml

---
 parser/xml/xml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/xml/xml.go b/parser/xml/xml.go
index c43616c..d3cda7b 100644
--- a/parser/xml/xml.go
+++ b/parser/xml/xml.go
@@ -244,6 +244,9 @@ func (d *Decoder) Token() (t Token, err error) {
 		t = d.nextToken
 		d.nextToken = nil
 	} else if t, err = d.rawToken(); err != nil {
+		if err == io.EOF && d.stk != nil && d.stk.kind != stkEOF {
+			err = d.syntaxError("unexpected EOF")
+		}
 		return
 	}
 
-- 
2.43.0


From fb3fb2c30da65b52b15d19d2a1ca8836a435bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:38 +0000
Subject: [PATCH 37/49] fix: report an error after moving up in malformed xml,
 instead of panicking

---
 parser/xml/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index 20cf8d4..46011c3 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -37,6 +37,7 @@ type xmlParser struct {
 	attrPrefix string
 	elemPrefix string
 	textPrefix string
+	err        error
 }
 
 //XMLParser is an xml parser.
@@ -101,6 +102,7 @@ func (p *xmlParser) Init(buf []byte) error {
 	p.attrIndex = 0
 	p.attrValue = false
 	p.attrFirst = false
+	p.err = nil
 	return nil
 }
 
@@ -113,6 +115,9 @@ func hasContent(c CharData) bool {
 }
 
 func (p *xmlParser) Next() (err error) {
+	if p.err != nil {
+		return p.err
+	}
 	if p.attrValue {
 		if p.attrFirst {
 			p.attrFirst = false
@@ -257,9 +262,8 @@ func (p *xmlParser) Up() {
 		p.attrIndex = 0
 	}
 	if err := p.dec.Skip(); err != nil {
-		if err != io.EOF {
-			panic(err)
-		}
+		// Up cannot return an error, so the following call to Next will.
+		p.err = err
 	}
 }
 
-- 
2.43.0


From 10627deb9299d7db60bccbf9985ea9ba20f588f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 38/49] fix: leave processing instructions in unfinished xml
 comments and character data alone

---
 parser/xml/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index 46011c3..c103817 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -82,7 +82,7 @@ func WithTextPrefix(e string) func(x *xmlParser) {
 }
 
 // procInstPattern also matches comments and character data, since these can contain what looks like a processing instruction.
-var procInstPattern = regexp.MustCompile(`(?s)<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>`)
+var procInstPattern = regexp.MustCompile(`(?s)<!--.*?(?:-->|\z)|<!\[CDATA\[.*?(?:\]\]>|\z)|<\?.*?\?>`)
 
 func removeProcInst(m []byte) []byte {
 	if m[1] == '?' {
-- 
2.43.0


From 1489275fb91e2e40d0f4d733a5f0b34caaf164b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 39/49] fix: ignore the space around numbers and bools in yaml

---
 parser/yaml/yaml.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 11c751c..223152e 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -16,6 +16,7 @@
 package yaml
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -323,6 +324,9 @@ func (s *yamlParser) Bytes() ([]byte, error) {
 func (s *yamlParser) Double() (float64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
+		if hasLeadingZero(v) {
+			return 0, parser.ErrNotDouble
+		}
 		i, err := strconv.ParseFloat(v, 64)
 		return i, err
 	}
@@ -332,6 +336,9 @@ func (s *yamlParser) Double() (float64, error) {
 func (s *yamlParser) Int() (int64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
+		if hasLeadingZero(v) {
+			return 0, parser.ErrNotInt
+		}
 		i, err := strconv.ParseInt(v, 10, 64)
 		if err != nil {
 			f, ferr := strconv.ParseFloat(v, 64)
@@ -373,14 +380,23 @@ func (s *yamlParser) String() (string, error) {
 func (s *yamlParser) Uint() (uint64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
+		if hasLeadingZero(v) {
+			return 0, parser.ErrNotUint
+		}
 		i, err := strconv.ParseUint(v, 10, 64)
 		return uint64(i), err
 	}
 	return 0, parser.ErrNotUint
 }
 
+// hasLeadingZero returns whether a value, for example a telephone number, only looks like a number.
+func hasLeadingZero(v string) bool {
+	v = strings.TrimLeft(v, "+-")
+	return len(v) > 1 && v[0] == '0' && isDigit(v[1])
+}
+
 func (s *yamlParser) Value() []byte {
-	return s.buf[s.startValueOffset:s.endValueOffset]
+	return bytes.TrimSpace(s.buf[s.startValueOffset:s.endValueOffset])
 }
 
 func isSpace(c byte) bool {
-- 
2.43.0


From b63261a6d17ae7d01044a88272f05b66a04f7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:36 +0000
Subject: [PATCH 40/49] fix: a key without a value in the last element of a
 yaml array is not a string

---
 parser/yaml/yaml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 223152e..d7e31c3 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -226,6 +226,7 @@ func (s *yamlParser) nextValueInArray() error {
 	if err != nil { // no next line
 		s.startValueOffset = line.nameStart
 		s.endValueOffset = s.offset
+		s.isValueObject = true
 		return nil
 	}
 
-- 
2.43.0


From 358033ad2bf89c9739ce1f56488018c02abe73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 41/49] fix: a yaml number below the smallest int is not an int

---
 parser/yaml/yaml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index d7e31c3..efe1b85 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -342,6 +342,9 @@ func (s *yamlParser) Int() (int64, error) {
 		}
 		i, err := strconv.ParseInt(v, 10, 64)
 		if err != nil {
+			if errors.Is(err, strconv.ErrRange) {
+				return i, err
+			}
 			f, ferr := strconv.ParseFloat(v, 64)
 			if ferr != nil {
 				return i, err
-- 
2.43.0


From 92f791c11c5ed582d0cbd0cf7097e9d0b24e2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:53 +0000
Subject: [PATCH 42/49] fix: a yaml array element without a value is null

---
 parser/yaml/yaml.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index efe1b85..cf130ed 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -502,16 +502,17 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 		i++
 		// skip spaces
 		for ; i < len(buf); i++ {
-			if buf[i] == '\n' {
-				return &Line{
-						isArray: true, indent: indent,
-					},
-					nil
-			}
-			if !isSpace(buf[i]) {
+			if buf[i] == '\n' || !isSpace(buf[i]) {
 				break
 			}
 		}
+		if i == len(buf) || buf[i] == '\n' {
+			// an element without a value
+			return &Line{
+					isArray: true, indent: indent, nameStart: s.offset + i,
+				},
+				nil
+		}
 	}
 
 	var name []byte
@@ -680,17 +681,18 @@ func (s *yamlParser) scanLine() (*Line, error) {
 		i++
 		// skip spaces
 		for ; i < len(buf); i++ {
-			if buf[i] == '\n' {
-				s.offset += i
-				return &Line{
-						isArray: true, indent: indent,
-					},
-					nil
-			}
-			if !isSpace(buf[i]) {
+			if buf[i] == '\n' || !isSpace(buf[i]) {
 				break
 			}
 		}
+		if i == len(buf) || buf[i] == '\n' {
+			// an element without a value
+			s.offset += i
+			return &Line{
+					isArray: true, indent: indent, nameStart: s.offset,
+				},
+				nil
+		}
 	}
 
 	var name []byte
-- 
2.43.0


From 0f50b8a32a1d743241cd66418fc13191f40dfd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:37 +0000
Subject: [PATCH 43/49] fix: encode/proto: grow the buffer by the offset too,
 and before an embedded message

With a buffer that was smaller than what had to be written, checkSize could
return a buffer that was still too small, and an embedded message was sliced
out of a buffer that ended before it.
---
 encode/proto/proto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 18f293d..11ac94f 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -197,6 +197,7 @@ type msgField struct {
 
 func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	msginitoff := offset + 20
+	buf = checkSize(buf, offset, 20)
 	msgbuf, msgfinaloff, err := this.msg.encode(buf, msginitoff, p)
 	if err != nil {
 		return nil, 0, err
@@ -210,7 +211,7 @@ func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 
 func checkSize(buf []byte, offset int, size int) []byte {
 	if offset+size > len(buf) {
-		newbuf := make([]byte, len(buf)*3+size+1)
+		newbuf := make([]byte, len(buf)*3+offset+size+1)
 		copy(newbuf, buf)
 		buf = newbuf
 	}
-- 
2.43.0


From 893b1851b0ade9c039bd137b2d54cf91d94e6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:37 +0000
Subject: [PATCH 44/49] fix: encode/proto: return the error of the parser for
 the value of a field

Only io.EOF means that there is no value.
---
 encode/proto/proto.go | 65 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 11ac94f..70013fd 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -267,7 +267,10 @@ type doubleField struct {
 
 func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -291,7 +294,10 @@ type floatField struct {
 
 func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -315,7 +321,10 @@ type intField struct {
 
 func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -339,7 +348,10 @@ type uintField struct {
 
 func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -363,7 +375,10 @@ type fixed64UintField struct {
 
 func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -387,7 +402,10 @@ type fixed32UintField struct {
 
 func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -411,7 +429,10 @@ type boolField struct {
 
 func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -439,7 +460,10 @@ type stringField struct {
 
 func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -465,7 +489,10 @@ type bytesField struct {
 
 func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -490,7 +517,10 @@ type fixed64IntField struct {
 
 func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -514,7 +544,10 @@ type fixed32IntField struct {
 
 func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -538,7 +571,10 @@ type sint32Field struct {
 
 func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -562,7 +598,10 @@ type sint64Field struct {
 
 func (this *sint64Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
-- 
2.43.0


From eae295cad4992669f13141b2ee8dbd8a4df7791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:50 +0000
Subject: [PATCH 45/49] fix: encode/proto: messages that contain themselves

NewEncoder did not return for the description of a recursive message.
---
 encode/proto/proto.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 70013fd..67126af 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -42,7 +42,7 @@ func NewEncoder(desc *descriptor.FileDescriptorSet, pkgName, msgName string) (En
 	if err != nil {
 		return nil, err
 	}
-	return &encoder{msg: newMsg(descMap, descMap.GetRoot())}, nil
+	return &encoder{msg: newMsg(newMsgMap(descMap), descMap.GetRoot())}, nil
 }
 
 type encoder struct {
@@ -67,8 +67,22 @@ type fieldEncoder interface {
 	encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error)
 }
 
-func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg {
+//msgMap remembers the encoders of messages, since a message can contain itself.
+type msgMap struct {
+	protoparser.DescMap
+	msgs map[*descriptor.DescriptorProto]*msg
+}
+
+func newMsgMap(desc protoparser.DescMap) *msgMap {
+	return &msgMap{desc, make(map[*descriptor.DescriptorProto]*msg)}
+}
+
+func newMsg(desc *msgMap, protomsg *descriptor.DescriptorProto) *msg {
+	if msg, ok := desc.msgs[protomsg]; ok {
+		return msg
+	}
 	msg := &msg{make(map[string]fieldEncoder)}
+	desc.msgs[protomsg] = msg
 	for _, f := range protomsg.GetField() {
 		fieldEnc := newFieldEncoder(desc, f)
 		msg.fieldEncoders[f.GetName()] = fieldEnc
@@ -76,14 +90,14 @@ func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg
 	return msg
 }
 
-func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newFieldEncoder(desc *msgMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	if f.IsRepeated() {
 		return newRepeatedField(desc, f)
 	}
 	return newSingleField(desc, f)
 }
 
-func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newSingleField(desc *msgMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
 		return newDoubleField(f)
@@ -154,7 +168,7 @@ type repeatedField struct {
 	fieldEnc fieldEncoder
 }
 
-func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
+func newRepeatedField(desc *msgMap, f *descriptor.FieldDescriptorProto) *repeatedField {
 	return &repeatedField{
 		key:      f.GetKey(),
 		fieldEnc: newSingleField(desc, f),
@@ -183,7 +197,7 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 	}
 }
 
-func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
+func newMsgField(desc *msgMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
 	return &msgField{
 		key: field.GetKey(),
 		msg: newMsg(desc, msg),
-- 
2.43.0


From 61a57427cb192e7754c752ef9cde41d35a52e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 46/49] fix: encode/reflect: return the errors of the parser
 instead of panicking

---
 encode/reflect/reflect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 4703e2c..8a015ca 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -44,7 +44,7 @@ func encodeStruct(p parser.Interface, v reflect.Value) error {
 			if err == io.EOF {
 				return nil
 			} else {
-				panic(err)
+				return err
 			}
 		}
 		if p.IsLeaf() {
@@ -106,7 +106,7 @@ func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 			if err == io.EOF {
 				return list, nil
 			} else {
-				panic(err)
+				return reflect.ValueOf(nil), err
 			}
 		}
 		if p.IsLeaf() {
@@ -161,7 +161,7 @@ func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
 		if err == io.EOF {
 			return reflect.ValueOf(nil), nil
 		} else {
-			panic(err)
+			return reflect.ValueOf(nil), err
 		}
 	}
 	if !p.IsLeaf() {
-- 
2.43.0


From 91852922baf92713731ecf7f37ac049a4a79fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 47/49] fix: encode/reflect: set fields and elements by the
 type that they have

The value of the first accessor of the parser was set, whatever the type of
the field: integers only worked for int64, so that Encode panicked for int32,
uint64 with a parser that has both, float64 of a whole number, and pointers to
scalars. It also panicked for a leaf without a value, took fields of bytes for
lists, and asked IsLeaf before Next.
---
 encode/reflect/reflect.go | 259 ++++++++++++++++++++------------------
 1 file changed, 138 insertions(+), 121 deletions(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 8a015ca..730340d 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -24,166 +24,183 @@ import (
 )
 
 //Encode encodes a parser.Interface into a go structure value.
+//v has to be a pointer to a struct.
 func Encode(p parser.Interface, v interface{}) error {
 	r := reflect.ValueOf(v)
-	return encodeStruct(p, r)
+	if r.Kind() != reflect.Ptr || r.IsNil() || r.Type().Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("expected pointer to struct")
+	}
+	isNull, err := setStruct(p, r.Elem())
+	if err != nil {
+		return err
+	}
+	if isNull {
+		return fmt.Errorf("struct: did not expect leaf")
+	}
+	return nil
+}
+
+//setValue sets v to the value that the parser has just gone Down to.
+//It returns true, without having set v, if this is a leaf without a value, or nothing where a leaf is expected.
+func setValue(p parser.Interface, v reflect.Value) (bool, error) {
+	switch {
+	case v.Kind() == reflect.Ptr:
+		elem := reflect.New(v.Type().Elem())
+		isNull, err := setValue(p, elem.Elem())
+		if err != nil || isNull {
+			return isNull, err
+		}
+		v.Set(elem)
+		return false, nil
+	case v.Kind() == reflect.Struct:
+		return setStruct(p, v)
+	case v.Kind() == reflect.Slice && !isBytes(v):
+		return setList(p, v)
+	}
+	if err := p.Next(); err != nil {
+		if err == io.EOF {
+			return true, nil
+		}
+		return false, err
+	}
+	if !p.IsLeaf() {
+		return false, fmt.Errorf("expected leaf")
+	}
+	if isNull(p) {
+		return true, nil
+	}
+	return false, setLeaf(p, v)
+}
+
+func isBytes(v reflect.Value) bool {
+	return v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8
 }
 
-func encodeStruct(p parser.Interface, v reflect.Value) error {
-	kind := v.Type().Kind()
-	isPtr := false
-	if kind == reflect.Ptr {
-		kind = v.Type().Elem().Kind()
-		isPtr = true
+func isNull(p parser.Interface) bool {
+	if _, err := p.Int(); err == nil {
+		return false
 	}
-	if kind != reflect.Struct {
-		return fmt.Errorf("expected struct")
+	if _, err := p.Uint(); err == nil {
+		return false
 	}
+	if _, err := p.Double(); err == nil {
+		return false
+	}
+	if _, err := p.Bool(); err == nil {
+		return false
+	}
+	if _, err := p.String(); err == nil {
+		return false
+	}
+	_, err := p.Bytes()
+	return err != nil
+}
+
+func setStruct(p parser.Interface, strct reflect.Value) (bool, error) {
 	for {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				return nil
-			} else {
-				return err
+				return false, nil
 			}
+			return false, err
 		}
 		if p.IsLeaf() {
-			return fmt.Errorf("struct: did not expect leaf")
+			if isNull(p) {
+				return true, nil
+			}
+			return false, fmt.Errorf("struct: did not expect leaf")
 		}
 		name, err := p.String()
 		if err != nil {
-			return err
-		}
-		strct := v
-		if isPtr {
-			strct = v.Elem()
+			return false, err
 		}
 		field := strct.FieldByName(name)
-		if !field.IsValid() {
+		if !field.IsValid() || !field.CanSet() {
 			continue //skip field
 		}
-		fieldKind := field.Kind()
-		fieldIsPtr := false
-		fieldType := field.Type()
-		if fieldKind == reflect.Ptr {
-			fieldIsPtr = true
-			fieldKind = field.Type().Elem().Kind()
-			fieldType = field.Type().Elem()
-		}
 		p.Down()
-		switch fieldKind {
-		case reflect.Struct:
-			if !p.IsLeaf() {
-				if fieldIsPtr {
-					field.Set(reflect.New(field.Type().Elem()))
-				}
-				if err := encodeStruct(p, field); err != nil {
-					return err
-				}
-			}
-		case reflect.Slice:
-			list, err := newList(p, fieldType)
-			if err != nil {
-				return err
-			}
-			field.Set(list)
-		default:
-
-			value, err := newValue(p, fieldType)
-			if err != nil {
-				return err
-			}
-			field.Set(value)
+		if _, err := setValue(p, field); err != nil {
+			return false, err
 		}
 		p.Up()
 	}
 }
 
-func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
-	list := reflect.MakeSlice(typ, 0, 0)
+func setList(p parser.Interface, v reflect.Value) (bool, error) {
+	list := reflect.MakeSlice(v.Type(), 0, 0)
 	for {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				return list, nil
-			} else {
-				return reflect.ValueOf(nil), err
+				v.Set(list)
+				return false, nil
 			}
+			return false, err
 		}
 		if p.IsLeaf() {
-			return reflect.ValueOf(nil), fmt.Errorf("list: did not expect leaf")
-		}
-		_, err := p.Int()
-		if err != nil {
-			return reflect.ValueOf(nil), err
+			if isNull(p) {
+				return true, nil
+			}
+			return false, fmt.Errorf("list: did not expect leaf")
 		}
-		elemType := typ.Elem()
-		elemKind := elemType.Kind()
-		elemIsPtr := false
-		if elemKind == reflect.Ptr {
-			elemIsPtr = true
-			elemType = typ.Elem().Elem()
-			elemKind = elemType.Kind()
+		if _, err := p.Int(); err != nil {
+			return false, err
 		}
+		elem := reflect.New(v.Type().Elem()).Elem()
 		p.Down()
-		switch elemKind {
-		case reflect.Struct:
-			if !p.IsLeaf() {
-				elem := reflect.New(elemType).Elem()
-				if err := encodeStruct(p, elem); err != nil {
-					return reflect.ValueOf(nil), err
-				}
-				if elemIsPtr {
-					elem = elem.Addr()
-				}
-				list = reflect.Append(list, elem)
-			} else {
-				list = reflect.Append(list, reflect.Zero(typ.Elem()))
-			}
-		case reflect.Slice:
-			newList, err := newList(p, elemType)
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, newList)
-		default:
-			elem, err := newValue(p, typ.Elem())
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, elem)
+		if _, err := setValue(p, elem); err != nil {
+			return false, err
 		}
 		p.Up()
+		list = reflect.Append(list, elem)
 	}
 }
 
-func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
-	if err := p.Next(); err != nil {
-		if err == io.EOF {
-			return reflect.ValueOf(nil), nil
-		} else {
-			return reflect.ValueOf(nil), err
+func setLeaf(p parser.Interface, v reflect.Value) error {
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		i, err := p.Int()
+		if err != nil {
+			return err
 		}
+		if v.OverflowInt(i) {
+			return fmt.Errorf("%d overflows %v", i, v.Type())
+		}
+		v.SetInt(i)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		u, err := p.Uint()
+		if err != nil {
+			return err
+		}
+		if v.OverflowUint(u) {
+			return fmt.Errorf("%d overflows %v", u, v.Type())
+		}
+		v.SetUint(u)
+	case reflect.Float32, reflect.Float64:
+		d, err := p.Double()
+		if err != nil {
+			return err
+		}
+		v.SetFloat(d)
+	case reflect.Bool:
+		b, err := p.Bool()
+		if err != nil {
+			return err
+		}
+		v.SetBool(b)
+	case reflect.String:
+		s, err := p.String()
+		if err != nil {
+			return err
+		}
+		v.SetString(s)
+	case reflect.Slice:
+		b, err := p.Bytes()
+		if err != nil {
+			return err
+		}
+		v.SetBytes(append([]byte{}, b...))
+	default:
+		return fmt.Errorf("unsupported type %v", v.Type())
 	}
-	if !p.IsLeaf() {
-		return reflect.ValueOf(nil), fmt.Errorf("expected leaf")
-	}
-	if value, err := p.Int(); err == nil {
-		return reflect.ValueOf(value), nil
-	}
-	if value, err := p.Uint(); err == nil {
-		return reflect.ValueOf(value), nil
-	}
-	if value, err := p.Double(); err == nil {
-		return reflect.ValueOf(value), nil
-	}
-	if value, err := p.Bool(); err == nil {
-		return reflect.ValueOf(value), nil
-	}
-	if value, err := p.String(); err == nil {
-		return reflect.ValueOf(value), nil
-	}
-	if value, err := p.Bytes(); err == nil {
-		return reflect.ValueOf(value), nil
-	}
-	return reflect.ValueOf(nil), nil
+	return nil
 }
-- 
2.43.0


From 994124c9bdad91a55f8e97007fb615c9e5204bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 48/49] fix: sets.Zip kept duplicates of patterns when others
 had the same hash

---
 relapse/sets/sort.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relapse/sets/sort.go b/relapse/sets/sort.go
index ffd70c8..ef194fc 100644
--- a/relapse/sets/sort.go
+++ b/relapse/sets/sort.go
@@ -33,5 +33,9 @@ func (ps *sortable) Swap(i, j int) {
 }
 
 func (ps *sortable) Less(i, j int) bool {
+	if ps.hashes[i] == ps.hashes[j] {
+		//equal patterns have to be next to each other, also when another pattern has the same hash.
+		return ps.list[i].Compare(ps.list[j]) < 0
+	}
 	return ps.hashes[i] < ps.hashes[j]
 }
-- 
2.43.0


From 1e5a298bb37573980d260671075a46f1be074930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 49/49] fix: relapse/ast: a length that overflows was a panic
 in Unmarshal

---
 relapse/ast/relapse.pb.go | 416 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 415 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/relapse.pb.go b/relapse/ast/relapse.pb.go
index 2b62f0c..dff9f33 100644
--- a/relapse/ast/relapse.pb.go
+++ b/relapse/ast/relapse.pb.go
@@ -4459,6 +4459,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4492,6 +4495,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4523,6 +4529,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4542,6 +4551,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4606,6 +4618,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4639,6 +4654,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4673,6 +4691,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4701,6 +4722,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4734,6 +4758,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4753,6 +4780,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4817,6 +4847,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4850,6 +4883,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4883,6 +4919,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4916,6 +4955,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4949,6 +4991,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4982,6 +5027,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5015,6 +5063,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5048,6 +5099,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5081,6 +5135,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5114,6 +5171,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5147,6 +5207,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5180,6 +5243,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5213,6 +5279,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5232,6 +5301,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5296,6 +5368,9 @@ func (m *Empty) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5315,6 +5390,9 @@ func (m *Empty) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5379,6 +5457,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5412,6 +5493,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5445,6 +5529,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5464,6 +5551,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5528,6 +5618,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5561,6 +5654,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5580,6 +5676,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5644,6 +5743,9 @@ func (m *LeafNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5663,6 +5765,9 @@ func (m *LeafNode) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5727,6 +5832,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5760,6 +5868,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5793,6 +5904,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5826,6 +5940,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5859,6 +5976,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5892,6 +6012,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5911,6 +6034,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5975,6 +6101,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6008,6 +6137,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6041,6 +6173,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6074,6 +6209,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6107,6 +6245,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6126,6 +6267,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6190,6 +6334,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6223,6 +6370,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6256,6 +6406,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6289,6 +6442,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6322,6 +6478,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6341,6 +6500,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6405,6 +6567,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6438,6 +6603,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6471,6 +6639,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6504,6 +6675,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6523,6 +6697,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6587,6 +6764,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6621,6 +6801,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6635,6 +6818,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6699,6 +6885,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6732,6 +6921,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6765,6 +6957,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6798,6 +6993,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6817,6 +7015,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6881,6 +7082,9 @@ func (m *ZAny) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6900,6 +7104,9 @@ func (m *ZAny) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6964,6 +7171,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6997,6 +7207,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7030,6 +7243,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7063,6 +7279,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7082,6 +7301,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7146,6 +7368,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7179,6 +7404,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7212,6 +7440,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7245,6 +7476,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7278,6 +7512,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7311,6 +7548,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7330,6 +7570,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7394,6 +7637,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7427,6 +7673,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7460,6 +7709,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7493,6 +7745,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7526,6 +7781,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7559,6 +7817,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7578,6 +7839,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7642,6 +7906,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7694,6 +7961,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7727,6 +7997,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7758,6 +8031,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7777,6 +8053,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7841,6 +8120,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7875,6 +8157,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7903,6 +8188,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7936,6 +8224,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7967,6 +8258,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7986,6 +8280,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8050,6 +8347,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8083,6 +8383,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8102,6 +8405,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8166,6 +8472,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8200,6 +8509,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8302,6 +8614,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8331,6 +8646,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8362,6 +8680,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8381,6 +8702,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8450,6 +8774,9 @@ func (m *Variable) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8514,6 +8841,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8548,6 +8878,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8562,6 +8895,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8627,6 +8963,9 @@ func (m *Space) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8641,6 +8980,9 @@ func (m *Space) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8705,6 +9047,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8738,6 +9083,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8771,6 +9119,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8804,6 +9155,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8823,6 +9177,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8887,6 +9244,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8994,6 +9354,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9023,6 +9386,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9040,6 +9406,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9104,6 +9473,9 @@ func (m *AnyName) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9123,6 +9495,9 @@ func (m *AnyName) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9187,6 +9562,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9220,6 +9598,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9253,6 +9634,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9286,6 +9670,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9305,6 +9692,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9369,6 +9759,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9402,6 +9795,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9435,6 +9831,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9468,6 +9867,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9501,6 +9903,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9520,6 +9925,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9586,10 +9994,13 @@ func skipRelapse(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthRelapse
 			}
+			iNdEx += length
+			if iNdEx < 0 {
+				return 0, ErrInvalidLengthRelapse
+			}
 			return iNdEx, nil
 		case 3:
 			for {
@@ -9618,6 +10029,9 @@ func skipRelapse(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthRelapse
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0

