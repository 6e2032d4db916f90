From 7c0d35519755a0a8c716de15ec83acf72ebb63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 01/43] fix: report undefined references and missing main
 patterns instead of panicking, and accept #main declarations everywhere

---
 relapse/ast/new.go          | 26 ++++++++++++++++++++++++++
 relapse/auto/compiler.go    |  3 +++
 relapse/intern/construct.go |  8 +++++++-
 relapse/interp/deriv.go     |  3 +++
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index b63b6fa..3d225a0 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -15,6 +15,7 @@
 package ast
 
 import (
+	"fmt"
 	"sort"
 
 	"github.com/gogo/protobuf/proto"
@@ -37,6 +38,31 @@ func NewRefLookup(g *Grammar) RefLookup {
 	return refs
 }
 
+//CheckReferences returns an error if the grammar has no main pattern or if it contains a reference to a pattern that has not been declared.
+func (this *Grammar) CheckReferences() error {
+	refs := NewRefLookup(this)
+	if refs["main"] == nil {
+		return fmt.Errorf("no main pattern")
+	}
+	c := &checkRefs{refs: refs}
+	this.Walk(c)
+	return c.err
+}
+
+type checkRefs struct {
+	refs RefLookup
+	err  error
+}
+
+func (this *checkRefs) Visit(node interface{}) interface{} {
+	if ref, ok := node.(*Reference); ok && this.err == nil {
+		if this.refs[ref.GetName()] == nil {
+			this.err = fmt.Errorf("no reference with name: %s", ref.GetName())
+		}
+	}
+	return this
+}
+
 //NewGrammar converts a refenence lookup map into a Grammar.
 func NewGrammar(m map[string]*Pattern) *Grammar {
 	names := make([]string, 0, len(m))
diff --git a/relapse/auto/compiler.go b/relapse/auto/compiler.go
index b870bef..5b0958c 100644
--- a/relapse/auto/compiler.go
+++ b/relapse/auto/compiler.go
@@ -23,6 +23,9 @@ import (
 )
 
 func newCompiler(g *ast.Grammar, record bool) (*compiler, error) {
+	if err := g.CheckReferences(); err != nil {
+		return nil, err
+	}
 	simp := interp.NewSimplifier(g)
 	if record {
 		simp = simp.OptimizeForRecord()
diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ce7f68e..ad7f5be 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -81,6 +81,9 @@ func (c *construct) Deref(name string) *Pattern {
 }
 
 func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
+	if err := g.CheckReferences(); err != nil {
+		return nil, err
+	}
 	ps := g.GetPatternDecls()
 	refs := ast.NewRefLookup(g)
 
@@ -91,12 +94,15 @@ func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
 		c.nullRefs[name] = interp.Nullable(refs, p)
 	}
 
-	main, err := c.AddPatternDecl("main", g.GetTopPattern())
+	main, err := c.AddPatternDecl("main", refs["main"])
 	if err != nil {
 		return nil, err
 	}
 
 	for _, p := range ps {
+		if p.GetName() == "main" {
+			continue
+		}
 		if _, err := c.AddPatternDecl(p.GetName(), p.GetPattern()); err != nil {
 			return nil, err
 		}
diff --git a/relapse/interp/deriv.go b/relapse/interp/deriv.go
index cd8d673..a592c91 100644
--- a/relapse/interp/deriv.go
+++ b/relapse/interp/deriv.go
@@ -30,6 +30,9 @@ import (
 //This resulting grammar's nullability then represents the result of the function.
 //This implementation does not handle immediate recursion, see the HasRecursion function.
 func Interpret(g *ast.Grammar, parser parser.Interface) (bool, error) {
+	if err := g.CheckReferences(); err != nil {
+		return false, err
+	}
 	refs := ast.NewRefLookup(g)
 	finals, err := deriv(refs, []*ast.Pattern{refs["main"]}, parser)
 	if err != nil {
-- 
2.43.0


From cfeb72e98458b0af44affe64880d4924e79d5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 02/43] fix: the negation of an equality also holds for values
 of another type, so do not rewrite not(eq) to ne

---
 relapse/funcs/logic.go | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/relapse/funcs/logic.go b/relapse/funcs/logic.go
index f2cdfde..8f541c4 100644
--- a/relapse/funcs/logic.go
+++ b/relapse/funcs/logic.go
@@ -30,32 +30,6 @@ func Not(v1 Bool) Bool {
 	if vv, ok := v1.(*or); ok {
 		return And(Not(vv.V1), Not(vv.V2))
 	}
-	switch vv := v1.(type) {
-	case *boolEq:
-		return BoolNe(vv.V1, vv.V2)
-	case *bytesEq:
-		return BytesNe(vv.V1, vv.V2)
-	case *doubleEq:
-		return DoubleNe(vv.V1, vv.V2)
-	case *intEq:
-		return IntNe(vv.V1, vv.V2)
-	case *stringEq:
-		return StringNe(vv.V1, vv.V2)
-	case *uintEq:
-		return UintNe(vv.V1, vv.V2)
-	case *boolNe:
-		return BoolEq(vv.V1, vv.V2)
-	case *bytesNe:
-		return BytesEq(vv.V1, vv.V2)
-	case *doubleNe:
-		return DoubleEq(vv.V1, vv.V2)
-	case *intNe:
-		return IntEq(vv.V1, vv.V2)
-	case *stringNe:
-		return StringEq(vv.V1, vv.V2)
-	case *uintNe:
-		return UintEq(vv.V1, vv.V2)
-	}
 	return TrimBool(&not{
 		V1:          v1,
 		hash:        hashWithId(23, v1),
@@ -132,11 +106,17 @@ func And(v1, v2 Bool) Bool {
 		if Equal(l.V1, v2) {
 			return BoolConst(false)
 		}
+		if IsFalse(And(l.V1, v2)) {
+			return v2
+		}
 	}
 	if r, ok := v2.(*not); ok {
 		if Equal(v1, r.V1) {
 			return BoolConst(false)
 		}
+		if IsFalse(And(v1, r.V1)) {
+			return v1
+		}
 	}
 	switch vv1 := v1.(type) {
 	case *stringEq:
-- 
2.43.0


From 37a2a0aaae3dcc735a466a9e148ef291a42cdc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 03/43] fix: auto: an impossible else condition means that the
 then branch returns then

---
 relapse/auto/ifs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/auto/ifs.go b/relapse/auto/ifs.go
index 66225e1..bc3c854 100644
--- a/relapse/auto/ifs.go
+++ b/relapse/auto/ifs.go
@@ -113,8 +113,8 @@ func (this *ifExprs) addIfExpr(cond funcs.Bool, then, els *ast.Pattern) {
 	}
 	// remove impossible (always false) else condition
 	if funcs.IsFalse(funcs.And(this.cond, funcs.Not(cond))) {
-		this.then.addIfExpr(cond, then, els)
-		this.els.addReturn(then)
+		this.then.addReturn(then)
+		this.els.addIfExpr(cond, then, els)
 		return
 	}
 	this.then.addIfExpr(cond, then, els)
-- 
2.43.0


From 87e209d6c2f20755fa6747249c98fe536b1f5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 04/43] fix: intern: merging two patterns must not reorder the
 patterns of the merged ones

---
 relapse/intern/construct.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ad7f5be..4904f28 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -365,7 +365,11 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewOr(append(left, right...))
+	// NewOr sorts in place, so do not share the patterns of the left and right pattern.
+	ps := make([]*Pattern, 0, len(left)+len(right))
+	ps = append(ps, left...)
+	ps = append(ps, right...)
+	return c.NewOr(ps)
 }
 
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
@@ -506,7 +510,11 @@ func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewAnd(append(left, right...))
+	// NewAnd sorts in place, so do not share the patterns of the left and right pattern.
+	ps := make([]*Pattern, 0, len(left)+len(right))
+	ps = append(ps, left...)
+	ps = append(ps, right...)
+	return c.NewAnd(ps)
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
-- 
2.43.0


From 1a0d202ffcecf7c16296a8a8ae015a15d57efc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 05/43] fix: elem and range: a negative index counts from the
 end of the list instead of panicking

---
 relapse/funcs/elem.gen.go       | 12 ++++++------
 relapse/funcs/funcs-gen/main.go |  6 +++---
 relapse/funcs/range.gen.go      | 24 ++++++++++++------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/relapse/funcs/elem.gen.go b/relapse/funcs/elem.gen.go
index f6f8bb7..ede2ea8 100644
--- a/relapse/funcs/elem.gen.go
+++ b/relapse/funcs/elem.gen.go
@@ -26,7 +26,7 @@ func (this *elemDoubles) Eval() (float64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -100,7 +100,7 @@ func (this *elemInts) Eval() (int64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -174,7 +174,7 @@ func (this *elemUints) Eval() (uint64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -248,7 +248,7 @@ func (this *elemBools) Eval() (bool, error) {
 		return false, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return false, NewRangeCheckErr(index, len(list))
@@ -322,7 +322,7 @@ func (this *elemStrings) Eval() (string, error) {
 		return "", NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return "", NewRangeCheckErr(index, len(list))
@@ -396,7 +396,7 @@ func (this *elemListOfBytes) Eval() ([]byte, error) {
 		return nil, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return nil, NewRangeCheckErr(index, len(list))
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 22dcdf1..8755f4b 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -438,7 +438,7 @@ func (this *elem{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
@@ -526,7 +526,7 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -537,7 +537,7 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
diff --git a/relapse/funcs/range.gen.go b/relapse/funcs/range.gen.go
index a38d2c7..94777b2 100644
--- a/relapse/funcs/range.gen.go
+++ b/relapse/funcs/range.gen.go
@@ -27,7 +27,7 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -38,7 +38,7 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -120,7 +120,7 @@ func (this *rangeInts) Eval() ([]int64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -131,7 +131,7 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -213,7 +213,7 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -224,7 +224,7 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -306,7 +306,7 @@ func (this *rangeBools) Eval() ([]bool, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -317,7 +317,7 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -399,7 +399,7 @@ func (this *rangeStrings) Eval() ([]string, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -410,7 +410,7 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -492,7 +492,7 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -503,7 +503,7 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
-- 
2.43.0


From 775f6baa354fbae6538e60e89cdb5203359d9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 06/43] fix: funcs: print double, string and regex constants
 such that they parse back to the same value

---
 relapse/funcs/const.gen.go      |  8 ++++----
 relapse/funcs/const.go          |  9 +++++++++
 relapse/funcs/funcs-gen/main.go | 12 ++++++------
 relapse/funcs/regex.go          |  2 +-
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/relapse/funcs/const.gen.go b/relapse/funcs/const.gen.go
index d92aa08..566e231 100644
--- a/relapse/funcs/const.gen.go
+++ b/relapse/funcs/const.gen.go
@@ -39,7 +39,7 @@ func (this *constDouble) Hash() uint64 {
 }
 
 func (this *constDouble) String() string {
-	return fmt.Sprintf("double(%f)", this.v)
+	return fmt.Sprintf("double(%v)", this.v)
 }
 
 // TrimDouble turns functions into constants, if they can be evaluated at compile time.
@@ -239,7 +239,7 @@ func (this *constString) Hash() uint64 {
 }
 
 func (this *constString) String() string {
-	return fmt.Sprintf("`%s`", this.v)
+	return fmt.Sprintf("%s", quote(this.v))
 }
 
 // TrimString turns functions into constants, if they can be evaluated at compile time.
@@ -341,7 +341,7 @@ func (this *constDoubles) Hash() uint64 {
 func (this *constDoubles) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("double(%f)", this.v[i])
+		ss[i] = fmt.Sprintf("double(%v)", this.v[i])
 	}
 	return "[]double{" + strings.Join(ss, ",") + "}"
 }
@@ -557,7 +557,7 @@ func (this *constStrings) Hash() uint64 {
 func (this *constStrings) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("`%s`", this.v[i])
+		ss[i] = fmt.Sprintf("%s", quote(this.v[i]))
 	}
 	return "[]string{" + strings.Join(ss, ",") + "}"
 }
diff --git a/relapse/funcs/const.go b/relapse/funcs/const.go
index e0c73ff..aae9935 100644
--- a/relapse/funcs/const.go
+++ b/relapse/funcs/const.go
@@ -16,9 +16,18 @@ package funcs
 
 import (
 	"bytes"
+	"strconv"
 	"strings"
 )
 
+// quote returns a string literal that parses back to the given string.
+func quote(s string) string {
+	if strconv.CanBackquote(s) {
+		return "`" + s + "`"
+	}
+	return strconv.Quote(s)
+}
+
 // Const is an interface that when implemented implies that the function is actually a constant value.
 type Const interface {
 	IsConst()
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 8755f4b..d98f297 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -169,9 +169,9 @@ func (this *const{{.CType}}) Hash() uint64 {
 func (this *const{{.CType}}) String() string {
 	{{if .ListType}}ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("{{.String}}", this.v[i])
+		ss[i] = fmt.Sprintf("{{.String}}", {{if eq .ListType "string"}}quote(this.v[i]){{else}}this.v[i]{{end}})
 	}
-	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", this.v){{end}}
+	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", {{if eq .CType "String"}}quote(this.v){{else}}this.v{{end}}){{end}}
 }
 
 // Trim{{.CType}} turns functions into constants, if they can be evaluated at compile time.
@@ -876,17 +876,17 @@ func main() {
 		"ListOfBytes",
 	})
 	gen(constStr, "const.gen.go", []interface{}{
-		&conster{"Double", "float64", "double(%f)", ""},
+		&conster{"Double", "float64", "double(%v)", ""},
 		&conster{"Int", "int64", "int(%d)", ""},
 		&conster{"Uint", "uint64", "uint(%d)", ""},
 		&conster{"Bool", "bool", "%v", ""},
-		&conster{"String", "string", "`%s`", ""},
+		&conster{"String", "string", "%s", ""},
 		&conster{"Bytes", "[]byte", "%#v", ""},
-		&conster{"Doubles", "[]float64", "double(%f)", "double"},
+		&conster{"Doubles", "[]float64", "double(%v)", "double"},
 		&conster{"Ints", "[]int64", "int(%d)", "int"},
 		&conster{"Uints", "[]uint64", "uint(%d)", "uint"},
 		&conster{"Bools", "[]bool", "%v", "bool"},
-		&conster{"Strings", "[]string", "`%s`", "string"},
+		&conster{"Strings", "[]string", "%s", "string"},
 		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte"},
 	}, `"fmt"`, `"strings"`, `"reflect"`)
 	gen(listStr, "list.gen.go", []interface{}{
diff --git a/relapse/funcs/regex.go b/relapse/funcs/regex.go
index 4194742..3ed372f 100644
--- a/relapse/funcs/regex.go
+++ b/relapse/funcs/regex.go
@@ -55,7 +55,7 @@ func (this *regex) HasVariable() bool {
 }
 
 func (this *regex) String() string {
-	return "regex(" + this.expr + "," + this.S.String() + ")"
+	return "regex(" + quote(this.expr) + "," + this.S.String() + ")"
 }
 
 func (this *regex) Eval() (bool, error) {
-- 
2.43.0


From ca141cd1dc7324ee41798db095d8de6085ef1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 07/43] fix: the shorthand of a comparison with its constant
 first loses the order, so do not reparse the shorthand

---
 relapse/intern/pattern.go  | 2 +-
 relapse/interp/simplify.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/pattern.go b/relapse/intern/pattern.go
index ab91728..bc9abba 100644
--- a/relapse/intern/pattern.go
+++ b/relapse/intern/pattern.go
@@ -68,7 +68,7 @@ func newASTPattern(p *Pattern) (*ast.Pattern, error) {
 		return ast.NewEmpty(), nil
 	case Node:
 		if isEmpty(p.Patterns[0]) {
-			exprStr := funcs.Sprint(p.Func)
+			exprStr := "->" + p.Func.String()
 			expr, err := parser.NewParser().ParseExpr(exprStr)
 			if err != nil {
 				return nil, err
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index f8eede6..661efb5 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -127,7 +127,7 @@ func (this *simplifier) simplify(p *ast.Pattern, top bool) *ast.Pattern {
 		if funcs.IsFalse(b) {
 			return emptyset
 		}
-		e, err := parser.ParseExpr(funcs.Sprint(b))
+		e, err := parser.ParseExpr("->" + b.String())
 		if err != nil {
 			//Don't simplify if there is an error to keep this function signature simple.
 			return p
-- 
2.43.0


From 6b9258d289f5003e3d635a97777493b4d7a8c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 08/43] fix: name: decompile comparisons below not

---
 relapse/name/name.go | 55 ++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/relapse/name/name.go b/relapse/name/name.go
index 213f37b..7ca449a 100644
--- a/relapse/name/name.go
+++ b/relapse/name/name.go
@@ -78,37 +78,46 @@ func FuncToName(f funcs.Bool) (*ast.NameExpr, error) {
 	return exprToName(expr)
 }
 
+func terminalToName(e *ast.Expr) (*ast.NameExpr, error) {
+	if t := e.GetTerminal(); t != nil {
+		if t.DoubleValue != nil {
+			return ast.NewDoubleName(t.GetDoubleValue()), nil
+		}
+		if t.IntValue != nil {
+			return ast.NewIntName(t.GetIntValue()), nil
+		}
+		if t.UintValue != nil {
+			return ast.NewUintName(t.GetUintValue()), nil
+		}
+		if t.BoolValue != nil {
+			return ast.NewBoolName(t.GetBoolValue()), nil
+		}
+		if t.StringValue != nil {
+			return ast.NewStringName(t.GetStringValue()), nil
+		}
+		if t.BytesValue != nil {
+			return ast.NewBytesName(t.GetBytesValue()), nil
+		}
+	}
+	return nil, fmt.Errorf("unknown terminal: %v", e)
+}
+
 func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 	if e.GetBuiltIn() != nil {
 		if e.GetBuiltIn().GetSymbol().String() == "==" {
-			if e.GetBuiltIn().GetExpr().GetTerminal() != nil {
-				t := e.GetBuiltIn().GetExpr().GetTerminal()
-				if t.DoubleValue != nil {
-					return ast.NewDoubleName(t.GetDoubleValue()), nil
-				}
-				if t.IntValue != nil {
-					return ast.NewIntName(t.GetIntValue()), nil
-				}
-				if t.UintValue != nil {
-					return ast.NewUintName(t.GetUintValue()), nil
-				}
-				if t.BoolValue != nil {
-					return ast.NewBoolName(t.GetBoolValue()), nil
-				}
-				if t.StringValue != nil {
-					return ast.NewStringName(t.GetStringValue()), nil
-				}
-				if t.BytesValue != nil {
-					return ast.NewBytesName(t.GetBytesValue()), nil
-				}
-			} else {
-				return nil, fmt.Errorf("unknown terminal: %v", e.GetBuiltIn().GetExpr())
-			}
+			return terminalToName(e.GetBuiltIn().GetExpr())
 		} else {
 			return nil, fmt.Errorf("not equal: %v", e)
 		}
 	}
 	if e.GetFunction() != nil {
+		if e.GetFunction().GetName() == "eq" {
+			params := e.GetFunction().GetParams()
+			if params[0].GetTerminal().GetVariable() != nil {
+				return terminalToName(params[1])
+			}
+			return nil, fmt.Errorf("not a comparison with a variable: %v", e)
+		}
 		if e.GetFunction().GetName() == "not" {
 			e, err := exprToName(e.GetFunction().GetParams()[0])
 			if err != nil {
-- 
2.43.0


From e11aae9515e57953c3564d0f7e70840d03a47383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 09/43] fix: interp: the interleaving of a pattern with itself
 is not that pattern

---
 relapse/interp/order.go    | 18 ++++++++++++------
 relapse/interp/simplify.go |  4 +++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/relapse/interp/order.go b/relapse/interp/order.go
index d105e8f..de0cc3c 100644
--- a/relapse/interp/order.go
+++ b/relapse/interp/order.go
@@ -49,12 +49,8 @@ func (ps *sortable) Less(i, j int) bool {
 	return ps.list[i].GetTreeNode() == nil
 }
 
-// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
-func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
-	if len(ps) == 0 || len(ps) == 1 {
-		return ps
-	}
-
+// order sorts the patterns in place, without removing duplicates, and returns the hashes that were used for sorting.
+func order(ps []*ast.Pattern) []uint64 {
 	hashes := make([]uint64, len(ps))
 	for i, p := range ps {
 		if p.GetTreeNode() == nil {
@@ -66,6 +62,16 @@ func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
 
 	sortable := &sortable{hashes, ps}
 	sort.Sort(sortable)
+	return hashes
+}
+
+// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
+func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
+	if len(ps) == 0 || len(ps) == 1 {
+		return ps
+	}
+
+	hashes := order(ps)
 
 	u := 0
 	for i := 1; i < len(ps); i++ {
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index 661efb5..918e552 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -380,7 +380,9 @@ func simplifyInterleave(refs ast.RefLookup, p1, p2 *ast.Pattern) *ast.Pattern {
 	}
 	left := getInterleaves(p1)
 	right := getInterleaves(p2)
-	list := orderedSet(append(left, right...))
+	// duplicates are kept, since the interleaving of a pattern with itself is not that pattern.
+	list := append(left, right...)
+	order(list)
 	var p *ast.Pattern = list[0]
 	for i := range list {
 		if i == 0 {
-- 
2.43.0


From dd44833365650043458460c2c343623f8d11b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 10/43] verif: an optional budget for compiling automata,
 behind the verif build tag

---
 relapse/auto/budget.go       |  8 ++++++++
 relapse/auto/budget_verif.go | 17 +++++++++++++++++
 relapse/auto/compile.go      |  3 +++
 relapse/auto/compiler.go     |  2 ++
 4 files changed, 30 insertions(+)
 create mode 100644 relapse/auto/budget.go
 create mode 100644 relapse/auto/budget_verif.go

diff --git a/relapse/auto/budget.go b/relapse/auto/budget.go
new file mode 100644
index 0000000..9f835f2
--- /dev/null
+++ b/relapse/auto/budget.go
@@ -0,0 +1,8 @@
+//go:build !verif
+
+package auto
+
+// budget limits the work of a compilation, but only when built with the verif tag.
+type budget struct{}
+
+func (*budget) spend() error { return nil }
diff --git a/relapse/auto/budget_verif.go b/relapse/auto/budget_verif.go
new file mode 100644
index 0000000..435a1aa
--- /dev/null
+++ b/relapse/auto/budget_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+
+package auto
+
+// VerifBudget is the number of transitions a single compilation may calculate, before it gives up with ErrTooManyStates.
+// Zero means no limit.
+var VerifBudget int
+
+type budget struct{ spent int }
+
+func (this *budget) spend() error {
+	this.spent++
+	if VerifBudget > 0 && this.spent > VerifBudget {
+		return ErrTooManyStates
+	}
+	return nil
+}
diff --git a/relapse/auto/compile.go b/relapse/auto/compile.go
index ac15054..162d04a 100644
--- a/relapse/auto/compile.go
+++ b/relapse/auto/compile.go
@@ -97,6 +97,9 @@ func compile(c *compiler, patterns int) error {
 
 		possibleNullables := sets.NewBits(numOfChildPatterns)
 		for {
+			if err := c.budget.spend(); err != nil {
+				return err
+			}
 			nullIndex := c.nullables.Add(possibleNullables)
 			c.getReturn(call.stackIndex, nullIndex)
 			if possibleNullables.Equal(maxPossibleNullables) {
diff --git a/relapse/auto/compiler.go b/relapse/auto/compiler.go
index 5b0958c..260726e 100644
--- a/relapse/auto/compiler.go
+++ b/relapse/auto/compiler.go
@@ -78,6 +78,8 @@ type compiler struct {
 	stackElms sets.Pairs
 	nullables sets.BitsSet
 
+	budget budget
+
 	start           int
 	calls           []*callNode
 	returns         []map[int]int
-- 
2.43.0


From d4c820c3e06454ebfa8ec23798310c6d1710fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 11/43] fix: funcs: compare constants by their hash first, as
 all other functions are, so that the order is total

---
 relapse/funcs/const.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/relapse/funcs/const.go b/relapse/funcs/const.go
index aae9935..b0846dd 100644
--- a/relapse/funcs/const.go
+++ b/relapse/funcs/const.go
@@ -48,6 +48,12 @@ func (this *constString) aConst() {}
 func (this *constUint) aConst()   {}
 
 func (this *constDouble) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constDouble); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -61,6 +67,12 @@ func (this *constDouble) Compare(that Comparable) int {
 }
 
 func (this *constInt) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constInt); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -74,6 +86,12 @@ func (this *constInt) Compare(that Comparable) int {
 }
 
 func (this *constUint) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constUint); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -87,6 +105,12 @@ func (this *constUint) Compare(that Comparable) int {
 }
 
 func (this *constBool) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBool); ok {
 		if this.v != other.v {
 			if !this.v {
@@ -100,6 +124,12 @@ func (this *constBool) Compare(that Comparable) int {
 }
 
 func (this *constString) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constString); ok {
 		return strings.Compare(this.v, other.v)
 	}
@@ -107,6 +137,12 @@ func (this *constString) Compare(that Comparable) int {
 }
 
 func (this *constBytes) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBytes); ok {
 		return bytes.Compare(this.v, other.v)
 	}
-- 
2.43.0


From a1044f325a2cf84d1f6b1ba815254e97f7ef84d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 12/43] fix: ast: hasSuffix is written as $= and not as *=

---
 relapse/ast/keywords.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/keywords.go b/relapse/ast/keywords.go
index 0cd3c2a..ac76cdc 100644
--- a/relapse/ast/keywords.go
+++ b/relapse/ast/keywords.go
@@ -82,7 +82,7 @@ func newCaretEqual() *Keyword {
 
 func newDollarEqual() *Keyword {
 	return &Keyword{
-		Value: "*=",
+		Value: "$=",
 	}
 }
 
-- 
2.43.0


From e1c100e6a7da785a531b9bb820be96583b30d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 13/43] fix: ast: print doubles, the names _, true and false,
 nested shorthands and == and :: after = and : such that they parse back

---
 relapse/ast/string.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 03d3d40..db36529 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -39,7 +39,7 @@ func (this *Grammar) String() string {
 //String returns the relapse string representation of the PatternDecl instance.
 func (this *PatternDecl) String() string {
 	return this.Hash.String() + this.Before.String() + this.Name +
-		this.Eq.String() + this.Pattern.String()
+		join(this.Eq.String(), "=", this.Pattern.String())
 }
 
 //String returns the relapse string representation of the Pattern instance.
@@ -57,8 +57,19 @@ func (this *Empty) String() string {
 
 //String returns the relapse string representation of the TreeNode instance.
 func (this *TreeNode) String() string {
-	return this.Name.String() + this.Colon.String() +
-		this.Pattern.String()
+	if this.Colon == nil {
+		return this.Name.String() + this.Pattern.String()
+	}
+	return this.Name.String() + join(this.Colon.String(), ":", this.Pattern.String())
+}
+
+// join concatenates a keyword and the pattern that follows it and
+// keeps the keyword from being read as a part of the first symbol of that pattern, for example = before == and : before ::.
+func join(keyword string, first string, pattern string) string {
+	if strings.HasPrefix(pattern, first) {
+		return keyword + " " + pattern
+	}
+	return keyword + pattern
 }
 
 //String returns the relapse string representation of the Contains instance.
@@ -159,14 +170,19 @@ func (this *NameExpr) String() string {
 // id : _id ;
 var idRegexp = regexp.MustCompile("^[a-zA-Z_][_a-zA-Z0-9]*$")
 
+// isId returns whether the string is read as the name with that string, when it is not quoted.
 func isId(s string) bool {
+	switch s {
+	case "_", "true", "false":
+		return false
+	}
 	return idRegexp.MatchString(s)
 }
 
 //String returns the relapse string representation of the Name instance.
 func (this *Name) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + "double(" + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64) + ")"
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
@@ -251,7 +267,7 @@ func (this *BuiltIn) String() string {
 //String returns the relapse string representation of the Terminal instance.
 func (this *Terminal) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + "double(" + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64) + ")"
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
-- 
2.43.0


From 88f24cdd6280d6c2657d4511ac8febe5bf0291ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 14/43] fix: ast: decode octal and hexadecimal numbers and
 character literals and refuse literals that do not fit instead of panicking

---
 relapse/ast/util.go | 159 +++++++++++++++++++++-----------------------
 1 file changed, 77 insertions(+), 82 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 3dcc395..111046e 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -19,9 +19,9 @@ import (
 	"github.com/gogo/protobuf/proto"
 	"github.com/katydid/katydid/relapse/token"
 	"github.com/katydid/katydid/relapse/types"
+	"math/big"
 	"strconv"
 	"strings"
-	"unicode/utf8"
 )
 
 //NewKeyword is a parser utility function that returns a Keyword given a space and a token.
@@ -96,61 +96,76 @@ func NewBoolTerminal(v interface{}) *Terminal {
 //NewStringTerminal is a parser utility function that returns a Terminal of type string given a string literal.
 //The input string is also unquoted.
 func NewStringTerminal(slit string) (*Terminal, error) {
-	return &Terminal{StringValue: proto.String(ToString(slit)), Literal: slit}, nil
+	v, err := ToString(slit)
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{StringValue: proto.String(v), Literal: slit}, nil
 }
 
-//ToString unquotes a quoted string or returns the original string.
-func ToString(s1 string) string {
-	s, err := strconv.Unquote(s1)
+func ToString(slit string) (string, error) {
+	s, err := strconv.Unquote(slit)
 	if err != nil {
-		return s1
+		return "", fmt.Errorf("invalid string literal %s: %v", slit, err)
 	}
-	return s
+	return s, nil
 }
 
-//NewIntTerminal is a parser utility function that parses the int value out of the input string and returns a Terminal of type int.
 func NewIntTerminal(slit string) (*Terminal, error) {
-	return &Terminal{IntValue: ToInt64(Strip(slit, "int")), Literal: slit}, nil
+	v, err := ToInt64(Strip(slit, "int"))
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{IntValue: v, Literal: slit}, nil
 }
 
-//ToInt64 is a parser utility function that returns a pointer to a parsed an int64 or panics.
-func ToInt64(tok []byte) *int64 {
-	i, err := strconv.ParseInt(string(tok), 10, 64)
+func ToInt64(tok []byte) (*int64, error) {
+	i, err := strconv.ParseInt(string(tok), 0, 64)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return &i
+	return &i, nil
 }
 
-//NewUintTerminal is a parser utility function that parses the uint value out of the input string and returns a Terminal of type uint.
 func NewUintTerminal(slit string) (*Terminal, error) {
-	return &Terminal{UintValue: ToUint64(Strip(slit, "uint")), Literal: slit}, nil
+	v, err := ToUint64(Strip(slit, "uint"))
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{UintValue: v, Literal: slit}, nil
 }
 
-//ToUint64 is a parser utility function that returns a pointer to a parsed an uint64 or panics.
-func ToUint64(tok []byte) *uint64 {
-	i, err := strconv.ParseUint(string(tok), 10, 64)
+func ToUint64(tok []byte) (*uint64, error) {
+	i, err := strconv.ParseUint(string(tok), 0, 64)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return &i
+	return &i, nil
 }
 
-//NewDoubleTerminal is a parser utility function that parses the double value out of the input string and returns a Terminal of type double.
 func NewDoubleTerminal(slit string) (*Terminal, error) {
-	return &Terminal{DoubleValue: ToFloat64(Strip(slit, "double")), Literal: slit}, nil
+	v, err := ToFloat64(Strip(slit, "double"))
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{DoubleValue: v, Literal: slit}, nil
 }
 
-//ToFloat64 is a parser utility function that returns a pointer to a parsed an float64 or panics.
-func ToFloat64(tok []byte) *float64 {
-	f, err := strconv.ParseFloat(string(tok), 64)
+func ToFloat64(tok []byte) (*float64, error) {
+	s := string(tok)
+	// octal and hexadecimal integers are also allowed
+	if digits := strings.TrimPrefix(s, "-"); len(digits) > 1 && digits[0] == '0' {
+		if i, ok := new(big.Int).SetString(s, 0); ok {
+			s = i.String()
+		}
+	}
+	f, err := strconv.ParseFloat(s, 64)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return &f
+	return &f, nil
 }
 
-//NewBytesTerminal is a parser utility function that parses the []byte value out of the input string and returns a Terminal of type []byte.
 func NewBytesTerminal(stringLit string) (*Terminal, error) {
 	data, err := parseBytes(stringLit)
 	if err != nil {
@@ -160,82 +175,62 @@ func NewBytesTerminal(stringLit string) (*Terminal, error) {
 }
 
 func parseBytes(s string) ([]byte, error) {
-	byteElems := strings.Split(s[strings.Index(s, "{")+1:strings.LastIndex(s, "}")], ",")
-	data := make([]byte, 0, len(byteElems))
-	for _, b := range byteElems {
-		s := strings.TrimSpace(b)
-		if len(s) == 0 {
-			continue
+	elems := s[strings.Index(s, "{")+1 : strings.LastIndex(s, "}")]
+	data := []byte{}
+	for {
+		elems = strings.TrimLeft(elems, ", \t\r\n")
+		if len(elems) == 0 {
+			return data, nil
+		}
+		n, err := byteElemLen(elems)
+		if err != nil {
+			return nil, err
 		}
-		d, err := parseByte(s)
+		d, err := parseByte(elems[:n])
 		if err != nil {
 			return nil, err
 		}
 		data = append(data, d)
+		elems = elems[n:]
 	}
-	return data, nil
 }
 
-func hexToByte(c byte) byte {
-	if 'a' <= c && c <= 'f' {
-		return c - 'a' + 10
+// byteElemLen returns the length of the first element, which might be a character literal that contains a comma.
+func byteElemLen(s string) (int, error) {
+	if s[0] != '\'' {
+		if i := strings.IndexAny(s, ", \t\r\n"); i >= 0 {
+			return i, nil
+		}
+		return len(s), nil
 	}
-	if 'A' <= c && c <= 'F' {
-		return c - 'A' + 10
+	_, _, tail, err := strconv.UnquoteChar(s[1:], '\'')
+	if err != nil || !strings.HasPrefix(tail, "'") {
+		return 0, fmt.Errorf("invalid character literal %s", s)
 	}
-	return c - '0'
-}
-
-func hexesToByte(a byte, b byte) byte {
-	aa, bb := hexToByte(a), hexToByte(b)
-	return byte(aa*16 + bb)
+	return len(s) - len(tail) + 1, nil
 }
 
 func parseByte(s string) (byte, error) {
 	if s[0] == '\'' {
-		r, _ := utf8.DecodeRune([]byte(s)[1:])
-		if r <= 255 {
-			return byte(r), nil
+		if _, err := strconv.Unquote(s); err != nil {
+			return 0, fmt.Errorf("invalid character literal %s: %v", s, err)
 		}
-		return 0, fmt.Errorf("rune too large %v", r)
-	} else if s[0] == '0' {
-		if len(s) == 1 {
-			return 0, nil
+		r, _, _, err := strconv.UnquoteChar(s[1:], '\'')
+		if err != nil {
+			return 0, err
 		}
-		if s[1] == 'x' || s[1] == 'X' {
-			if len(s) == 4 {
-				return hexesToByte(s[2], s[3]), nil
-			} else if len(s) == 3 {
-				return hexToByte(s[2]), nil
-			}
-			return 0, fmt.Errorf("not a hex digit %v", s)
-		} else {
-			switch len(s) {
-			case 4:
-				o := (int(s[1]-'0') * 64) + (int(s[2]-'0') * 8) + int(s[3]-'0')
-				if o >= 255 {
-					return 0, fmt.Errorf("octal too large %d", o)
-				}
-				return byte(o), nil
-			case 3:
-				return byte((s[1]-'0')*8 + (s[2] - '0')), nil
-			case 2:
-				return byte(s[1] - '0'), nil
-			}
-			return 0, nil
+		if r > 255 {
+			return 0, fmt.Errorf("rune too large %s", s)
 		}
+		return byte(r), nil
 	}
-	i, err := strconv.Atoi(s)
+	i, err := strconv.ParseUint(s, 0, 8)
 	if err != nil {
 		return 0, err
 	}
-	if i >= 0 && i <= 255 {
-		return byte(i), nil
-	}
-	return 0, fmt.Errorf("int too large %d", i)
+	return byte(i), nil
 }
 
-//NewSDTName is a parser utility function that returns a NameExpr given a white space and a terminal value expression.
 func NewSDTName(space *Space, term *Terminal) *NameExpr {
 	name := &NameExpr{
 		Name: &Name{
-- 
2.43.0


From ea88b953d6156e214de52d946dbcbfc7bae2a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 15/43] fix: ast: print the arrow or the comma before a
 shorthand

---
 relapse/ast/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index db36529..d8c8a78 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -151,7 +151,7 @@ func (this *Expr) String() string {
 	if this.Function != nil {
 		return space + this.GetFunction().String()
 	}
-	return this.BuiltIn.String()
+	return space + this.BuiltIn.String()
 }
 
 //String returns the relapse string representation of the NameExpr instance.
-- 
2.43.0


From 69718d306757ee31064aa789a6088a23735aeb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 16/43] fix: ast: keep printed shorthands apart from the
 expressions that follow them

---
 relapse/ast/string.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index d8c8a78..bc4131f 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -39,7 +39,7 @@ func (this *Grammar) String() string {
 //String returns the relapse string representation of the PatternDecl instance.
 func (this *PatternDecl) String() string {
 	return this.Hash.String() + this.Before.String() + this.Name +
-		join(this.Eq.String(), "=", this.Pattern.String())
+		join(this.Eq.String(), this.Pattern.String())
 }
 
 //String returns the relapse string representation of the Pattern instance.
@@ -60,16 +60,22 @@ func (this *TreeNode) String() string {
 	if this.Colon == nil {
 		return this.Name.String() + this.Pattern.String()
 	}
-	return this.Name.String() + join(this.Colon.String(), ":", this.Pattern.String())
+	return this.Name.String() + join(this.Colon.String(), this.Pattern.String())
 }
 
-// join concatenates a keyword and the pattern that follows it and
-// keeps the keyword from being read as a part of the first symbol of that pattern, for example = before == and : before ::.
-func join(keyword string, first string, pattern string) string {
-	if strings.HasPrefix(pattern, first) {
-		return keyword + " " + pattern
+// join concatenates a keyword with what follows it and separates them with a space,
+// if they would otherwise be read as another symbol, for example : and :: or < and elem(...)
+func join(keyword string, next string) string {
+	if len(keyword) == 0 || len(next) == 0 {
+		return keyword + next
 	}
-	return keyword + pattern
+	last := keyword[len(keyword)-1]
+	if strings.IndexByte("=!<>~*^$:", last) >= 0 && next[0] == '=' ||
+		last == ':' && next[0] == ':' ||
+		last == '<' && next[0] == 'e' {
+		return keyword + " " + next
+	}
+	return keyword + next
 }
 
 //String returns the relapse string representation of the Contains instance.
@@ -261,7 +267,7 @@ func (this *Function) String() string {
 
 //String returns the relapse string representation of the BuiltIn instance.
 func (this *BuiltIn) String() string {
-	return this.Symbol.String() + this.Expr.String()
+	return join(this.Symbol.String(), this.Expr.String())
 }
 
 //String returns the relapse string representation of the Terminal instance.
-- 
2.43.0


From ad194940eaa2cc81e1a57035eae85d57b8c0cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 17/43] fix: ast: equal terminals have equal hashes

---
 relapse/ast/compare.go     | 23 +++++++++++++++++++++++
 relapse/ast/derived.gen.go | 20 +-------------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/relapse/ast/compare.go b/relapse/ast/compare.go
index d7c6b84..af11780 100644
--- a/relapse/ast/compare.go
+++ b/relapse/ast/compare.go
@@ -95,3 +95,26 @@ func (this *Terminal) Compare(that *Terminal) int {
 	}
 	return 0
 }
+
+// Hash returns a hash that, like Equal and Compare, does not depend on how the value was written.
+func (this *Terminal) Hash() uint64 {
+	if this == nil {
+		return 0
+	}
+	h := uint64(17)
+	h = 31*h + deriveHash_16(this.Before)
+	// this.Literal is not hashed, since it is not part of the value, a string is hashed as if it was a raw string literal.
+	literal := ""
+	if this.StringValue != nil {
+		literal = "`" + *this.StringValue + "`"
+	}
+	h = 31*h + deriveHash_s(literal)
+	h = 31*h + deriveHash_26(this.DoubleValue)
+	h = 31*h + deriveHash_27(this.IntValue)
+	h = 31*h + deriveHash_28(this.UintValue)
+	h = 31*h + deriveHash_29(this.BoolValue)
+	h = 31*h + deriveHash_30(this.StringValue)
+	h = 31*h + deriveHash_31(this.BytesValue)
+	h = 31*h + deriveHash_32(this.Variable)
+	return h
+}
diff --git a/relapse/ast/derived.gen.go b/relapse/ast/derived.gen.go
index 51b6c94..9aa4e16 100644
--- a/relapse/ast/derived.gen.go
+++ b/relapse/ast/derived.gen.go
@@ -2784,7 +2784,7 @@ func deriveHash_15(object *Expr) uint64 {
 	h := uint64(17)
 	h = 31*h + deriveHash_13(object.RightArrow)
 	h = 31*h + deriveHash_13(object.Comma)
-	h = 31*h + deriveHash_21(object.Terminal)
+	h = 31*h + object.Terminal.Hash()
 	h = 31*h + deriveHash_22(object.List)
 	h = 31*h + deriveHash_23(object.Function)
 	h = 31*h + deriveHash_24(object.BuiltIn)
@@ -3217,24 +3217,6 @@ func deriveHash_20(object *NameChoice) uint64 {
 	return h
 }
 
-// deriveHash_21 returns the hash of the object.
-func deriveHash_21(object *Terminal) uint64 {
-	if object == nil {
-		return 0
-	}
-	h := uint64(17)
-	h = 31*h + deriveHash_16(object.Before)
-	h = 31*h + deriveHash_s(object.Literal)
-	h = 31*h + deriveHash_26(object.DoubleValue)
-	h = 31*h + deriveHash_27(object.IntValue)
-	h = 31*h + deriveHash_28(object.UintValue)
-	h = 31*h + deriveHash_29(object.BoolValue)
-	h = 31*h + deriveHash_30(object.StringValue)
-	h = 31*h + deriveHash_31(object.BytesValue)
-	h = 31*h + deriveHash_32(object.Variable)
-	return h
-}
-
 // deriveHash_22 returns the hash of the object.
 func deriveHash_22(object *List) uint64 {
 	if object == nil {
-- 
2.43.0


From 5565d5e8ba74e4454366259646a58cf713f3c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 18/43] fix: interp: HasRecursion reported patterns that are
 referenced twice as recursive and panicked on undefined references

---
 relapse/interp/recursion.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/relapse/interp/recursion.go b/relapse/interp/recursion.go
index ea1672d..d4dca53 100644
--- a/relapse/interp/recursion.go
+++ b/relapse/interp/recursion.go
@@ -30,20 +30,34 @@ import (
 //  #main = (A:@main | <empty>)
 func HasRecursion(g *ast.Grammar) bool {
 	refs := ast.NewRefLookup(g)
+	visited := make(map[string]bool)
 	for name := range refs {
-		visited := make(map[*ast.Pattern]bool)
-		if hasRecursion(visited, refs, refs[name]) {
+		if refHasRecursion(visited, refs, name) {
 			return true
 		}
 	}
 	return false
 }
 
-func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
-	if _, ok := visited[p]; ok {
+// refHasRecursion returns whether the named pattern leads to recursion.
+// visited contains false for the names on the current path and true for the names that have been cleared.
+func refHasRecursion(visited map[string]bool, refs ast.RefLookup, name string) bool {
+	p, ok := refs[name]
+	if !ok {
+		return false
+	}
+	if cleared, ok := visited[name]; ok {
+		return !cleared
+	}
+	visited[name] = false
+	if hasRecursion(visited, refs, p) {
 		return true
 	}
-	visited[p] = true
+	visited[name] = true
+	return false
+}
+
+func hasRecursion(visited map[string]bool, refs ast.RefLookup, p *ast.Pattern) bool {
 	typ := p.GetValue()
 	switch v := typ.(type) {
 	case *ast.Empty:
@@ -61,7 +75,7 @@ func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Patt
 	case *ast.ZeroOrMore:
 		return hasRecursion(visited, refs, v.GetPattern())
 	case *ast.Reference:
-		return hasRecursion(visited, refs, refs[v.GetName()])
+		return refHasRecursion(visited, refs, v.GetName())
 	case *ast.Not:
 		return hasRecursion(visited, refs, v.GetPattern())
 	case *ast.ZAny:
-- 
2.43.0


From b3f461b3cfcb140a5f8d7955eb81f111130a7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 19/43] fix: combinator: the sides of a comparison were
 exchanged when its first side is a constant

---
 relapse/combinator/funcs.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relapse/combinator/funcs.go b/relapse/combinator/funcs.go
index 7e85d2b..854054f 100644
--- a/relapse/combinator/funcs.go
+++ b/relapse/combinator/funcs.go
@@ -28,12 +28,12 @@ func Value(expr *ast.Expr) *ast.Pattern {
 			p1 := expr.Function.Params[0]
 			p2 := expr.Function.Params[1]
 			if p1.Terminal != nil && p1.Terminal.Variable != nil &&
-				p2.Terminal != nil && p2.Terminal.Variable == nil {
+				p2.Terminal != nil && p2.Terminal.Variable == nil && expr.Function.Name != "regex" {
 				p := p2.Clone()
 				p.Comma = nil
 				expr = constructor(p)
 			} else if p2.Terminal != nil && p2.Terminal.Variable != nil &&
-				p1.Terminal != nil && p1.Terminal.Variable == nil {
+				p1.Terminal != nil && p1.Terminal.Variable == nil && isBuiltInWithConstFirst(expr.Function.Name) {
 				p := p1.Clone()
 				p.Comma = nil
 				expr = constructor(p)
@@ -47,6 +47,11 @@ func Value(expr *ast.Expr) *ast.Pattern {
 	return ast.NewLeafNode(e)
 }
 
+// isBuiltInWithConstFirst returns whether the builtin for the function has the same meaning when its constant is the first parameter.
+func isBuiltInWithConstFirst(name string) bool {
+	return name == "eq" || name == "ne" || name == "regex"
+}
+
 func Eq(left, right *ast.Expr) *ast.Expr {
 	return ast.NewFunction("eq", left, right)
 }
-- 
2.43.0


From 9c264b5e9e068b7c388364fc778b7f1fd9fa62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 20/43] fix: ast: nil bytes are empty bytes and not an
 expression or name without a value

---
 relapse/ast/new.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index 3d225a0..2f6c818 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -541,6 +541,10 @@ func NewStringConst(s string) *Expr {
 //NewBytesConst returns a new terminal expression containing the given bytes value.
 //  []byte(fmt.Sprintf("%#v", buf))
 func NewBytesConst(buf []byte) *Expr {
+	if buf == nil {
+		// nil would mean that the terminal has no bytes value
+		buf = []byte{}
+	}
 	return &Expr{
 		Terminal: &Terminal{
 			BytesValue: buf,
@@ -658,6 +662,10 @@ func NewStringName(name string) *NameExpr {
 //NewBytesName returns a name expression containing the given []byte value.
 //  []byte(name)
 func NewBytesName(name []byte) *NameExpr {
+	if name == nil {
+		// nil would mean that the name has no bytes value
+		name = []byte{}
+	}
 	return &NameExpr{
 		Name: &Name{
 			BytesValue: name,
-- 
2.43.0


From 0e5cf3e9f300008e7bc9eb80c4e1c78181991d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 21/43] verif: also bound the size of the states of a
 compilation, behind the verif build tag

---
 relapse/auto/budget.go       |  6 ++++++
 relapse/auto/budget_verif.go | 37 ++++++++++++++++++++++++++++++++++++
 relapse/auto/compile.go      |  3 +++
 relapse/auto/compiler.go     |  3 +++
 4 files changed, 49 insertions(+)

diff --git a/relapse/auto/budget.go b/relapse/auto/budget.go
index 9f835f2..706206c 100644
--- a/relapse/auto/budget.go
+++ b/relapse/auto/budget.go
@@ -2,7 +2,13 @@
 
 package auto
 
+import "github.com/katydid/katydid/relapse/ast"
+
 // budget limits the work of a compilation, but only when built with the verif tag.
 type budget struct{}
 
 func (*budget) spend() error { return nil }
+
+func (*budget) spendState(patterns []*ast.Pattern) error { return nil }
+
+func (*budget) spendCalls(calls int) error { return nil }
diff --git a/relapse/auto/budget_verif.go b/relapse/auto/budget_verif.go
index 435a1aa..5e597b8 100644
--- a/relapse/auto/budget_verif.go
+++ b/relapse/auto/budget_verif.go
@@ -2,10 +2,20 @@
 
 package auto
 
+import "github.com/katydid/katydid/relapse/ast"
+
 // VerifBudget is the number of transitions a single compilation may calculate, before it gives up with ErrTooManyStates.
 // Zero means no limit.
 var VerifBudget int
 
+// VerifStateSize is the number of nodes that the patterns of a single state may have.
+// Zero means no limit.
+var VerifStateSize int
+
+// VerifCalls is the number of conditions that may be combined in a single state.
+// Zero means no limit.
+var VerifCalls int
+
 type budget struct{ spent int }
 
 func (this *budget) spend() error {
@@ -15,3 +25,30 @@ func (this *budget) spend() error {
 	}
 	return nil
 }
+
+func (this *budget) spendState(patterns []*ast.Pattern) error {
+	s := &stateSize{}
+	for _, p := range patterns {
+		p.Walk(s)
+	}
+	if VerifStateSize > 0 && s.size > VerifStateSize {
+		return ErrTooManyStates
+	}
+	return nil
+}
+
+func (this *budget) spendCalls(calls int) error {
+	if VerifCalls > 0 && calls > VerifCalls {
+		return ErrTooManyStates
+	}
+	return nil
+}
+
+type stateSize struct{ size int }
+
+func (this *stateSize) Visit(node interface{}) interface{} {
+	if _, ok := node.(*ast.Pattern); ok {
+		this.size++
+	}
+	return this
+}
diff --git a/relapse/auto/compile.go b/relapse/auto/compile.go
index 162d04a..f99466b 100644
--- a/relapse/auto/compile.go
+++ b/relapse/auto/compile.go
@@ -74,6 +74,9 @@ func (c *compiler) compile() error {
 }
 
 func compile(c *compiler, patterns int) error {
+	if err := c.budget.spendState(c.patterns[patterns]); err != nil {
+		return err
+	}
 	c.getNullable(patterns)
 	c.getAccept(patterns)
 	c.escapable(patterns)
diff --git a/relapse/auto/compiler.go b/relapse/auto/compiler.go
index 260726e..489930e 100644
--- a/relapse/auto/compiler.go
+++ b/relapse/auto/compiler.go
@@ -147,6 +147,9 @@ func (this *compiler) getFunc(expr *ast.Expr) funcs.Bool {
 func (this *compiler) calcCallTrees(upto int) error {
 	for i := len(this.calls); i <= upto; i++ {
 		listOfIfExpr := derivCalls(this.refs, this.getFunc, this.patterns[i])
+		if err := this.budget.spendCalls(len(listOfIfExpr)); err != nil {
+			return err
+		}
 		compiledIfExprs := compileIfExprs(listOfIfExpr)
 		memCallTree, err := this.newCallTree(i, compiledIfExprs)
 		if err != nil {
-- 
2.43.0


From cb0323b0dc91d3f0023b2540a4f9f2e539ed2bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 22/43] fix: intern: a declaration that repeats an earlier one
 with the same name became a reference to itself

---
 relapse/intern/construct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index 4904f28..b13b822 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -103,6 +103,10 @@ func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
 		if p.GetName() == "main" {
 			continue
 		}
+		if refs[p.GetName()] != p.GetPattern() {
+			// a later declaration with the same name replaces this one.
+			continue
+		}
 		if _, err := c.AddPatternDecl(p.GetName(), p.GetPattern()); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 73519f833e8701f4626b3706c05402e73d50ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 23/43] fix: intern: set the context inside of zero or more

A user defined function below a zero or more pattern never received
the context that was set on the validator.
---
 relapse/intern/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/intern/context.go b/relapse/intern/context.go
index 7238cec..83c2451 100644
--- a/relapse/intern/context.go
+++ b/relapse/intern/context.go
@@ -46,7 +46,7 @@ func (c *construct) setContext(p *Pattern) {
 			c.setContext(pp)
 		}
 	case ZeroOrMore:
-		return
+		c.setContext(p.Patterns[0])
 	case Reference:
 		return
 	case Not:
-- 
2.43.0


From 3271ba462d701b813a96f943014da9deb73e3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 24/43] fix: parser/json: strings with unicode escapes,
 brackets in strings and cut off input

A string with a unicode escape was rejected, a bracket inside of a string
changed where an array or object was thought to end, and input that was
cut off caused a panic.
---
 parser/json/json.go | 108 ++++++++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 49 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index d4eb643..8793e7b 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -31,14 +31,14 @@ func errInString(buf []byte) error {
 	return fmt.Errorf("katydid/json error in json string: %s", string(buf))
 }
 
-func isString(buf []byte) bool {
-	return buf[0] == '"'
+func isString(c byte) bool {
+	return c == '"'
 }
 
 func scanString(buf []byte) (int, error) {
 	escaped := false
 	udigits := -1
-	if buf[0] != '"' {
+	if len(buf) == 0 || buf[0] != '"' {
 		return 0, errInString(buf)
 	}
 	for i, c := range buf[1:] {
@@ -48,6 +48,7 @@ func scanString(buf []byte) (int, error) {
 				escaped = false
 				continue
 			case 'u':
+				escaped = false
 				udigits = 0
 				continue
 			}
@@ -75,7 +76,7 @@ func scanString(buf []byte) (int, error) {
 			return 0, errInString(buf)
 		}
 	}
-	panic("unreachable")
+	return 0, errInString(buf)
 }
 
 func isNumber(c byte) bool {
@@ -95,12 +96,23 @@ func skipSpace(buf []byte) int {
 	return len(buf)
 }
 
+// char returns the current character or zero at the end of the buffer.
+func (s *jsonParser) char() byte {
+	if s.offset >= len(s.buf) {
+		return 0
+	}
+	return s.buf[s.offset]
+}
+
 func (s *jsonParser) expected(expected string) error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	return fmt.Errorf("katydid/json/parser: expected '%s' at offset %d, but got '%c'", expected, s.offset, s.buf[s.offset])
 }
 
 func (s *jsonParser) scanOpenObject() error {
-	if s.buf[s.offset] == '{' {
+	if s.char() == '{' {
 		s.offset++
 	} else {
 		return s.expected("{")
@@ -109,7 +121,7 @@ func (s *jsonParser) scanOpenObject() error {
 }
 
 func (s *jsonParser) scanOpenArray() error {
-	if s.buf[s.offset] == '[' {
+	if s.char() == '[' {
 		s.offset++
 	} else {
 		return s.expected("[")
@@ -196,52 +208,50 @@ func (s *jsonParser) scanNull() error {
 	return s.skipSpace()
 }
 
-func (s *jsonParser) scanArray() error {
+// scanBrackets returns the length of the value that starts with the open bracket
+// at the current offset, brackets inside of strings are not counted.
+func (s *jsonParser) scanBrackets(open, close byte) (int, error) {
 	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '[' {
+	for i := s.offset; i < len(s.buf); i++ {
+		switch s.buf[i] {
+		case '"':
+			n, err := scanString(s.buf[i:])
+			if err != nil {
+				return 0, err
+			}
+			i += n - 1
+		case open:
 			count++
-		}
-		if c == ']' {
+		case close:
 			count--
-		}
-		if count == 0 {
-			index = i
-			break
+			if count == 0 {
+				return i + 1 - s.offset, nil
+			}
 		}
 	}
-	if count != 0 {
-		return s.expected("]")
+	return 0, io.ErrShortBuffer
+}
+
+func (s *jsonParser) scanArray() error {
+	n, err := s.scanBrackets('[', ']')
+	if err != nil {
+		return err
 	}
 	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	s.endValueOffset = s.offset + n
+	s.offset += n
 	s.isValueArray = true
 	return s.skipSpace()
 }
 
 func (s *jsonParser) scanObject() error {
-	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '{' {
-			count++
-		}
-		if c == '}' {
-			count--
-		}
-		if count == 0 {
-			index = i
-			break
-		}
-	}
-	if count != 0 {
-		return s.expected("}")
+	n, err := s.scanBrackets('{', '}')
+	if err != nil {
+		return err
 	}
 	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	s.endValueOffset = s.offset + n
+	s.offset += n
 	s.isValueObject = true
 	return s.skipSpace()
 }
@@ -317,7 +327,7 @@ func (s *jsonParser) scanNumber() error {
 }
 
 func (s *jsonParser) scanValue() error {
-	c := s.buf[s.offset]
+	c := s.char()
 	if isNumber(c) {
 		return s.scanNumber()
 	}
@@ -339,7 +349,7 @@ func (s *jsonParser) scanValue() error {
 }
 
 func (s *jsonParser) scanColon() error {
-	if s.buf[s.offset] != ':' {
+	if s.char() != ':' {
 		return s.expected(":")
 	}
 	s.offset++
@@ -347,21 +357,21 @@ func (s *jsonParser) scanColon() error {
 }
 
 func (s *jsonParser) scanCloseObject() error {
-	if s.buf[s.offset] == '}' {
+	if s.char() == '}' {
 		return io.EOF
 	}
 	return s.expected("}")
 }
 
 func (s *jsonParser) scanCloseArray() error {
-	if s.buf[s.offset] == ']' {
+	if s.char() == ']' {
 		return io.EOF
 	}
 	return s.expected("]")
 }
 
 func (s *jsonParser) scanComma() error {
-	if s.buf[s.offset] != ',' {
+	if s.char() != ',' {
 		return s.expected(",")
 	}
 	s.offset++
@@ -375,7 +385,7 @@ func (s *jsonParser) nextValueInArray() error {
 		}
 		s.firstArrayValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.char() == ',' {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -383,7 +393,7 @@ func (s *jsonParser) nextValueInArray() error {
 			return s.scanCloseArray()
 		}
 	}
-	if s.buf[s.offset] == ']' {
+	if s.char() == ']' {
 		return s.scanCloseArray()
 	}
 	return s.scanValue()
@@ -396,7 +406,7 @@ func (s *jsonParser) nextValueInObject() error {
 		}
 		s.firstObjectValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.char() == ',' {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -406,7 +416,7 @@ func (s *jsonParser) nextValueInObject() error {
 			}
 		}
 	}
-	if isString(s.buf[s.offset:]) {
+	if isString(s.char()) {
 		if err := s.scanName(); err != nil {
 			return err
 		}
@@ -552,9 +562,9 @@ func (s *jsonParser) Init(buf []byte) error {
 	if err := s.skipSpace(); err != nil {
 		return err
 	}
-	if s.buf[s.offset] == '{' {
+	if s.char() == '{' {
 		//do nothing
-	} else if s.buf[s.offset] == '[' {
+	} else if s.char() == '[' {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
-- 
2.43.0


From d2afbcdc9262b87e42680a7a8696261c7332997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 25/43] fix: parser/proto: negative sint32

The zig-zag decoding of sint32 lost the sign.
---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 8866993..6f54fe2 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -465,7 +465,7 @@ func (s *protoParser) decodeSint32() (int32, error) {
 	if n <= 0 {
 		return 0, fmt.Errorf("decodeVarint n = %d", n)
 	}
-	return int32((uint32(v) >> 1) ^ uint32(((v&1)<<31)>>31)), nil
+	return int32((uint32(v) >> 1) ^ uint32((int32(v&1)<<31)>>31)), nil
 }
 
 func (s *protoParser) decodeSint64() (int64, error) {
-- 
2.43.0


From 811aad1d6a6e955f642d278cc1b909236b174a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 26/43] fix: parser/proto, parser/reflect: the index of an
 array is not a string

The String method of an index of a packed field returned the name of the
field, and that of an index of a slice returned an empty string, such that
name expressions for fields matched indexes.
---
 parser/proto/proto.go     | 2 +-
 parser/reflect/reflect.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 6f54fe2..62739ec 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -370,7 +370,7 @@ func (s *protoParser) Bool() (bool, error) {
 
 func (s *protoParser) String() (string, error) {
 	if !s.isLeaf {
-		if s.fieldNames && !s.inRepeated {
+		if s.fieldNames && !s.inRepeated && !s.inPacked {
 			return s.field.GetName(), nil
 		}
 		return "", parser.ErrNotString
diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index ea52340..9c91d6b 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -160,6 +160,9 @@ func (s *reflectParser) Bool() (bool, error) {
 }
 
 func (s *reflectParser) String() (string, error) {
+	if s.isArray {
+		return "", parser.ErrNotString
+	}
 	if !s.isLeaf {
 		return s.typ.Name, nil
 	}
-- 
2.43.0


From e2cc2de35b74259219290a448bd9b54844b2c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 27/43] fix: parser/proto: message types that are nested with
 the same name

The type of a field was looked up by its last name only, such that the
nested type of another message was used.
---
 parser/proto/desc.go | 47 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/parser/proto/desc.go b/parser/proto/desc.go
index ff9a3b8..53c64c1 100644
--- a/parser/proto/desc.go
+++ b/parser/proto/desc.go
@@ -87,6 +87,43 @@ func (this *descMap) findExts(pkgName string, msgName string) []*descriptor.Fiel
 	return exts
 }
 
+//findMessage returns the message that is the type of the field and the package it was declared in.
+func (this *descMap) findMessage(pkgName string, msg *descriptor.DescriptorProto, f *descriptor.FieldDescriptorProto) (string, *descriptor.DescriptorProto, error) {
+	if strings.HasPrefix(f.GetTypeName(), ".") {
+		for _, file := range this.desc.GetFile() {
+			prefix := "."
+			if len(file.GetPackage()) > 0 {
+				prefix = "." + file.GetPackage() + "."
+			}
+			if m := findByFullName(prefix, file.GetMessageType(), f.GetTypeName()); m != nil {
+				return file.GetPackage(), m, nil
+			}
+		}
+	}
+	newPkgName, newMsgName := this.desc.FindMessage(pkgName, msg.GetName(), f.GetName())
+	if len(newMsgName) == 0 {
+		return "", nil, &errUnknown{pkgName + "." + msg.GetName() + "." + f.GetName()}
+	}
+	newMsg := this.desc.GetMessage(newPkgName, newMsgName)
+	if newMsg == nil {
+		return "", nil, &errUnknown{newPkgName + "." + newMsgName}
+	}
+	return newPkgName, newMsg, nil
+}
+
+func findByFullName(prefix string, msgs []*descriptor.DescriptorProto, fullName string) *descriptor.DescriptorProto {
+	for _, msg := range msgs {
+		name := prefix + msg.GetName()
+		if name == fullName {
+			return msg
+		}
+		if m := findByFullName(name+".", msg.GetNestedType(), fullName); m != nil {
+			return m
+		}
+	}
+	return nil
+}
+
 func couldBePacked(field *descriptor.FieldDescriptorProto) bool {
 	return field.IsRepeated() && field.IsScalar()
 }
@@ -123,13 +160,9 @@ func (this *descMap) visit(pkgName string, msg *descriptor.DescriptorProto) erro
 			this.msgToField[msg][k] = fields[i]
 		}
 		if f.GetType() == descriptor.FieldDescriptorProto_TYPE_MESSAGE {
-			newPkgName, newMsgName := this.desc.FindMessage(pkgName, msg.GetName(), f.GetName())
-			if len(newMsgName) == 0 {
-				return &errUnknown{pkgName + "." + msg.GetName() + "." + f.GetName()}
-			}
-			newMsg := this.desc.GetMessage(newPkgName, newMsgName)
-			if newMsg == nil {
-				return &errUnknown{newPkgName + "." + newMsgName}
+			newPkgName, newMsg, err := this.findMessage(pkgName, msg, f)
+			if err != nil {
+				return err
 			}
 			this.fieldToMsg[fields[i]] = newMsg
 			if _, ok := this.msgToField[newMsg]; ok {
-- 
2.43.0


From 6b0b8a913f7008688f45086f0dcc4962933700ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:58 +0000
Subject: [PATCH 28/43] fix: parser/proto: check lengths against the buffer

A length that was longer than the rest of the buffer caused a panic.
---
 parser/proto/proto.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 62739ec..a69d405 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -212,9 +212,8 @@ func (s *protoParser) Next() error {
 			return err
 		}
 		s.offset += n
-		s.length = l
 		s.indexRepeated++
-		return nil
+		return s.setLength(l)
 	}
 	if s.inPacked {
 		n, l, err := length(s.field.WireType(), s.buf[s.offset:])
@@ -222,9 +221,8 @@ func (s *protoParser) Next() error {
 			return err
 		}
 		s.offset += n
-		s.length = l
 		s.indexRepeated++
-		return nil
+		return s.setLength(l)
 	}
 
 	v, n, err := uvarint(s.buf[s.offset:])
@@ -244,7 +242,9 @@ func (s *protoParser) Next() error {
 			return err
 		}
 		s.offset += n
-		s.length = l
+		if err := s.setLength(l); err != nil {
+			return err
+		}
 	}
 	if ok {
 		if field.IsRepeated() && !s.isPacked {
@@ -257,6 +257,15 @@ func (s *protoParser) Next() error {
 	return s.Next()
 }
 
+//setLength sets the length of the value at the current offset, which has to fit in the buffer.
+func (s *protoParser) setLength(l int) error {
+	if l < 0 || l > len(s.buf)-s.offset {
+		return io.ErrShortBuffer
+	}
+	s.length = l
+	return nil
+}
+
 func (s *protoParser) skipRepeated() error {
 	s.Down()
 	err := s.Next()
-- 
2.43.0


From 88a518f2a573eedf775f92c64da960b1d1e91392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 29/43] fix: parser/proto: packed elements after elements that
 are not packed

A packed part of a repeated field that follows directly after elements
that are not packed was presented as one element.
---
 parser/proto/proto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index a69d405..6abbc4b 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -200,13 +200,13 @@ func (s *protoParser) Next() error {
 			return err
 		}
 		fieldNumber := int32(v >> 3)
-		if fieldNumber != s.field.GetNumber() {
+		wireType := int(v & 0x7)
+		if fieldNumber != s.field.GetNumber() || wireType != s.field.WireType() {
 			s.length = 0
 			s.isRepeated = false
 			return io.EOF
 		}
 		s.offset += n
-		wireType := int(v & 0x7)
 		n, l, err := length(wireType, s.buf[s.offset:])
 		if err != nil {
 			return err
-- 
2.43.0


From db5a69669d4df4335f5b947336d00f7d9980b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 30/43] fix: parser/proto: many unknown fields

Every unknown field was skipped by a recursive call, such that a message with
millions of them overflowed the stack.
---
 parser/proto/proto.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 6abbc4b..7338591 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -47,6 +47,8 @@ func (this *errVarint) Error() string {
 
 var errBufferOverlow = fmt.Errorf("buffer overflow")
 
+var errUnknownField = fmt.Errorf("unknown field")
+
 var errUnknownWireType = fmt.Errorf("unknown wire type")
 
 func uvarint(buf []byte) (uint64, int, error) {
@@ -167,6 +169,15 @@ func (s *protoParser) Init(buf []byte) error {
 }
 
 func (s *protoParser) Next() error {
+	err := s.next()
+	for err == errUnknownField {
+		err = s.next()
+	}
+	return err
+}
+
+//next returns errUnknownField when it skipped over a field that is not known.
+func (s *protoParser) next() error {
 	if s.isLeaf {
 		if s.hadLeaf {
 			return io.EOF
@@ -254,7 +265,7 @@ func (s *protoParser) Next() error {
 		s.field = field
 		return nil
 	}
-	return s.Next()
+	return errUnknownField
 }
 
 //setLength sets the length of the value at the current offset, which has to fit in the buffer.
-- 
2.43.0


From 3f800608d78a039aaa258170ffb78976e5ef315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 31/43] fix: parser/xml: reset all state, only strip the
 declaration, leave elements early

---
 parser/xml/parser.go | 56 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index e731336..95632bf 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -37,6 +37,8 @@ type xmlParser struct {
 	attrPrefix string
 	elemPrefix string
 	textPrefix string
+	depth      int
+	err        error
 }
 
 //XMLParser is an xml parser.
@@ -80,12 +82,20 @@ func WithTextPrefix(e string) func(x *xmlParser) {
 	}
 }
 
-var procInstPattern = regexp.MustCompile(`<\?.*\?>`)
+//declPattern matches the XML declaration, the other processing instructions are skipped as tokens.
+var declPattern = regexp.MustCompile(`(?s)^\s*<\?xml\s.*?\?>`)
 
 func (p *xmlParser) Init(buf []byte) error {
-	buf = procInstPattern.ReplaceAll(buf, []byte{})
+	buf = declPattern.ReplaceAll(buf, []byte{})
 	buf = bytes.TrimSpace(buf)
 	p.buf = buf
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
+	p.attrValue = false
+	p.attrFirst = false
+	p.depth = 0
+	p.err = nil
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
 	return nil
@@ -95,11 +105,18 @@ func (s *xmlParser) Reset() error {
 	return s.Init(s.buf)
 }
 
-func hasContent(c CharData) bool {
+func (p *xmlParser) hasContent(c CharData) bool {
+	if p.depth == 0 {
+		//whitespace around the root element is not content
+		return len(bytes.TrimSpace(c)) > 0
+	}
 	return len(string(c)) > 0
 }
 
 func (p *xmlParser) Next() (err error) {
+	if p.err != nil {
+		return p.err
+	}
 	if p.attrValue {
 		if p.attrFirst {
 			p.attrFirst = false
@@ -128,7 +145,7 @@ func (p *xmlParser) Next() (err error) {
 			} else if _, ok := p.tok.(EndElement); ok {
 				return io.EOF
 			} else if c, ok := p.tok.(CharData); ok {
-				if hasContent(c) {
+				if p.hasContent(c) {
 					break
 				}
 			} else if _, ok := p.tok.(Comment); ok {
@@ -148,7 +165,7 @@ func (p *xmlParser) Next() (err error) {
 		if _, ok := p.tok.(StartElement); ok {
 			break
 		} else if c, ok := p.tok.(CharData); ok {
-			if hasContent(c) {
+			if p.hasContent(c) {
 				break
 			}
 		} else if _, ok := p.tok.(EndElement); ok {
@@ -232,16 +249,26 @@ func (p *xmlParser) Up() {
 			return
 		}
 	}
-	if _, ok := p.tok.(EndElement); ok {
-		p.tok = nil
-		p.attrs = nil
-		p.attrIndex = 0
-		return
+	switch p.tok.(type) {
+	case EndElement:
+		//the element was read until its end
+	case StartElement:
+		//skip the current child and then the rest of the element
+		p.skip()
+		p.skip()
+	default:
+		p.skip()
 	}
-	if err := p.dec.Skip(); err != nil {
-		if err != io.EOF {
-			panic(err)
-		}
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
+	p.depth--
+}
+
+//skip skips until the end of the current element, an error is returned by the following call to Next.
+func (p *xmlParser) skip() {
+	if p.err == nil {
+		p.err = p.dec.Skip()
 	}
 }
 
@@ -257,6 +284,7 @@ func (p *xmlParser) Down() {
 		p.tok = nil
 		p.attrs = s.Attr
 		p.attrIndex = -1
+		p.depth++
 		return
 	}
 	panic(fmt.Sprintf("not a start element %T", p.tok))
-- 
2.43.0


From 8fc403d8af8364be0687274b51d28dfa38d247cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 32/43] fix: parser/yaml: trim values and names, null as the
 last or an empty element of an array

---
 parser/yaml/yaml.go | 80 +++++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 11c751c..f046236 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -16,6 +16,7 @@
 package yaml
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -225,6 +226,7 @@ func (s *yamlParser) nextValueInArray() error {
 	if err != nil { // no next line
 		s.startValueOffset = line.nameStart
 		s.endValueOffset = s.offset
+		s.isValueObject = true
 		return nil
 	}
 
@@ -322,7 +324,10 @@ func (s *yamlParser) Bytes() ([]byte, error) {
 
 func (s *yamlParser) Double() (float64, error) {
 	if s.isLeaf {
-		v := string(s.Value())
+		v, ok := s.numeral()
+		if !ok {
+			return 0, parser.ErrNotDouble
+		}
 		i, err := strconv.ParseFloat(v, 64)
 		return i, err
 	}
@@ -331,7 +336,10 @@ func (s *yamlParser) Double() (float64, error) {
 
 func (s *yamlParser) Int() (int64, error) {
 	if s.isLeaf {
-		v := string(s.Value())
+		v, ok := s.numeral()
+		if !ok {
+			return 0, parser.ErrNotInt
+		}
 		i, err := strconv.ParseInt(v, 10, 64)
 		if err != nil {
 			f, ferr := strconv.ParseFloat(v, 64)
@@ -356,13 +364,12 @@ func (s *yamlParser) IsLeaf() bool {
 
 func (s *yamlParser) String() (string, error) {
 	if s.isLeaf {
-		v := s.Value()
-		s := strings.TrimSpace(string(v))
-		if len(s) == 0 {
+		v := string(s.Value())
+		if len(v) == 0 {
 			// for nulls
 			return "", parser.ErrNotString
 		}
-		return strings.TrimSpace(string(v)), nil
+		return v, nil
 	}
 	if s.inArray {
 		return "", parser.ErrNotString
@@ -372,15 +379,30 @@ func (s *yamlParser) String() (string, error) {
 
 func (s *yamlParser) Uint() (uint64, error) {
 	if s.isLeaf {
-		v := string(s.Value())
+		v, ok := s.numeral()
+		if !ok {
+			return 0, parser.ErrNotUint
+		}
 		i, err := strconv.ParseUint(v, 10, 64)
 		return uint64(i), err
 	}
 	return 0, parser.ErrNotUint
 }
 
+//numeral returns the current value, unless it starts with a zero before another digit,
+//since for example a telephone number is not a number.
+func (s *yamlParser) numeral() (string, bool) {
+	v := string(s.Value())
+	digits := strings.TrimLeft(v, "+-")
+	if len(digits) > 1 && digits[0] == '0' && isDigit(digits[1]) {
+		return "", false
+	}
+	return v, true
+}
+
+//Value returns the current value without the white space around it.
 func (s *yamlParser) Value() []byte {
-	return s.buf[s.startValueOffset:s.endValueOffset]
+	return bytes.TrimSpace(s.buf[s.startValueOffset:s.endValueOffset])
 }
 
 func isSpace(c byte) bool {
@@ -482,16 +504,16 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 		i++
 		// skip spaces
 		for ; i < len(buf); i++ {
-			if buf[i] == '\n' {
-				return &Line{
-						isArray: true, indent: indent,
-					},
-					nil
-			}
-			if !isSpace(buf[i]) {
+			if buf[i] == '\n' || !isSpace(buf[i]) {
 				break
 			}
 		}
+		if i == len(buf) || buf[i] == '\n' {
+			return &Line{
+					isArray: true, indent: indent, nameStart: i + s.offset,
+				},
+				nil
+		}
 	}
 
 	var name []byte
@@ -501,7 +523,7 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 	j := i
 	for ; j < len(buf); j++ {
 		if buf[j] == '\n' {
-			name = buf[i:j]
+			name = bytes.TrimSpace(buf[i:j])
 			return &Line{
 				name:      name,
 				isArray:   isArray,
@@ -510,12 +532,12 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 			}, nil
 		}
 		if buf[j] == ':' {
-			name = buf[i:j]
+			name = bytes.TrimSpace(buf[i:j])
 			break
 		}
 		if j == len(buf)-1 {
 			j++
-			name = buf[i:j]
+			name = bytes.TrimSpace(buf[i:j])
 			return &Line{
 				name:      name,
 				isArray:   isArray,
@@ -660,17 +682,17 @@ func (s *yamlParser) scanLine() (*Line, error) {
 		i++
 		// skip spaces
 		for ; i < len(buf); i++ {
-			if buf[i] == '\n' {
-				s.offset += i
-				return &Line{
-						isArray: true, indent: indent,
-					},
-					nil
-			}
-			if !isSpace(buf[i]) {
+			if buf[i] == '\n' || !isSpace(buf[i]) {
 				break
 			}
 		}
+		if i == len(buf) || buf[i] == '\n' {
+			s.offset += i
+			return &Line{
+					isArray: true, indent: indent, nameStart: s.offset,
+				},
+				nil
+		}
 	}
 
 	var name []byte
@@ -680,7 +702,7 @@ func (s *yamlParser) scanLine() (*Line, error) {
 	j := i
 	for ; j < len(buf); j++ {
 		if buf[j] == '\n' {
-			name = buf[i:j]
+			name = bytes.TrimSpace(buf[i:j])
 			s.offset += j
 			return &Line{
 				name:      name,
@@ -691,12 +713,12 @@ func (s *yamlParser) scanLine() (*Line, error) {
 			}, nil
 		}
 		if buf[j] == ':' {
-			name = buf[i:j]
+			name = bytes.TrimSpace(buf[i:j])
 			break
 		}
 		if j == len(buf)-1 {
 			j++
-			name = buf[i:j]
+			name = bytes.TrimSpace(buf[i:j])
 			s.offset += j
 			return &Line{
 				name:      name,
-- 
2.43.0


From 83714bf6a578b14e0583feff1570bfa5274d04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 33/43] fix: encode/proto: grow the buffer enough, return the
 errors of the parser

---
 encode/proto/proto.go | 105 ++++++++++++++++--------------------------
 1 file changed, 39 insertions(+), 66 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 18f293d..64f0488 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -197,6 +197,7 @@ type msgField struct {
 
 func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	msginitoff := offset + 20
+	buf = checkSize(buf, offset, 20)
 	msgbuf, msgfinaloff, err := this.msg.encode(buf, msginitoff, p)
 	if err != nil {
 		return nil, 0, err
@@ -210,7 +211,7 @@ func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 
 func checkSize(buf []byte, offset int, size int) []byte {
 	if offset+size > len(buf) {
-		newbuf := make([]byte, len(buf)*3+size+1)
+		newbuf := make([]byte, len(buf)*3+offset+size+1)
 		copy(newbuf, buf)
 		buf = newbuf
 	}
@@ -256,6 +257,17 @@ func safeCopy(dst []byte, offset int, src []byte) ([]byte, int) {
 	return dst, offset
 }
 
+//nextLeaf returns whether there is a next label and it is a leaf.
+func nextLeaf(p parser.Interface) (bool, error) {
+	if err := p.Next(); err != nil {
+		if err == io.EOF {
+			return false, nil
+		}
+		return false, err
+	}
+	return p.IsLeaf(), nil
+}
+
 func newDoubleField(f *descriptor.FieldDescriptorProto) *doubleField {
 	return &doubleField{f.GetKey()}
 }
@@ -265,11 +277,8 @@ type doubleField struct {
 }
 
 func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Double()
@@ -289,11 +298,8 @@ type floatField struct {
 }
 
 func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Double()
@@ -313,11 +319,8 @@ type intField struct {
 }
 
 func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Int()
@@ -337,11 +340,8 @@ type uintField struct {
 }
 
 func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Uint()
@@ -361,11 +361,8 @@ type fixed64UintField struct {
 }
 
 func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Uint()
@@ -385,11 +382,8 @@ type fixed32UintField struct {
 }
 
 func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Uint()
@@ -409,11 +403,8 @@ type boolField struct {
 }
 
 func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	b, err := p.Bool()
@@ -437,11 +428,8 @@ type stringField struct {
 }
 
 func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.String()
@@ -463,11 +451,8 @@ type bytesField struct {
 }
 
 func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Bytes()
@@ -488,11 +473,8 @@ type fixed64IntField struct {
 }
 
 func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Int()
@@ -512,11 +494,8 @@ type fixed32IntField struct {
 }
 
 func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Int()
@@ -536,11 +515,8 @@ type sint32Field struct {
 }
 
 func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Int()
@@ -560,11 +536,8 @@ type sint64Field struct {
 }
 
 func (this *sint64Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
-	if err := p.Next(); err != nil {
-		return buf, offset, nil
-	}
-	if !p.IsLeaf() {
-		return buf, offset, nil
+	if leaf, err := nextLeaf(p); err != nil || !leaf {
+		return buf, offset, err
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
 	v, err := p.Int()
-- 
2.43.0


From a91742677f08cba15e4fda4ced862ac5cfa335a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 34/43] fix: encode/proto: messages that contain themselves and
 extension fields

---
 encode/proto/proto.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 64f0488..ba9845d 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -42,7 +42,8 @@ func NewEncoder(desc *descriptor.FileDescriptorSet, pkgName, msgName string) (En
 	if err != nil {
 		return nil, err
 	}
-	return &encoder{msg: newMsg(descMap, descMap.GetRoot())}, nil
+	msgs := make(map[*descriptor.DescriptorProto]*msg)
+	return &encoder{msg: newMsg(msgs, descMap, descMap.GetRoot())}, nil
 }
 
 type encoder struct {
@@ -67,23 +68,28 @@ type fieldEncoder interface {
 	encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error)
 }
 
-func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg {
+//newMsg returns the message encoder in msgs, since a message can contain itself.
+func newMsg(msgs map[*descriptor.DescriptorProto]*msg, desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg {
+	if m, ok := msgs[protomsg]; ok {
+		return m
+	}
 	msg := &msg{make(map[string]fieldEncoder)}
-	for _, f := range protomsg.GetField() {
-		fieldEnc := newFieldEncoder(desc, f)
+	msgs[protomsg] = msg
+	for _, f := range desc.LookupFields(protomsg) {
+		fieldEnc := newFieldEncoder(msgs, desc, f)
 		msg.fieldEncoders[f.GetName()] = fieldEnc
 	}
 	return msg
 }
 
-func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newFieldEncoder(msgs map[*descriptor.DescriptorProto]*msg, desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	if f.IsRepeated() {
-		return newRepeatedField(desc, f)
+		return newRepeatedField(msgs, desc, f)
 	}
-	return newSingleField(desc, f)
+	return newSingleField(msgs, desc, f)
 }
 
-func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newSingleField(msgs map[*descriptor.DescriptorProto]*msg, desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
 		return newDoubleField(f)
@@ -104,7 +110,7 @@ func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto
 	case descriptor.FieldDescriptorProto_TYPE_STRING:
 		return newStringField(f)
 	case descriptor.FieldDescriptorProto_TYPE_MESSAGE:
-		return newMsgField(desc, f, desc.LookupMessage(f))
+		return newMsgField(f, newMsg(msgs, desc, desc.LookupMessage(f)))
 	case descriptor.FieldDescriptorProto_TYPE_BYTES:
 		return newBytesField(f)
 	case descriptor.FieldDescriptorProto_TYPE_UINT32:
@@ -154,10 +160,10 @@ type repeatedField struct {
 	fieldEnc fieldEncoder
 }
 
-func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
+func newRepeatedField(msgs map[*descriptor.DescriptorProto]*msg, desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
 	return &repeatedField{
 		key:      f.GetKey(),
-		fieldEnc: newSingleField(desc, f),
+		fieldEnc: newSingleField(msgs, desc, f),
 	}
 }
 
@@ -183,10 +189,10 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 	}
 }
 
-func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
+func newMsgField(field *descriptor.FieldDescriptorProto, msg *msg) *msgField {
 	return &msgField{
 		key: field.GetKey(),
-		msg: newMsg(desc, msg),
+		msg: msg,
 	}
 }
 
-- 
2.43.0


From 62da67dfb7907dac264fbb8d42b95a2b7db434ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 35/43] fix: encode/proto: the key of elements of packed
 fields, leaves where none are expected

---
 encode/proto/proto.go | 46 +++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index ba9845d..0c1783f 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -22,6 +22,7 @@
 package proto
 
 import (
+	"fmt"
 	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
 	"github.com/katydid/katydid/parser"
 	protoparser "github.com/katydid/katydid/parser/proto"
@@ -82,6 +83,15 @@ func newMsg(msgs map[*descriptor.DescriptorProto]*msg, desc protoparser.DescMap,
 	return msg
 }
 
+//getKey returns the key of an element, since elements are never written packed.
+func getKey(f *descriptor.FieldDescriptorProto) []byte {
+	if !f.IsPacked() {
+		return f.GetKey()
+	}
+	unpacked := &descriptor.FieldDescriptorProto{Number: f.Number, Type: f.Type, Label: f.Label}
+	return unpacked.GetKey()
+}
+
 func newFieldEncoder(msgs map[*descriptor.DescriptorProto]*msg, desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	if f.IsRepeated() {
 		return newRepeatedField(msgs, desc, f)
@@ -138,6 +148,9 @@ func (this *msg) encode(buf []byte, offset int, p parser.Interface) ([]byte, int
 				return nil, 0, err
 			}
 		}
+		if p.IsLeaf() {
+			return nil, 0, fmt.Errorf("message: did not expect leaf")
+		}
 		name, err := p.String()
 		if err != nil {
 			return nil, 0, err
@@ -162,7 +175,7 @@ type repeatedField struct {
 
 func newRepeatedField(msgs map[*descriptor.DescriptorProto]*msg, desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
 	return &repeatedField{
-		key:      f.GetKey(),
+		key:      getKey(f),
 		fieldEnc: newSingleField(msgs, desc, f),
 	}
 }
@@ -176,6 +189,9 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 				return nil, 0, err
 			}
 		}
+		if p.IsLeaf() {
+			return nil, 0, fmt.Errorf("list: did not expect leaf")
+		}
 		_, err := p.Int()
 		if err != nil {
 			return nil, 0, err
@@ -191,7 +207,7 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 
 func newMsgField(field *descriptor.FieldDescriptorProto, msg *msg) *msgField {
 	return &msgField{
-		key: field.GetKey(),
+		key: getKey(field),
 		msg: msg,
 	}
 }
@@ -275,7 +291,7 @@ func nextLeaf(p parser.Interface) (bool, error) {
 }
 
 func newDoubleField(f *descriptor.FieldDescriptorProto) *doubleField {
-	return &doubleField{f.GetKey()}
+	return &doubleField{getKey(f)}
 }
 
 type doubleField struct {
@@ -296,7 +312,7 @@ func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newFloatField(f *descriptor.FieldDescriptorProto) *floatField {
-	return &floatField{f.GetKey()}
+	return &floatField{getKey(f)}
 }
 
 type floatField struct {
@@ -317,7 +333,7 @@ func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]by
 }
 
 func newIntField(f *descriptor.FieldDescriptorProto) *intField {
-	return &intField{f.GetKey()}
+	return &intField{getKey(f)}
 }
 
 type intField struct {
@@ -338,7 +354,7 @@ func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 }
 
 func newUintField(f *descriptor.FieldDescriptorProto) *uintField {
-	return &uintField{f.GetKey()}
+	return &uintField{getKey(f)}
 }
 
 type uintField struct {
@@ -359,7 +375,7 @@ func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 }
 
 func newFixed64UintField(f *descriptor.FieldDescriptorProto) *fixed64UintField {
-	return &fixed64UintField{f.GetKey()}
+	return &fixed64UintField{getKey(f)}
 }
 
 type fixed64UintField struct {
@@ -380,7 +396,7 @@ func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newFixed32UintField(f *descriptor.FieldDescriptorProto) *fixed32UintField {
-	return &fixed32UintField{f.GetKey()}
+	return &fixed32UintField{getKey(f)}
 }
 
 type fixed32UintField struct {
@@ -401,7 +417,7 @@ func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newBoolField(f *descriptor.FieldDescriptorProto) *boolField {
-	return &boolField{f.GetKey()}
+	return &boolField{getKey(f)}
 }
 
 type boolField struct {
@@ -426,7 +442,7 @@ func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 }
 
 func newStringField(f *descriptor.FieldDescriptorProto) *stringField {
-	return &stringField{f.GetKey()}
+	return &stringField{getKey(f)}
 }
 
 type stringField struct {
@@ -449,7 +465,7 @@ func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newBytesField(f *descriptor.FieldDescriptorProto) *bytesField {
-	return &bytesField{f.GetKey()}
+	return &bytesField{getKey(f)}
 }
 
 type bytesField struct {
@@ -471,7 +487,7 @@ func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]by
 }
 
 func newFixed64IntField(f *descriptor.FieldDescriptorProto) *fixed64IntField {
-	return &fixed64IntField{f.GetKey()}
+	return &fixed64IntField{getKey(f)}
 }
 
 type fixed64IntField struct {
@@ -492,7 +508,7 @@ func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newFixed32IntField(f *descriptor.FieldDescriptorProto) *fixed32IntField {
-	return &fixed32IntField{f.GetKey()}
+	return &fixed32IntField{getKey(f)}
 }
 
 type fixed32IntField struct {
@@ -513,7 +529,7 @@ func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newSint32Field(f *descriptor.FieldDescriptorProto) *sint32Field {
-	return &sint32Field{f.GetKey()}
+	return &sint32Field{getKey(f)}
 }
 
 type sint32Field struct {
@@ -534,7 +550,7 @@ func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newSint64Field(f *descriptor.FieldDescriptorProto) *sint64Field {
-	return &sint64Field{f.GetKey()}
+	return &sint64Field{getKey(f)}
 }
 
 type sint64Field struct {
-- 
2.43.0


From a420c287eaf2300d27a2fe8a589c79919a83edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 36/43] fix: parser/reflect: Bytes of an int8 or uint8
 panicked, Init kept the stack

---
 parser/reflect/reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index 9c91d6b..4fba0a4 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -83,6 +83,7 @@ func NewReflectParser() ReflectParser {
 
 func (s *reflectParser) Init(value reflect.Value) ReflectParser {
 	s.state = newState(value)
+	s.stack = s.stack[:0]
 	return s
 }
 
@@ -177,8 +178,7 @@ func (s *reflectParser) String() (string, error) {
 func (s *reflectParser) Bytes() ([]byte, error) {
 	if s.isLeaf {
 		value := s.getValue()
-		switch value.Kind() {
-		case reflect.Slice, reflect.Uint8, reflect.Int8:
+		if value.Kind() == reflect.Slice {
 			return value.Bytes(), nil
 		}
 	}
-- 
2.43.0


From c538b2037e4e40c257c9d479fcd8a3bd64b35081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:09 +0000
Subject: [PATCH 37/43] fix: encode/reflect: convert to the type of the
 destination, return errors instead of panicking

---
 encode/reflect/reflect.go | 218 ++++++++++++++++++++++----------------
 1 file changed, 128 insertions(+), 90 deletions(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 4703e2c..edd3151 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -26,10 +26,12 @@ import (
 //Encode encodes a parser.Interface into a go structure value.
 func Encode(p parser.Interface, v interface{}) error {
 	r := reflect.ValueOf(v)
-	return encodeStruct(p, r)
+	_, err := encodeStruct(p, r)
+	return err
 }
 
-func encodeStruct(p parser.Interface, v reflect.Value) error {
+//encodeStruct returns whether there was a null instead of a struct.
+func encodeStruct(p parser.Interface, v reflect.Value) (bool, error) {
 	kind := v.Type().Kind()
 	isPtr := false
 	if kind == reflect.Ptr {
@@ -37,61 +39,42 @@ func encodeStruct(p parser.Interface, v reflect.Value) error {
 		isPtr = true
 	}
 	if kind != reflect.Struct {
-		return fmt.Errorf("expected struct")
+		return false, fmt.Errorf("expected struct")
 	}
 	for {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				return nil
-			} else {
-				panic(err)
+				return false, nil
 			}
+			return false, err
 		}
 		if p.IsLeaf() {
-			return fmt.Errorf("struct: did not expect leaf")
+			if isNull(p) {
+				return true, nil
+			}
+			return false, fmt.Errorf("struct: did not expect leaf")
 		}
 		name, err := p.String()
 		if err != nil {
-			return err
+			return false, err
 		}
 		strct := v
 		if isPtr {
 			strct = v.Elem()
 		}
 		field := strct.FieldByName(name)
-		if !field.IsValid() {
+		if !field.IsValid() || !field.CanSet() {
 			continue //skip field
 		}
-		fieldKind := field.Kind()
-		fieldIsPtr := false
-		fieldType := field.Type()
-		if fieldKind == reflect.Ptr {
-			fieldIsPtr = true
-			fieldKind = field.Type().Elem().Kind()
-			fieldType = field.Type().Elem()
-		}
 		p.Down()
-		switch fieldKind {
-		case reflect.Struct:
-			if !p.IsLeaf() {
-				if fieldIsPtr {
-					field.Set(reflect.New(field.Type().Elem()))
-				}
-				if err := encodeStruct(p, field); err != nil {
-					return err
-				}
+		if field.Kind() == reflect.Struct {
+			if _, err := encodeStruct(p, field); err != nil {
+				return false, err
 			}
-		case reflect.Slice:
-			list, err := newList(p, fieldType)
-			if err != nil {
-				return err
-			}
-			field.Set(list)
-		default:
-
-			value, err := newValue(p, fieldType)
+		} else {
+			value, _, err := newValue(p, field.Type())
 			if err != nil {
-				return err
+				return false, err
 			}
 			field.Set(value)
 		}
@@ -99,91 +82,146 @@ func encodeStruct(p parser.Interface, v reflect.Value) error {
 	}
 }
 
-func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
+func newList(p parser.Interface, typ reflect.Type) (reflect.Value, bool, error) {
 	list := reflect.MakeSlice(typ, 0, 0)
 	for {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				return list, nil
-			} else {
-				panic(err)
+				return list, false, nil
 			}
+			return list, false, err
 		}
 		if p.IsLeaf() {
-			return reflect.ValueOf(nil), fmt.Errorf("list: did not expect leaf")
-		}
-		_, err := p.Int()
-		if err != nil {
-			return reflect.ValueOf(nil), err
+			if isNull(p) {
+				return reflect.Zero(typ), true, nil
+			}
+			return list, false, fmt.Errorf("list: did not expect leaf")
 		}
-		elemType := typ.Elem()
-		elemKind := elemType.Kind()
-		elemIsPtr := false
-		if elemKind == reflect.Ptr {
-			elemIsPtr = true
-			elemType = typ.Elem().Elem()
-			elemKind = elemType.Kind()
+		if _, err := p.Int(); err != nil {
+			return list, false, err
 		}
 		p.Down()
-		switch elemKind {
-		case reflect.Struct:
-			if !p.IsLeaf() {
-				elem := reflect.New(elemType).Elem()
-				if err := encodeStruct(p, elem); err != nil {
-					return reflect.ValueOf(nil), err
-				}
-				if elemIsPtr {
-					elem = elem.Addr()
-				}
-				list = reflect.Append(list, elem)
-			} else {
-				list = reflect.Append(list, reflect.Zero(typ.Elem()))
-			}
-		case reflect.Slice:
-			newList, err := newList(p, elemType)
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, newList)
-		default:
-			elem, err := newValue(p, typ.Elem())
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, elem)
+		elem, _, err := newValue(p, typ.Elem())
+		if err != nil {
+			return list, false, err
 		}
+		list = reflect.Append(list, elem)
 		p.Up()
 	}
 }
 
-func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
+//newValue returns a value of the type and whether there was a null or nothing instead, in which case it is the zero value.
+func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, bool, error) {
+	switch typ.Kind() {
+	case reflect.Ptr:
+		elem, null, err := newValue(p, typ.Elem())
+		if err != nil || null {
+			return reflect.Zero(typ), true, err
+		}
+		ptr := reflect.New(typ.Elem())
+		ptr.Elem().Set(elem)
+		return ptr, false, nil
+	case reflect.Struct:
+		strct := reflect.New(typ).Elem()
+		null, err := encodeStruct(p, strct)
+		return strct, null, err
+	case reflect.Slice:
+		if typ.Elem().Kind() != reflect.Uint8 {
+			return newList(p, typ)
+		}
+	}
 	if err := p.Next(); err != nil {
 		if err == io.EOF {
-			return reflect.ValueOf(nil), nil
-		} else {
-			panic(err)
+			return reflect.Zero(typ), true, nil
 		}
+		return reflect.Zero(typ), false, err
 	}
 	if !p.IsLeaf() {
-		return reflect.ValueOf(nil), fmt.Errorf("expected leaf")
+		return reflect.Zero(typ), false, fmt.Errorf("expected leaf")
+	}
+	if isNull(p) {
+		return reflect.Zero(typ), true, nil
 	}
+	value := reflect.New(typ).Elem()
+	return value, false, setValue(p, value)
+}
+
+func setValue(p parser.Interface, value reflect.Value) error {
+	switch value.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		v, err := p.Int()
+		if err != nil {
+			return err
+		}
+		if value.OverflowInt(v) {
+			return fmt.Errorf("%d overflows %s", v, value.Type())
+		}
+		value.SetInt(v)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		v, err := p.Uint()
+		if err != nil {
+			return err
+		}
+		if value.OverflowUint(v) {
+			return fmt.Errorf("%d overflows %s", v, value.Type())
+		}
+		value.SetUint(v)
+	case reflect.Float32, reflect.Float64:
+		v, err := p.Double()
+		if err != nil {
+			return err
+		}
+		value.SetFloat(v)
+	case reflect.Bool:
+		v, err := p.Bool()
+		if err != nil {
+			return err
+		}
+		value.SetBool(v)
+	case reflect.String:
+		v, err := p.String()
+		if err != nil {
+			return err
+		}
+		value.SetString(v)
+	case reflect.Slice:
+		v, err := p.Bytes()
+		if err != nil {
+			return err
+		}
+		value.SetBytes(append([]byte{}, v...))
+	default:
+		v := reflect.ValueOf(getValue(p))
+		if !v.Type().AssignableTo(value.Type()) {
+			return fmt.Errorf("%s is not assignable to %s", v.Type(), value.Type())
+		}
+		value.Set(v)
+	}
+	return nil
+}
+
+func isNull(p parser.Interface) bool {
+	return getValue(p) == nil
+}
+
+func getValue(p parser.Interface) interface{} {
 	if value, err := p.Int(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.Uint(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.Double(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.Bool(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.String(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.Bytes(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
-	return reflect.ValueOf(nil), nil
+	return nil
 }
-- 
2.43.0


From b49f1e58ad2b00370b551028127cd0e436963819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 38/43] fix: parser/proto: building a parser wrote into the
 descriptor, which can be shared

---
 parser/proto/desc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/proto/desc.go b/parser/proto/desc.go
index 53c64c1..947b9c9 100644
--- a/parser/proto/desc.go
+++ b/parser/proto/desc.go
@@ -149,7 +149,8 @@ func (this *descMap) visit(pkgName string, msg *descriptor.DescriptorProto) erro
 	fields := msg.GetField()
 	if msg.HasExtension() {
 		exts := this.findExts(pkgName, msg.GetName())
-		fields = append(fields, exts...)
+		//a copy, since the descriptor could have room behind its fields and can be shared
+		fields = append(append([]*descriptor.FieldDescriptorProto{}, fields...), exts...)
 	}
 	for i, f := range fields {
 		if _, ok := this.msgToField[msg]; !ok {
-- 
2.43.0


From 67b6ecf5688569e54c49148e1c214881cc986aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 39/43] fix: turn interned patterns with several excluded names
 back into name expressions

---
 relapse/name/name.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/relapse/name/name.go b/relapse/name/name.go
index 7ca449a..25a1208 100644
--- a/relapse/name/name.go
+++ b/relapse/name/name.go
@@ -102,6 +102,13 @@ func terminalToName(e *ast.Expr) (*ast.NameExpr, error) {
 	return nil, fmt.Errorf("unknown terminal: %v", e)
 }
 
+func exceptName(n *ast.NameExpr) *ast.NameExpr {
+	if n.AnyNameExcept != nil {
+		return n.AnyNameExcept.GetExcept()
+	}
+	return ast.NewAnyNameExcept(n)
+}
+
 func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 	if e.GetBuiltIn() != nil {
 		if e.GetBuiltIn().GetSymbol().String() == "==" {
@@ -136,6 +143,18 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 			}
 			return ast.NewNameChoice(e1, e2), nil
 		}
+		if e.GetFunction().GetName() == "and" {
+			// excluding a choice of names is excluding each of them.
+			e1, err := exprToName(e.GetFunction().GetParams()[0])
+			if err != nil {
+				return nil, err
+			}
+			e2, err := exprToName(e.GetFunction().GetParams()[1])
+			if err != nil {
+				return nil, err
+			}
+			return ast.NewAnyNameExcept(ast.NewNameChoice(exceptName(e1), exceptName(e2))), nil
+		}
 		return nil, fmt.Errorf("unsupported function: %v", e)
 	}
 	if e.GetTerminal() != nil {
-- 
2.43.0


From 0b5eae7191238e10070277fbbef1198ecbf826e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 40/43] fix: refuse a serialized grammar with a length that
 overflows

---
 relapse/ast/relapse.pb.go | 413 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 412 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/relapse.pb.go b/relapse/ast/relapse.pb.go
index 2b62f0c..86b2c59 100644
--- a/relapse/ast/relapse.pb.go
+++ b/relapse/ast/relapse.pb.go
@@ -4459,6 +4459,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4492,6 +4495,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4523,6 +4529,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4542,6 +4551,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4606,6 +4618,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4639,6 +4654,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4673,6 +4691,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4701,6 +4722,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4734,6 +4758,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4753,6 +4780,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4817,6 +4847,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4850,6 +4883,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4883,6 +4919,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4916,6 +4955,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4949,6 +4991,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4982,6 +5027,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5015,6 +5063,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5048,6 +5099,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5081,6 +5135,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5114,6 +5171,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5147,6 +5207,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5180,6 +5243,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5213,6 +5279,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5232,6 +5301,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5296,6 +5368,9 @@ func (m *Empty) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5315,6 +5390,9 @@ func (m *Empty) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5379,6 +5457,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5412,6 +5493,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5445,6 +5529,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5464,6 +5551,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5528,6 +5618,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5561,6 +5654,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5580,6 +5676,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5644,6 +5743,9 @@ func (m *LeafNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5663,6 +5765,9 @@ func (m *LeafNode) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5727,6 +5832,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5760,6 +5868,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5793,6 +5904,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5826,6 +5940,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5859,6 +5976,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5892,6 +6012,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5911,6 +6034,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5975,6 +6101,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6008,6 +6137,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6041,6 +6173,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6074,6 +6209,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6107,6 +6245,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6126,6 +6267,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6190,6 +6334,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6223,6 +6370,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6256,6 +6406,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6289,6 +6442,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6322,6 +6478,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6341,6 +6500,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6405,6 +6567,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6438,6 +6603,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6471,6 +6639,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6504,6 +6675,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6523,6 +6697,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6587,6 +6764,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6621,6 +6801,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6635,6 +6818,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6699,6 +6885,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6732,6 +6921,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6765,6 +6957,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6798,6 +6993,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6817,6 +7015,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6881,6 +7082,9 @@ func (m *ZAny) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6900,6 +7104,9 @@ func (m *ZAny) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6964,6 +7171,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6997,6 +7207,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7030,6 +7243,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7063,6 +7279,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7082,6 +7301,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7146,6 +7368,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7179,6 +7404,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7212,6 +7440,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7245,6 +7476,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7278,6 +7512,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7311,6 +7548,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7330,6 +7570,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7394,6 +7637,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7427,6 +7673,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7460,6 +7709,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7493,6 +7745,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7526,6 +7781,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7559,6 +7817,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7578,6 +7839,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7642,6 +7906,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7694,6 +7961,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7727,6 +7997,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7758,6 +8031,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7777,6 +8053,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7841,6 +8120,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7875,6 +8157,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7903,6 +8188,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7936,6 +8224,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7967,6 +8258,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7986,6 +8280,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8050,6 +8347,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8083,6 +8383,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8102,6 +8405,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8166,6 +8472,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8200,6 +8509,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8302,6 +8614,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8331,6 +8646,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8362,6 +8680,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8381,6 +8702,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8450,6 +8774,9 @@ func (m *Variable) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8514,6 +8841,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8548,6 +8878,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8562,6 +8895,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8627,6 +8963,9 @@ func (m *Space) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8641,6 +8980,9 @@ func (m *Space) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8705,6 +9047,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8738,6 +9083,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8771,6 +9119,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8804,6 +9155,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8823,6 +9177,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8887,6 +9244,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8994,6 +9354,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9023,6 +9386,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9040,6 +9406,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9104,6 +9473,9 @@ func (m *AnyName) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9123,6 +9495,9 @@ func (m *AnyName) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9187,6 +9562,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9220,6 +9598,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9253,6 +9634,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9286,6 +9670,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9305,6 +9692,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9369,6 +9759,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9402,6 +9795,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9435,6 +9831,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9468,6 +9867,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9501,6 +9903,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9520,6 +9925,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9587,7 +9995,7 @@ func skipRelapse(dAtA []byte) (n int, err error) {
 				}
 			}
 			iNdEx += length
-			if length < 0 {
+			if length < 0 || iNdEx < 0 {
 				return 0, ErrInvalidLengthRelapse
 			}
 			return iNdEx, nil
@@ -9618,6 +10026,9 @@ func skipRelapse(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthRelapse
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0


From e4b2ea3c1c42502c90723cf9d38b177cf26ca05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 41/43] fix: remove duplicates among patterns with the same
 hash

---
 relapse/intern/order.go | 11 ++++++++---
 relapse/interp/order.go |  8 ++++++--
 relapse/sets/zip.go     |  8 ++++++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/relapse/intern/order.go b/relapse/intern/order.go
index b572d30..9e9fa31 100644
--- a/relapse/intern/order.go
+++ b/relapse/intern/order.go
@@ -49,15 +49,20 @@ func (s sortable) Less(i, j int) bool {
 func orderedSet(ps []*Pattern) []*Pattern {
 
 	if len(ps) == 0 {
-		return nil
+		return ps
 	}
 
 	sort.Sort(sortable(ps))
 
-	// remove duplicates from a sorted list
+	// remove duplicates from a sorted list,
+	// in which different patterns with the same hash can be in any order.
 	u := 0
 	for i := 1; i < len(ps); i++ {
-		if ps[i].Equal(ps[u]) {
+		dup := false
+		for j := u; j >= 0 && ps[i].hash == ps[j].hash && !dup; j-- {
+			dup = ps[i].Equal(ps[j])
+		}
+		if dup {
 			continue
 		}
 		u++
diff --git a/relapse/interp/order.go b/relapse/interp/order.go
index de0cc3c..e48090b 100644
--- a/relapse/interp/order.go
+++ b/relapse/interp/order.go
@@ -75,8 +75,12 @@ func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
 
 	u := 0
 	for i := 1; i < len(ps); i++ {
-		if hashes[i] == hashes[u] &&
-			ps[i].Equal(ps[u]) {
+		// different patterns with the same hash can be in any order.
+		dup := false
+		for j := u; j >= 0 && hashes[i] == hashes[j] && !dup; j-- {
+			dup = ps[i].Equal(ps[j])
+		}
+		if dup {
 			continue
 		}
 		u++
diff --git a/relapse/sets/zip.go b/relapse/sets/zip.go
index 3a2b649..b49bfa8 100644
--- a/relapse/sets/zip.go
+++ b/relapse/sets/zip.go
@@ -67,8 +67,12 @@ func Zip(patterns []*ast.Pattern) ([]*ast.Pattern, []int) {
 	if len(ps) > 0 {
 		u = 0
 		for i := 1; i < len(ps); i++ {
-			if hashes[i] == hashes[u] &&
-				ps[i].Equal(ps[u]) {
+			// different patterns with the same hash can be in any order.
+			dup := false
+			for j := u; j >= 0 && hashes[i] == hashes[j] && !dup; j-- {
+				dup = ps[i].Equal(ps[j])
+			}
+			if dup {
 				continue
 			}
 			u++
-- 
2.43.0


From b5e5177072b1926d7415f51e9d0a50b4b93e6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 42/43] fix: name: a function that is always false is the name
 that excludes all names

---
 relapse/name/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/name/name.go b/relapse/name/name.go
index 25a1208..7d14768 100644
--- a/relapse/name/name.go
+++ b/relapse/name/name.go
@@ -162,7 +162,7 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 			if e.GetTerminal().GetBoolValue() {
 				return ast.NewAnyName(), nil
 			} else {
-				return nil, fmt.Errorf("not true")
+				return ast.NewAnyNameExcept(ast.NewAnyName()), nil
 			}
 		} else {
 			return nil, fmt.Errorf("not bool")
-- 
2.43.0


From 057432d8002eeb13bb68b115a144b7fba91089bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 43/43] fix: intern: flatten nested or and and patterns, so
 that derivatives do not grow without bound

---
 relapse/intern/construct.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index b13b822..388bc1e 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -376,7 +376,22 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	return c.NewOr(ps)
 }
 
+// flatten replaces the patterns of the given type by the patterns they consist of,
+// so that nested patterns do not escape the removal of duplicates.
+func flatten(typ PatternType, ps []*Pattern) []*Pattern {
+	flat := make([]*Pattern, 0, len(ps))
+	for _, p := range ps {
+		if p.Type == typ {
+			flat = append(flat, p.Patterns...)
+		} else {
+			flat = append(flat, p)
+		}
+	}
+	return flat
+}
+
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
+	ps = flatten(Or, ps)
 	if deriveAny(isZAny, ps) {
 		return c.NewZAny(), nil
 	}
@@ -522,6 +537,7 @@ func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
+	ps = flatten(And, ps)
 	if deriveAny(isNotZAny, ps) {
 		return c.NewNotZAny(), nil
 	}
-- 
2.43.0

