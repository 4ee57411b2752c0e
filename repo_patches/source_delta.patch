From 2c1bd585965ca21752180033f84cba36c4c8ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:15:35 +0000
Subject: [PATCH 01/59] fix: keep line tracking when a cursor is cloned

---
 runes/cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index 07557a2..0cf8ea4 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -22,6 +22,7 @@ func (c *Cursor) Clone() *Cursor {
 		Text:     c.Text,
 		Len:      c.Len,
 		Position: c.Position.Clone(),
+		wasLF:    c.wasLF,
 	}
 }
 
-- 
2.43.0


From cc525c6d80b998b129454a950473174ad4a1a07f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:07 +0000
Subject: [PATCH 02/59] fix: terminate on a character string which is not
 closed

---
 token/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/string.go b/token/string.go
index be38b40..9eba09a 100644
--- a/token/string.go
+++ b/token/string.go
@@ -11,6 +11,9 @@ func ProcessString(c *runes.Cursor) *Token {
 		var last rune
 		for {
 			r := c.Next()
+			if r == runes.CursorEOF {
+				break
+			}
 			if last != '\\' && r == '\'' {
 				break
 			}
-- 
2.43.0


From b8d1c420bf86213fe265113d6f285ba62058401d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:09 +0000
Subject: [PATCH 03/59] fix: do not take a NUL character for the end of the
 text

---
 runes/cursor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runes/cursor.go b/runes/cursor.go
index 0cf8ea4..77e9b8e 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -7,7 +7,7 @@ type Cursor struct {
 	wasLF    bool
 }
 
-const CursorEOF = rune(0)
+const CursorEOF = rune(-1)
 
 func NewCursor(text *[]rune) *Cursor {
 	return &Cursor{
-- 
2.43.0


From be0732ce5240720f78e3b5d850e77e559a4fff88 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:10 +0000
Subject: [PATCH 04/59] fix: return a token for characters outside the language
 instead of nil

---
 token/tokenizer.go |  1 +
 token/type.go      |  2 ++
 token/unknown.go   | 13 +++++++++++++
 3 files changed, 16 insertions(+)
 create mode 100644 token/unknown.go

diff --git a/token/tokenizer.go b/token/tokenizer.go
index 0f32d50..5bc95df 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -42,6 +42,7 @@ var processors = []func(*runes.Cursor) *Token{
 	ProcessSingleSpecialSymbol,
 	ProcessWord,
 	ProcessSpace,
+	ProcessUnknown,
 }
 
 func (t *Tokenizer) GetNext() *Token {
diff --git a/token/type.go b/token/type.go
index b5da5ef..552af82 100644
--- a/token/type.go
+++ b/token/type.go
@@ -20,6 +20,7 @@ const (
 	NumeralReal
 	Label
 	CharacterString
+	Unknown
 )
 
 var TypeNames = map[Type]string{
@@ -34,6 +35,7 @@ var TypeNames = map[Type]string{
 	NumeralReal:         "real",
 	Label:               "label",
 	CharacterString:     "character string",
+	Unknown:             "unknown",
 }
 
 func (t Type) String() string {
diff --git a/token/unknown.go b/token/unknown.go
new file mode 100644
index 0000000..75555ff
--- /dev/null
+++ b/token/unknown.go
@@ -0,0 +1,13 @@
+package token
+
+import (
+	"github.com/akm/tparser/runes"
+)
+
+// ProcessUnknown must be the last processor. It makes a token from a character
+// which no other processor accepts.
+func ProcessUnknown(c *runes.Cursor) *Token {
+	start := c.Position.Clone()
+	c.Next()
+	return NewToken(Unknown, c.Text, start, c.Position.Clone())
+}
-- 
2.43.0


From a53b7f63d3d7efe78e3d7e4da43c254155d984ef Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 05/59] fix: find the END of every assembler statement, or
 report that it is missing

---
 parser/statement_asm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/statement_asm.go b/parser/statement_asm.go
index 6df2624..f089a4f 100644
--- a/parser/statement_asm.go
+++ b/parser/statement_asm.go
@@ -10,15 +10,18 @@ func (p *Parser) ParseAssemblerStatement() (*ast.AssemblerStatement, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("ASM")); err != nil {
 		return nil, err
 	}
-	p.NextToken()
 
 	log.Printf("ParseAssemblerStatement start")
 
 	for {
-		if p.NextToken().Is(token.ReservedWord.HasKeyword("END")) {
+		t := p.NextToken()
+		if t.Is(token.ReservedWord.HasKeyword("END")) {
 			p.NextToken()
 			break
 		}
+		if t.Is(token.EOF) {
+			return nil, p.TokenErrorf("expects END of assembler statement but was %s", t)
+		}
 	}
 
 	log.Printf("ParseAssemblerStatement done")
-- 
2.43.0


From f6e9b51ef9f11d0a391c7fdd5168f8d82bc78bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 06/59] fix: return an error instead of a panic when the
 program file cannot be opened

---
 parser/program.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/program.go b/parser/program.go
index 69d04e0..276f9b7 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -20,7 +20,7 @@ type Program struct {
 func ParseProgram(path string) (*Program, error) {
 	fp, err := os.Open(path)
 	if err != nil {
-		panic(err)
+		return nil, errors.Wrapf(err, "failed to open file: %q", path)
 	}
 	defer fp.Close()
 
-- 
2.43.0


From 055b74c7d2468ef9211f1888e4e73629cb89e846 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:15 +0000
Subject: [PATCH 07/59] fix: report a unit heading which is not closed by a
 semicolon

---
 parser/unit_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 7b773f4..bd8c5bb 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -106,7 +106,7 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 		res.PortabilityDirective = &s
 		t = p.NextToken()
 	}
-	if !t.Is(token.Symbol(';')) {
+	if _, err := p.Current(token.Symbol(';')); err != nil {
 		return nil, err
 	}
 	p.NextToken()
-- 
2.43.0


From 5ae10f999fc85eae8c98d6ef1faa60cfce06360f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:16 +0000
Subject: [PATCH 08/59] fix: accept a number where a number factor is required

---
 parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index 5508ec3..c8390ea 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -258,7 +258,7 @@ func (p *Parser) ParseStringFactor(t *token.Token, skipTypeCheck bool) (*ast.Str
 }
 
 func (p *Parser) ParseNumberFactor(t *token.Token, skipTypeCheck bool) (*ast.NumberFactor, error) {
-	if skipTypeCheck || t.Is(token.CharacterString) {
+	if skipTypeCheck || t.Is(token.Some(token.NumeralInt, token.NumeralReal)) {
 		p.NextToken()
 		return &ast.NumberFactor{Value: t.Value()}, nil
 	} else {
-- 
2.43.0


From 4d6ce76507cd57afb5d054436f7329301584bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:18 +0000
Subject: [PATCH 09/59] fix: read over NODEFAULT and IMPLEMENTS in a property
 declaration

---
 parser/type_class.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index aba690f..893267d 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -473,6 +473,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 		p.Logf("Parser.ParseClassProperty #18")
 		v := true
 		res.Default = &ast.PropertyDefaultSpecifier{NoDefault: &v}
+		p.NextToken()
 	}
 
 	p.Logf("Parser.ParseClassProperty #19")
@@ -480,6 +481,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 	//   [IMPLEMENTS TypeId]
 	if strings.ToUpper(p.CurrentToken().Value()) == "IMPLEMENTS" {
 		p.Logf("Parser.ParseClassProperty #20")
+		p.NextToken()
 		typeId, err := p.ParseTypeId()
 		if err != nil {
 			p.Logf("Parser.ParseClassProperty #21")
-- 
2.43.0


From 4df5782360aead884da36ab3700eb3aecb583103 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:19 +0000
Subject: [PATCH 10/59] fix: do not detach the parser from its scopes when it
 looks ahead

---
 parser/base.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 2cdaa48..4183c75 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -29,11 +29,9 @@ func (p *Parser) SetText(text *[]rune) {
 func (p *Parser) RollbackPoint() func() {
 	tokenizer := p.tokenizer.Clone()
 	curr := p.curr.Clone()
-	ctx := p.context.Clone()
 	return func() {
 		p.tokenizer = tokenizer
 		p.curr = curr
-		p.context = ctx
 	}
 }
 
-- 
2.43.0


From 2998927e5a42651fbe7aca80d45d7a008876216b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:16:44 +0000
Subject: [PATCH 11/59] fix: every type reads over its own last token

---
 parser/type.go       | 6 ++----
 parser/type_class.go | 3 +++
 parser/type_struc.go | 1 +
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index cfd8241..40c80dd 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -92,10 +92,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 
 	{
 		t := p.CurrentToken()
-		if t.Is(token.Symbol(';')) {
-			return res, nil
-		}
-		if t := p.NextToken(); t.Is(token.PortabilityDirective) {
+		if t.Is(token.PortabilityDirective) {
 			portabilityDirective := ast.PortabilityDirective(t.Value())
 			res.PortabilityDirective = &portabilityDirective
 			p.NextToken()
@@ -169,6 +166,7 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if err != nil {
 		return nil, err
 	}
+	p.NextToken()
 	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
 }
 
diff --git a/parser/type_class.go b/parser/type_class.go
index 893267d..a42d3a6 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -34,6 +34,7 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 		if typeId == nil {
 			typeId = ast.NewTypeId(ast.NewIdent(t))
 		}
+		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
@@ -50,12 +51,14 @@ func (p *Parser) ParseClassType() (ast.ClassType, error) {
 		res.Heritage = heritage
 	}
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+		p.NextToken()
 		return res, nil
 	}
 	if !p.CurrentToken().Is(token.Symbol(';')) {
 		if _, err := p.ParseClassMemberSections(res); err != nil {
 			return nil, err
 		}
+		p.NextToken()
 	}
 	return res, nil
 }
diff --git a/parser/type_struc.go b/parser/type_struc.go
index 45af2d1..b2c9df4 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -142,6 +142,7 @@ func (p *Parser) ParseRecType() (*ast.RecType, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("END")); err != nil {
 		return nil, err
 	}
+	p.NextToken()
 
 	return r, nil
 }
-- 
2.43.0


From 49ca7bf94e046613fcfd1f13ad0e241e71951935 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:20:40 +0000
Subject: [PATCH 12/59] fix: declare procedures and functions in the scope
 which surrounds them

---
 parser/function.go         | 33 +++++++++++++++++++++++++++++++--
 parser/function_heading.go |  6 +++---
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c18c160..ea68deb 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
 )
 
@@ -9,9 +10,10 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 	var functionHeading *ast.FunctionHeading
 	switch p.CurrentToken().Value() {
 	case "PROCEDURE", "FUNCTION":
-		defer p.context.StackDeclMap()()
+		unstack := p.context.StackDeclMap()
 		var err error
 		functionHeading, err = p.ParseFunctionHeading()
+		unstack()
 		if err != nil {
 			return nil, err
 		}
@@ -22,9 +24,15 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		return nil, err
 	}
 	res := &ast.FunctionDecl{FunctionHeading: functionHeading}
-	if err := p.context.Set(res); err != nil {
+	if err := p.declareFunction(res); err != nil {
 		return nil, err
 	}
+	defer p.context.StackDeclMap()()
+	for _, formalParm := range functionHeading.FormalParameters {
+		if err := p.context.Set(formalParm); err != nil {
+			return nil, err
+		}
+	}
 
 	p.NextToken()
 	if p.CurrentToken().Is(token.Directive) {
@@ -43,3 +51,24 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 	res.Block = block
 	return res, nil
 }
+
+// declareFunction declares the name of a function in the scope which surrounds it.
+// The name may be declared there already as a function by FORWARD or OVERLOAD.
+func (p *Parser) declareFunction(decl astcore.DeclNode) error {
+	err := p.context.Set(decl)
+	if err == nil {
+		return nil
+	}
+	for _, d := range decl.ToDeclarations() {
+		old := p.context.Get(d.Ident.Name)
+		if old == nil {
+			return err
+		}
+		switch old.Node.(type) {
+		case *ast.FunctionDecl, *ast.ExportedHeading:
+		default:
+			return err
+		}
+	}
+	return nil
+}
diff --git a/parser/function_heading.go b/parser/function_heading.go
index df19a01..6df4773 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -10,13 +10,13 @@ import (
 )
 
 func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
-	defer p.context.StackDeclMap()()
-
 	var functionHeading *ast.FunctionHeading
 	switch p.CurrentToken().Value() {
 	case "PROCEDURE", "FUNCTION":
+		unstack := p.context.StackDeclMap()
 		var err error
 		functionHeading, err = p.ParseFunctionHeading()
+		unstack()
 		if err != nil {
 			return nil, err
 		}
@@ -25,7 +25,7 @@ func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
 		return nil, err
 	}
 	r := &ast.ExportedHeading{FunctionHeading: functionHeading}
-	if err := p.context.Set(r); err != nil {
+	if err := p.declareFunction(r); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 7415138ba52d7530d23a6fd9f9805044efe6f011 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:21:22 +0000
Subject: [PATCH 13/59] fix: limit the variable of an exception handler to that
 handler

---
 parser/statement_try.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index cb8abde..2f65df6 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -148,6 +148,8 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 		return nil, err
 	}
 	decl.Type = typ
+
+	defer p.context.StackDeclMap()()
 	if decl.Ident != nil {
 		if err := p.context.Set(decl); err != nil {
 			return nil, err
-- 
2.43.0


From a62f77392231478b0309cb3206488d5d1e52b275 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 14/59] fix: keep the exports before and after the body of a
 block apart

---
 parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/block.go b/parser/block.go
index 0f5fef7..801aa24 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -37,7 +37,7 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
 		return nil, err
 	} else if exportStmts != nil {
-		res.ExportsStmts1 = exportStmts
+		res.ExportsStmts2 = exportStmts
 	}
 
 	return res, nil
-- 
2.43.0


From 52d74275b70da38346bc65d2fc8ed03e0b8b751b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:21:25 +0000
Subject: [PATCH 15/59] fix: accept the AS operator

---
 parser/expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/expression.go b/parser/expression.go
index c8390ea..d8c8415 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -140,6 +140,7 @@ var MulOpPredicator = token.Some(
 	token.ReservedWord.HasKeyword("AND"),
 	token.ReservedWord.HasKeyword("SHL"),
 	token.ReservedWord.HasKeyword("SHR"),
+	token.ReservedWord.HasKeyword("AS"),
 )
 
 func (p *Parser) ParseFactor() (ast.Factor, error) {
-- 
2.43.0


From 175a1758c2ea76baeaaec4c58c89abd9aed36bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:21:27 +0000
Subject: [PATCH 16/59] fix: accept a call with an empty argument list

---
 parser/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index d8c8415..e09f47a 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -7,6 +7,9 @@ import (
 
 func (p *Parser) ParseExprList(terminator token.Predicator) (ast.ExprList, error) {
 	res := ast.ExprList{}
+	if p.CurrentToken().Is(terminator) {
+		return res, nil
+	}
 	for {
 		expr, err := p.ParseExpression()
 		if err != nil {
@@ -297,6 +300,9 @@ func (p *Parser) ParseDesignator() (*ast.Designator, error) {
 			if err != nil {
 				return nil, err
 			}
+			if len(exprList) == 0 {
+				return nil, p.TokenErrorf("unexpected token %s", p.CurrentToken())
+			}
 			item = ast.DesignatorItemExprList(exprList)
 		case "^":
 			item = &ast.DesignatorItemDereference{}
-- 
2.43.0


From a11dedb7780643032bdb00ac3f5d025af0920bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:21:29 +0000
Subject: [PATCH 17/59] fix: accept an empty set constructor

---
 parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index e09f47a..43573c5 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -322,6 +322,9 @@ func (p *Parser) ParseSetConstructor() (*ast.SetConstructor, error) {
 	}
 	p.NextToken()
 	res := &ast.SetConstructor{}
+	if p.CurrentToken().Is(token.Symbol(']')) {
+		return res, nil
+	}
 	if err := p.Until(token.Symbol(']'), token.Symbol(','), func() error {
 		element, err := p.ParseSetElement()
 		if err != nil {
-- 
2.43.0


From 20ecf7d1211df03ed6055db54a085062adb61024 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:21:30 +0000
Subject: [PATCH 18/59] fix: accept empty parentheses in a procedure or
 function heading

---
 parser/function_heading.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index 6df4773..99db65a 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -166,6 +166,9 @@ func (p *Parser) ParseFormalParameters(startRune, endRune rune) (ast.FormalParam
 	p.NextToken()
 	r := ast.FormalParameters{}
 	if err := p.Until(token.Symbol(endRune), token.Symbol(';'), func() error {
+		if len(r) == 0 && startRune == '(' && p.CurrentToken().Is(token.Symbol(endRune)) {
+			return QuitUntil
+		}
 		formalParm, err := p.ParseFormalParm(endRune)
 		if err != nil {
 			return err
-- 
2.43.0


From d674c79ccffe2f8ac84baafb72e990b0ccd5832f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:22:55 +0000
Subject: [PATCH 19/59] fix: accept empty statements in a statement list

---
 parser/statement.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/statement.go b/parser/statement.go
index 9358f9f..9233a37 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -33,6 +33,13 @@ func (p *Parser) ParseCompoundStmt(required bool) (*ast.CompoundStmt, error) {
 func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error) {
 	res := ast.StmtList{}
 	for {
+		// Empty statements
+		for p.CurrentToken().Is(token.Symbol(';')) {
+			p.NextToken()
+		}
+		if p.CurrentToken().Is(terminator) {
+			break
+		}
 		statement, err := p.ParseStatement()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From aa1d68cf2b780aabc293987a927ee8302ac63a8d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:22:57 +0000
Subject: [PATCH 20/59] fix: accept a subtraction of a number without spaces

---
 parser/expression.go | 13 ++++++++++++-
 token/numeral.go     | 15 +++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index 43573c5..8fae9d5 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -80,7 +80,18 @@ func (p *Parser) ParseSimpleExpression() (*ast.SimpleExpression, error) {
 	res.Term = tm
 
 	for {
-		if p.CurrentToken().Is(AddOpPredicator) {
+		if minus, number := p.CurrentToken().SplitMinus(); minus != nil {
+			// The tokenizer takes the minus of "a -1" for a sign
+			p.curr = number
+			tm, err := p.ParseTerm()
+			if err != nil {
+				return nil, err
+			}
+			res.AddOpTerms = append(
+				res.AddOpTerms,
+				&ast.AddOpTerm{AddOp: minus.Value(), Term: tm},
+			)
+		} else if p.CurrentToken().Is(AddOpPredicator) {
 			op := p.CurrentToken().Value()
 			p.NextToken()
 			tm, err := p.ParseTerm()
diff --git a/token/numeral.go b/token/numeral.go
index d2c0e0b..f5b37fa 100644
--- a/token/numeral.go
+++ b/token/numeral.go
@@ -31,3 +31,18 @@ func ProcessNumeral(c *runes.Cursor) *Token {
 	}
 	return nil
 }
+
+// SplitMinus splits a signed numeral into its minus and its unsigned numeral.
+// It returns nils for the other tokens.
+func (t *Token) SplitMinus() (*Token, *Token) {
+	if t.Type != NumeralInt && t.Type != NumeralReal {
+		return nil, nil
+	}
+	if !runes.IsUnaryOp((*t.text)[t.Start.Index]) {
+		return nil, nil
+	}
+	mid := t.Start.Clone()
+	mid.Index++
+	mid.Col++
+	return NewToken(SpecialSymbol, t.text, t.Start, mid), NewToken(t.Type, t.text, mid, t.End)
+}
-- 
2.43.0


From 096708b47c79116cc681360da1c13dc97f7d5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:22:59 +0000
Subject: [PATCH 21/59] fix: accept a class which begins with a method or a
 property

---
 parser/type_class.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index a42d3a6..9bb435d 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -107,25 +107,21 @@ func (p *Parser) ParseClassMemberSection(classType *ast.CustomClassType) (*ast.C
 	res := &ast.ClassMemberSection{}
 	classType.Members = append(classType.Members, res)
 
-	if t0, err := p.Current(token.Identifier); err != nil {
-		return nil, err
-	} else {
-		switch strings.ToUpper(t0.Value()) {
-		case "PRIVATE":
-			res.Visibility = ast.CvPrivate
-			p.NextToken()
-		case "PROTECTED":
-			res.Visibility = ast.CvProtected
-			p.NextToken()
-		case "PUBLIC":
-			res.Visibility = ast.CvPublic
-			p.NextToken()
-		case "PUBLISHED":
-			res.Visibility = ast.CvPublished
-			p.NextToken()
-		default:
-			res.Visibility = ast.CvDefault
-		}
+	switch strings.ToUpper(p.CurrentToken().Value()) {
+	case "PRIVATE":
+		res.Visibility = ast.CvPrivate
+		p.NextToken()
+	case "PROTECTED":
+		res.Visibility = ast.CvProtected
+		p.NextToken()
+	case "PUBLIC":
+		res.Visibility = ast.CvPublic
+		p.NextToken()
+	case "PUBLISHED":
+		res.Visibility = ast.CvPublished
+		p.NextToken()
+	default:
+		res.Visibility = ast.CvDefault
 	}
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
 		return res, nil
-- 
2.43.0


From 4c6c21078b9e469daff18154b24d67f0a8c57168 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 22/59] fix: accept a type which hides a declaration of an
 outer scope

---
 parser/type.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 40c80dd..b86e0cc 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -69,7 +69,12 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		return nil, err
 	}
 	res.Type = typ
-	if old := p.context.Get(res.Ident.Name); old != nil {
+	// Only a declaration in the same scope can be a forward declaration of this type
+	if err := p.context.Set(res); err != nil {
+		old := p.context.Get(res.Ident.Name)
+		if old == nil {
+			return nil, err
+		}
 		typeDecl, ok := old.Node.(*ast.TypeDecl)
 		if !ok {
 			return nil, errors.Errorf("expects type declaration but was %T", old.Node)
@@ -84,10 +89,6 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		for _, decl := range res.ToDeclarations() {
 			p.context.Overwrite(res.Ident.Name, decl)
 		}
-	} else {
-		if err := p.context.Set(res); err != nil {
-			return nil, err
-		}
 	}
 
 	{
-- 
2.43.0


From 4de1f1f060be67cef714e93e98434dcba9a92ecf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:02 +0000
Subject: [PATCH 23/59] fix: report a reserved word which is not a type

---
 parser/type_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_string.go b/parser/type_string.go
index 8b3d139..b671522 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -23,7 +23,7 @@ func (p *Parser) ParseStringOfStringType() (ast.StringType, error) {
 	t1 := p.CurrentToken()
 	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t1.Value())
 	if decl == nil {
-		return nil, nil
+		return nil, p.TokenErrorf("Unsupported Type token %s", t1)
 	}
 	t2 := p.NextToken()
 	if t2.Is(token.Symbol('[')) {
-- 
2.43.0


From ff327c8b0358e301637c0014b2bcfebdcc2c7673 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:03 +0000
Subject: [PATCH 24/59] fix: accept a variant part inside of a record variant

---
 parser/type_struc.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index b2c9df4..718d1ef 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -167,7 +167,7 @@ func (p *Parser) ParseFieldList(terminator token.Predicator) (*ast.FieldList, er
 	r.FieldDecls = fieldDecls
 
 	if p.CurrentToken().Is(casePred) {
-		variantSection, err := p.ParseVariantSection()
+		variantSection, err := p.ParseVariantSection(terminator)
 		if err != nil {
 			return nil, err
 		}
@@ -200,7 +200,7 @@ func (p *Parser) ParseFieldDecl(terminator token.Predicator) (*ast.FieldDecl, er
 	return r, nil
 }
 
-func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
+func (p *Parser) ParseVariantSection(terminator token.Predicator) (*ast.VariantSection, error) {
 	log.Printf("ParseVariantSection")
 	if _, err := p.Current(token.ReservedWord.HasKeyword("CASE")); err != nil {
 		return nil, p.TokenErrorf("Expected CASE, got %s", p.CurrentToken())
@@ -233,9 +233,8 @@ func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
 	p.NextToken()
 
 	recVariants := ast.RecVariants{}
-	endPred := token.ReservedWord.HasKeyword("END")
-	if err := p.Until(endPred, token.Symbol(';'), func() error {
-		if p.CurrentToken().Is(endPred) {
+	if err := p.Until(terminator, token.Symbol(';'), func() error {
+		if p.CurrentToken().Is(terminator) {
 			return QuitUntil
 		}
 		recVariant, err := p.ParseRecVariant()
-- 
2.43.0


From c0992d138690a94ad27ffa5df30daa7bbb70d647 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:05 +0000
Subject: [PATCH 25/59] fix: accept a bare RAISE at the end of a statement list

---
 parser/statement_raise.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/statement_raise.go b/parser/statement_raise.go
index 5d37abf..4ab5d88 100644
--- a/parser/statement_raise.go
+++ b/parser/statement_raise.go
@@ -5,6 +5,16 @@ import (
 	"github.com/akm/tparser/token"
 )
 
+var raiseStmtTerminator = token.Some(
+	token.Symbol(';'),
+	token.ReservedWord.HasKeyword("END"),
+	token.ReservedWord.HasKeyword("ELSE"),
+	token.ReservedWord.HasKeyword("UNTIL"),
+	token.ReservedWord.HasKeyword("EXCEPT"),
+	token.ReservedWord.HasKeyword("FINALLY"),
+	token.ReservedWord.HasKeyword("FINALIZATION"),
+)
+
 func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("RAISE")); err != nil {
 		return nil, err
@@ -13,7 +23,7 @@ func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
 
 	res := &ast.RaiseStmt{}
 
-	if p.CurrentToken().Is(token.Symbol(';')) {
+	if p.CurrentToken().Is(raiseStmtTerminator) {
 		return res, nil
 	}
 
-- 
2.43.0


From 651f29c9e4e29ce252089c4b548abbdc329c30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:06 +0000
Subject: [PATCH 26/59] fix: do not require a semicolon after the last case
 selector

---
 parser/statement_conditional.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/statement_conditional.go b/parser/statement_conditional.go
index f9916ff..24f2f6b 100644
--- a/parser/statement_conditional.go
+++ b/parser/statement_conditional.go
@@ -84,6 +84,12 @@ func (p *Parser) ParseCaseSelectors() (ast.CaseSelectors, error) {
 			return nil, err
 		}
 		r = append(r, selector)
+		if p.CurrentToken().Is(token.Some(
+			token.ReservedWord.HasKeyword("ELSE"),
+			token.ReservedWord.HasKeyword("END"),
+		)) {
+			break
+		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 47ce310d0b5f8990d397b746556ebe731d430f55 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:08 +0000
Subject: [PATCH 27/59] fix: accept both NAME and INDEX for an exported routine

---
 parser/block.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/parser/block.go b/parser/block.go
index 801aa24..c354fd8 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -132,21 +132,25 @@ func (p *Parser) ParseExportsStmt(required bool) (*ast.ExportsStmt, error) {
 			return err
 		}
 		item := &ast.ExportsItem{Ident: p.NewIdent(t)}
-		t2 := p.NextToken()
-		if t2.Is(token.Directives("NAME")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
-			}
-			item.Name = constExpr
-		} else if t2.Is(token.Directives("INDEX")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
+		p.NextToken()
+		for {
+			if item.Name == nil && p.CurrentToken().Is(token.Directives("NAME")) {
+				p.NextToken()
+				constExpr, err := p.ParseConstExpr()
+				if err != nil {
+					return err
+				}
+				item.Name = constExpr
+			} else if item.Index == nil && p.CurrentToken().Is(token.Directives("INDEX")) {
+				p.NextToken()
+				constExpr, err := p.ParseConstExpr()
+				if err != nil {
+					return err
+				}
+				item.Index = constExpr
+			} else {
+				break
 			}
-			item.Index = constExpr
 		}
 		items = append(items, item)
 		return nil
-- 
2.43.0


From a54da3867cc0a10df5fc072ce5c310517953e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:27 +0000
Subject: [PATCH 28/59] fix: visit the tag of a variant part before its type

---
 ast/type_struc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 6b8ef86..f9dc2d3 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -157,10 +157,11 @@ type VariantSection struct {
 var _ Node = (*VariantSection)(nil)
 
 func (m *VariantSection) Children() Nodes {
-	r := Nodes{m.TypeId}
+	r := Nodes{}
 	if m.Ident != nil {
 		r = append(r, m.Ident)
 	}
+	r = append(r, m.TypeId)
 	if m.RecVariants != nil {
 		r = append(r, m.RecVariants)
 	}
-- 
2.43.0


From 0c403a875e08c3bc526cff65e7c6ec50f591e18d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:29 +0000
Subject: [PATCH 29/59] fix: make enumerated values and forward declared
 classes of a unit visible to its users

---
 parser/unit_parser.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index bd8c5bb..eed393a 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -162,7 +162,20 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 	for _, decl := range p.Unit.InterfaceSection.InterfaceDecls {
 		declNodes := decl.GetDeclNodes()
 		for _, declNode := range declNodes {
-			declMap.Set(declNode)
+			for _, d := range declNode.ToDeclarations() {
+				if old := declMap.Get(d.Name); old != nil && !isForwardDeclaration(old) {
+					continue
+				}
+				declMap.Overwrite(d.Name, d)
+			}
+		}
+		if err := astcore.WalkDown(decl, func(n ast.Node) error {
+			if element, ok := n.(*ast.EnumeratedTypeElement); ok {
+				return declMap.Set(element)
+			}
+			return nil
+		}); err != nil {
+			return err
 		}
 	}
 	p.Unit.DeclMap = declMap
@@ -170,6 +183,15 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 	return nil
 }
 
+func isForwardDeclaration(decl *astcore.Decl) bool {
+	typeDecl, ok := decl.Node.(*ast.TypeDecl)
+	if !ok {
+		return false
+	}
+	_, ok = typeDecl.Type.(ast.ForwardDeclaration)
+	return ok
+}
+
 func (m *UnitParser) ProcessImplAndInit() error {
 	if err := m.ParseImplUses(); err != nil {
 		return err
-- 
2.43.0


From bbfb9ee4e626f1fe9eeac772a95444f21cff9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:51 +0000
Subject: [PATCH 30/59] fix: do not panic on a qualified reference to the unit
 itself in its interface section

---
 parser/pcontext/unit_context.go | 4 +++-
 parser/unit_parser.go           | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/pcontext/unit_context.go b/parser/pcontext/unit_context.go
index 3e36f64..3d09b69 100644
--- a/parser/pcontext/unit_context.go
+++ b/parser/pcontext/unit_context.go
@@ -45,7 +45,8 @@ func (c *UnitContext) Clone() Context {
 	}
 }
 
-func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) {
+// ImportUnitDecls returns the DeclMap which takes the declarations of the unit itself.
+func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) astcore.DeclMap {
 	c.AssignUnits(usesClause)
 	units := usesClause.Units().Compact()
 	// NewCompositeDeclMap は 先頭から最後に向かって検索するので、mapsにはその順序でDeclMapを追加する
@@ -54,6 +55,7 @@ func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) {
 	maps = append(maps, units.DeclMaps().Reverse()...)
 	maps = append(maps, c.DeclMap)
 	c.DeclMap = astcore.NewCompositeDeclMap(maps...)
+	return localMap
 }
 
 func (c *UnitContext) AssignUnits(usesClause ast.UsesClause) {
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index eed393a..d722913 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -141,7 +141,8 @@ func (p *UnitParser) ParseInterfaceSectionUses() (*ast.InterfaceSection, error)
 
 func (m *UnitParser) ProcessIntfBody() error {
 	// Import decls after resovling unit load order and parsing units which this unit uses.
-	m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
+	// The unit can be referred by its name while its interface section is parsed.
+	m.Unit.DeclMap = m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
 
 	if err := m.context.Set(m.Unit); err != nil {
 		return err
-- 
2.43.0


From 17a5667ba9b019521eaeb5bcc8988313407e390a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 31/59] fix: resolve types which are qualified by a unit or a
 program

---
 parser/type.go |  8 ++++++--
 parser/unit.go | 22 ++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index b86e0cc..0815806 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -156,7 +156,7 @@ func (p *Parser) ParseTypeId() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
-	if !p.IsUnitIdentifier(p.CurrentToken()) {
+	if !p.IsNamespaceIdentifier(p.CurrentToken()) && !p.IsUnitIdentifier(p.CurrentToken()) {
 		return nil, nil
 	}
 	unitId := ast.NewUnitId(p.CurrentToken())
@@ -168,7 +168,11 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 		return nil, err
 	}
 	p.NextToken()
-	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
+	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
+	if namespace := p.findNamespace(unitId.Name); namespace != nil {
+		r.Ref = namespace.GetDeclMap().Get(r.Ident.Name)
+	}
+	return r, nil
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
diff --git a/parser/unit.go b/parser/unit.go
index 0e27f44..291451a 100644
--- a/parser/unit.go
+++ b/parser/unit.go
@@ -27,6 +27,28 @@ func (p *Parser) IsNamespaceIdentifier(t *token.Token) bool {
 	return ok
 }
 
+// findNamespace returns the unit or the program which name refers to.
+// It returns nil if its declarations are not available.
+func (p *Parser) findNamespace(name string) ast.Namespace {
+	decl := p.context.Get(name)
+	if decl == nil {
+		return nil
+	}
+	switch node := decl.Node.(type) {
+	case *ast.UsesClauseItem:
+		if node.Unit == nil || node.Unit.GetDeclMap() == nil {
+			return nil
+		}
+		return node.Unit
+	case ast.Namespace:
+		if node.GetDeclMap() == nil {
+			return nil
+		}
+		return node
+	}
+	return nil
+}
+
 func (p *Parser) ParseQualIds() (ast.QualIds, error) {
 	res := ast.QualIds{}
 	separator := token.Symbol(',')
-- 
2.43.0


From 515ae6be1744b179295dace94cf0977f505a6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:27:08 +0000
Subject: [PATCH 32/59] fix: do not close a comment by the star which opens it

---
 token/comment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token/comment.go b/token/comment.go
index 70b3293..4dd1955 100644
--- a/token/comment.go
+++ b/token/comment.go
@@ -30,6 +30,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 	case '(':
 		if c.Seek(1) == '*' {
 			start := c.Position.Clone()
+			c.Next() // The star of the opening doesn't belong to the closing
 			for {
 				r := c.Next()
 				if r == '*' && c.Seek(1) == ')' {
-- 
2.43.0


From 077e124e688de785cc5524242e95117c26e95ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:27:11 +0000
Subject: [PATCH 33/59] fix: do not take set types and file types for their
 base types

---
 ast/type_struc.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index f9dc2d3..5175b5f 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -53,6 +53,11 @@ var _ StrucType = (*SetType)(nil)
 func (*SetType) isType()          {}
 func (*SetType) isStrucType()     {}
 func (m *SetType) IsPacked() bool { return m.Packed }
+
+// The followings hide the methods of the embedded base type
+func (*SetType) IsSimpleType() bool  { return false }
+func (*SetType) IsOrdinalType() bool { return false }
+
 func (m *SetType) Children() Nodes {
 	return Nodes{m.OrdinalType}
 }
@@ -71,6 +76,16 @@ var _ StrucType = (*FileType)(nil)
 func (*FileType) isType()          {}
 func (*FileType) isStrucType()     {}
 func (m *FileType) IsPacked() bool { return m.Packed }
+
+// The followings hide the methods of the embedded base type
+func (*FileType) IsSimpleType() bool  { return false }
+func (*FileType) IsRealType() bool    { return false }
+func (*FileType) IsOrdinalType() bool { return false }
+func (*FileType) IsOrdIdent() bool    { return false }
+func (*FileType) IsStringType() bool  { return false }
+func (*FileType) IsPointerType() bool { return false }
+func (*FileType) IsVariantType() bool { return false }
+
 func (m *FileType) Children() Nodes {
 	return Nodes{m.TypeId}
 }
-- 
2.43.0


From 2006db56b4bee424544550494ae8468f0d8006f4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:27:13 +0000
Subject: [PATCH 34/59] fix: terminate on types which are declared by each
 other

---
 ast/type_id.go | 61 +++++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/ast/type_id.go b/ast/type_id.go
index c29bfa0..a9f16a1 100644
--- a/ast/type_id.go
+++ b/ast/type_id.go
@@ -69,13 +69,28 @@ func (m *TypeId) getRefNodeDecl() *TypeDecl {
 	return decl
 }
 
+// actualType follows the references to other types by their names.
+// It returns nil if the type is not found.
+func (m *TypeId) actualType() Type {
+	visited := map[*TypeId]bool{}
+	for typeId := m; !visited[typeId]; {
+		visited[typeId] = true
+		decl := typeId.getRefNodeDecl()
+		if decl == nil {
+			return nil
+		}
+		next, ok := decl.Type.(*TypeId)
+		if !ok {
+			return decl.Type
+		}
+		typeId = next
+	}
+	return nil
+}
+
 func (*TypeId) isType() {}
 func (m *TypeId) IsSimpleType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	simpleType, ok := decl.Type.(SimpleType)
+	simpleType, ok := m.actualType().(SimpleType)
 	if !ok {
 		return false
 	}
@@ -83,11 +98,7 @@ func (m *TypeId) IsSimpleType() bool {
 }
 
 func (m *TypeId) IsOrdinalType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordinalType, ok := decl.Type.(OrdinalType)
+	ordinalType, ok := m.actualType().(OrdinalType)
 	if !ok {
 		return false
 	}
@@ -95,11 +106,7 @@ func (m *TypeId) IsOrdinalType() bool {
 }
 
 func (m *TypeId) IsRealType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordinalType, ok := decl.Type.(RealType)
+	ordinalType, ok := m.actualType().(RealType)
 	if !ok {
 		return false
 	}
@@ -107,11 +114,7 @@ func (m *TypeId) IsRealType() bool {
 }
 
 func (m *TypeId) IsOrdIdent() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(OrdIdent)
+	ordIdent, ok := m.actualType().(OrdIdent)
 	if !ok {
 		return false
 	}
@@ -119,11 +122,7 @@ func (m *TypeId) IsOrdIdent() bool {
 }
 
 func (m *TypeId) IsStringType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(StringType)
+	ordIdent, ok := m.actualType().(StringType)
 	if !ok {
 		return false
 	}
@@ -131,11 +130,7 @@ func (m *TypeId) IsStringType() bool {
 }
 
 func (m *TypeId) IsPointerType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(PointerType)
+	ordIdent, ok := m.actualType().(PointerType)
 	if !ok {
 		return false
 	}
@@ -143,11 +138,7 @@ func (m *TypeId) IsPointerType() bool {
 }
 
 func (m *TypeId) IsVariantType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(VariantType)
+	ordIdent, ok := m.actualType().(VariantType)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From fa365a61c246125727138d846a7796e1eeaeab7e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:27:15 +0000
Subject: [PATCH 35/59] fix: terminate on classes which inherit from each other

---
 ast/type_class.go | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 4f72126..6920fc1 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -84,9 +84,33 @@ func (m *CustomClassType) GetParentClass() *CustomClassType {
 	return nil
 }
 
+// ancestors returns the parent class, its parent class and so on.
+// It doesn't return any class twice even if classes inherit from each other by mistake.
+func (m *CustomClassType) ancestors() []*CustomClassType {
+	r := []*CustomClassType{}
+	visited := map[*CustomClassType]bool{m: true}
+	for c := m.GetParentClass(); c != nil && !visited[c]; c = c.GetParentClass() {
+		visited[c] = true
+		r = append(r, c)
+	}
+	return r
+}
+
 func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	defer log.TraceMethod("CustomClassType.FindMemberDecl: " + name)()
 
+	if r := m.findOwnMemberDecl(name, includePrivate); r != nil {
+		return r
+	}
+	for _, ancestor := range m.ancestors() {
+		if r := ancestor.findOwnMemberDecl(name, false); r != nil {
+			return r
+		}
+	}
+	return nil
+}
+
+func (m *CustomClassType) findOwnMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	kw := strings.ToLower(name)
 	for _, mb := range m.Members {
 		if !includePrivate && (mb.Visibility == CvPrivate) {
@@ -114,14 +138,24 @@ func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astc
 			}
 		}
 	}
+	return nil
+}
 
-	if parentClass := m.GetParentClass(); parentClass != nil {
-		return parentClass.FindMemberDecl(name, false)
+func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+	if r := m.findOwnProperty(name); r != nil {
+		return r
+	}
+	if acendant {
+		for _, ancestor := range m.ancestors() {
+			if r := ancestor.findOwnProperty(name); r != nil {
+				return r
+			}
+		}
 	}
 	return nil
 }
 
-func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+func (m *CustomClassType) findOwnProperty(name string) *ClassProperty {
 	kw := strings.ToLower(name)
 	for _, mm := range m.Members {
 		if mm.ClassPropertyList != nil {
@@ -132,11 +166,6 @@ func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassPropert
 			}
 		}
 	}
-	if acendant {
-		if parentClass := m.GetParentClass(); parentClass != nil {
-			return parentClass.FindProperty(name, true)
-		}
-	}
 	return nil
 }
 
-- 
2.43.0


From 8ac59580200ebca8fb8a3ccf57b8695e3d5ff36b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:27:18 +0000
Subject: [PATCH 36/59] fix: find the parent class which is referred by another
 name

---
 ast/type_class.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 6920fc1..77e3faa 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -73,12 +73,8 @@ func (m *CustomClassType) Children() Nodes {
 func (m *CustomClassType) GetParentClass() *CustomClassType {
 	if m.Heritage != nil && len(m.Heritage) > 0 {
 		parent := m.Heritage[0]
-		if parent.Ref != nil {
-			if typeDecl, ok := parent.Ref.Node.(*TypeDecl); ok {
-				if parentClass, ok := typeDecl.Type.(*CustomClassType); ok {
-					return parentClass
-				}
-			}
+		if parentClass, ok := parent.actualType().(*CustomClassType); ok {
+			return parentClass
 		}
 	}
 	return nil
-- 
2.43.0


From 0b2ac648fa2ed7b35cbc7b6dfe1679ab9bfb4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:27:20 +0000
Subject: [PATCH 37/59] fix: refer to the type which hides an embedded type

---
 parser/type.go         | 13 +++++++++++++
 parser/type_simple.go  |  4 ++--
 parser/type_string.go  |  2 +-
 parser/type_variant.go |  2 +-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 0815806..55b1323 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
 	"github.com/pkg/errors"
 )
@@ -207,3 +208,15 @@ func (p *Parser) ParseCustomPointerType() (*ast.CustomPointerType, error) {
 	}
 	return &ast.CustomPointerType{TypeId: typ}, nil
 }
+
+// embeddedTypeDecl returns nil if the embedded type is hidden by another declaration.
+func (p *Parser) embeddedTypeDecl(kind ast.EmbeddedTypeKind, name string) *astcore.Decl {
+	decl := ast.EmbeddedTypeDecl(kind, name)
+	if decl == nil {
+		return nil
+	}
+	if visible := p.context.Get(name); visible != nil && visible != decl {
+		return nil
+	}
+	return decl
+}
diff --git a/parser/type_simple.go b/parser/type_simple.go
index c235979..a7ac687 100644
--- a/parser/type_simple.go
+++ b/parser/type_simple.go
@@ -8,7 +8,7 @@ import (
 
 func (p *Parser) ParseRealType(required bool) (ast.RealType, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkReal, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkReal, t.Value())
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
@@ -21,7 +21,7 @@ func (p *Parser) ParseRealType(required bool) (ast.RealType, error) {
 
 func (p *Parser) ParseOrdIdent(required bool) (ast.OrdIdent, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkOrdIdent, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkOrdIdent, t.Value())
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
diff --git a/parser/type_string.go b/parser/type_string.go
index b671522..941b5a5 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -7,7 +7,7 @@ import (
 
 func (p *Parser) ParseStringType(required bool) (ast.StringType, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkStringType, t.Value())
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
diff --git a/parser/type_variant.go b/parser/type_variant.go
index 0638ac9..001cf6a 100644
--- a/parser/type_variant.go
+++ b/parser/type_variant.go
@@ -6,7 +6,7 @@ import (
 
 func (p *Parser) ParseVariantType(required bool) (ast.VariantType, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkVariantType, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkVariantType, t.Value())
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
-- 
2.43.0


From 6b932b76f03fae524ff125fcfc2c8673d711d30d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:31:20 +0000
Subject: [PATCH 38/59] fix: let a class reference type refer to a class which
 is declared later or in another unit

---
 parser/type_class.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 9bb435d..8ba536c 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -20,21 +20,13 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 	}
 
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("OF")) {
-		t, err := p.Next(token.Identifier)
-		if err != nil {
+		if _, err := p.Next(token.Identifier); err != nil {
 			return nil, err
 		}
-		var typeId *ast.TypeId
-		decl := p.context.Get(t.Value())
-		if decl != nil {
-			if _, ok := decl.Node.(*ast.TypeDecl); ok {
-				typeId = ast.NewTypeId(ast.NewIdent(t), decl)
-			}
-		}
-		if typeId == nil {
-			typeId = ast.NewTypeId(ast.NewIdent(t))
+		typeId, err := p.ParseTypeId()
+		if err != nil {
+			return nil, err
 		}
-		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
-- 
2.43.0


From 2ff6798f90a56fef4c825ed48c31dee6f8ade346 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:51:48 +0000
Subject: [PATCH 39/59] fix: do not take what follows a FORWARD or EXTERNAL
 routine for its body

---
 ast/function.go    | 10 ++++++++++
 parser/function.go |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/ast/function.go b/ast/function.go
index 5af93c3..5e6bec8 100644
--- a/ast/function.go
+++ b/ast/function.go
@@ -41,6 +41,16 @@ func (*FunctionDecl) isProcedureDeclSection() {}
 func (m *FunctionDecl) Children() Nodes {
 	return Nodes{m.FunctionHeading, m.Block}
 }
+
+// HasNoBody returns true if the routine is declared here but is implemented elsewhere.
+func (m *FunctionDecl) HasNoBody() bool {
+	for _, d := range m.Directives {
+		if d == DrForward || d == DrExternal {
+			return true
+		}
+	}
+	return false
+}
 func (m *FunctionDecl) ToDeclarations() astcore.Decls {
 	return astcore.Decls{astcore.NewDeclaration(m.Ident, m)}
 }
diff --git a/parser/function.go b/parser/function.go
index ea68deb..9d473df 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -44,6 +44,10 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		res.ExternalOptions = opts
 	}
 	// TODO PortabilityDirective
+	if res.HasNoBody() {
+		res.Block = &ast.Block{}
+		return res, nil
+	}
 	block, err := p.ParseBlock()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5110ffb39df4d86f9a0a9aa29deae371e75323d5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:51:50 +0000
Subject: [PATCH 40/59] fix: report a missing semicolon after a type or
 variable declaration

---
 parser/type.go | 7 -------
 parser/var.go  | 7 -------
 2 files changed, 14 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 55b1323..ef86d23 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -27,13 +27,6 @@ func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
 		if err != nil {
 			return nil, err
 		}
-		{
-			t := p.CurrentToken()
-			if t.Is(token.ReservedWord) || t.Is(token.EOF) {
-				res = append(res, decl)
-				break
-			}
-		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
diff --git a/parser/var.go b/parser/var.go
index be57489..29dad8b 100644
--- a/parser/var.go
+++ b/parser/var.go
@@ -23,13 +23,6 @@ func (p *Parser) ParseVarSection(required bool) (ast.VarSection, error) {
 		if err != nil {
 			return nil, err
 		}
-		{
-			t := p.CurrentToken()
-			if t.Is(token.ReservedWord) || t.Is(token.EOF) {
-				res = append(res, decl)
-				break
-			}
-		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b6820a1f98c49f33691b54acca3c2864d6830392 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:51:59 +0000
Subject: [PATCH 41/59] fix: report a missing semicolon after the body of a
 routine

---
 parser/function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index 9d473df..177f7de 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -52,6 +52,10 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 	if err != nil {
 		return nil, err
 	}
+	if _, err := p.Current(token.Symbol(';')); err != nil {
+		return nil, err
+	}
+	p.NextToken()
 	res.Block = block
 	return res, nil
 }
-- 
2.43.0


From b5f3634bf3faa80eb7d9df0d7db336a3c69a244e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:52:10 +0000
Subject: [PATCH 42/59] fix: report a semicolon between declaration sections

---
 parser/block.go       | 3 ---
 parser/unit_parser.go | 4 ----
 2 files changed, 7 deletions(-)

diff --git a/parser/block.go b/parser/block.go
index c354fd8..c32739f 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -53,9 +53,6 @@ func (p *Parser) ParseDeclSections() (ast.DeclSections, error) {
 		} else {
 			break
 		}
-		if p.CurrentToken().Is(token.Symbol(';')) {
-			p.NextToken()
-		}
 	}
 	if len(res) == 0 {
 		return nil, nil
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index d722913..af4bdb5 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -260,10 +260,6 @@ func (p *UnitParser) ParseImplBody() error {
 		p.Unit.ImplementationSection.ExportsStmts = exportsStmt
 	}
 
-	if p.CurrentToken().Is(token.Symbol(';')) {
-		p.NextToken()
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 7ed1196c0025b695d70d78fe2fcc824c8cee84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 43/59] fix: report a block without a body

---
 parser/block.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/block.go b/parser/block.go
index c32739f..89ea76d 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -32,6 +32,8 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 			return nil, err
 		}
 		res.Body = asmStmt
+	default:
+		return nil, p.TokenErrorf("expects BEGIN or ASM but was %s", p.CurrentToken())
 	}
 
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
-- 
2.43.0


From b716cee97178a7b9fd05d8d0b617551d66542b01 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:53:19 +0000
Subject: [PATCH 44/59] fix: report what is not a name where the name of a type
 is required

---
 parser/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/type.go b/parser/type.go
index ef86d23..376ef96 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -170,6 +170,9 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
+	if _, err := p.Current(token.Some(token.Identifier, token.ReservedWord.HasKeyword("STRING"))); err != nil {
+		return nil, err
+	}
 	ident := p.NewIdent(p.CurrentToken())
 	p.NextToken()
 	r := &ast.TypeId{Ident: ident}
-- 
2.43.0


From 4b6625a86adbcfe32a9f604e467cac70f9c115b9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:53:21 +0000
Subject: [PATCH 45/59] fix: report a constructor, destructor or property
 without a name

---
 parser/type_class.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 8ba536c..759de10 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -308,7 +308,10 @@ func (p *Parser) ParseConstructorHeading() (*ast.ConstructorHeading, error) {
 	}
 	res := &ast.ConstructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 
 	p.NextToken()
@@ -330,7 +333,10 @@ func (p *Parser) ParseDestructorHeading() (*ast.DestructorHeading, error) {
 	}
 	res := &ast.DestructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	p.NextToken()
 	return res, nil
@@ -367,7 +373,10 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 
 	p.Logf("Parser.ParseClassProperty #01")
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	defer p.TraceMethod("Parser.ParseClassProperty")()
 
-- 
2.43.0


From 66983cd1ecec6602cd402c4a5f45874861344484 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:53:23 +0000
Subject: [PATCH 46/59] fix: report exception handlers which are not separated
 by a semicolon

---
 parser/statement_try.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index 2f65df6..ceb143a 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -102,9 +102,10 @@ func (p *Parser) ParseExceptionBlockHandlers() (ast.ExceptionBlockHandlers, erro
 		}
 		res = append(res, handler)
 
-		if p.CurrentToken().Is(token.Symbol(';')) {
-			p.NextToken()
+		if !p.CurrentToken().Is(token.Symbol(';')) {
+			break
 		}
+		p.NextToken()
 
 		// ON is NOT a reserved word
 		if !p.CurrentToken().Is(token.UpperCase("ON")) {
-- 
2.43.0


From 4c2c8f2f5a292522e27b3cfc9a0b62e15c1ef889 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:53:24 +0000
Subject: [PATCH 47/59] fix: report a missing semicolon after a method or its
 directive

---
 parser/type_class.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 759de10..4d660eb 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -222,9 +222,6 @@ func (p *Parser) ParseClassMethodList() (ast.ClassMethodList, error) {
 			return err
 		}
 		res = append(res, method)
-		if p.CurrentToken().Is(token.Symbol(';')) {
-			p.NextToken()
-		}
 		return nil
 	}); err != nil {
 		return nil, err
@@ -278,24 +275,24 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 }
 
 func (p *Parser) ClassMethodDirectiveList() (ast.ClassMethodDirectiveList, error) {
-	if p.CurrentToken().Is(token.Symbol(';')) {
-		p.NextToken()
+	if _, err := p.Current(token.Symbol(';')); err != nil {
+		return nil, err
 	}
+	p.NextToken()
 
 	defer p.TraceMethod("Parser.ClassMethodDirectiveList")()
 
 	res := ast.ClassMethodDirectiveList{}
-	if err := p.Until(methodBreak, token.Symbol(';'), func() error {
+	for {
 		w := strings.ToUpper(p.CurrentToken().Value())
-		if ast.ClassMethodDirectives.Include(w) {
-			res = append(res, ast.ClassMethodDirective(w))
-			p.NextToken()
-			return nil
-		} else {
-			return QuitUntil
+		if !ast.ClassMethodDirectives.Include(w) {
+			break
 		}
-	}); err != nil {
-		return nil, err
+		res = append(res, ast.ClassMethodDirective(w))
+		if _, err := p.Next(token.Symbol(';')); err != nil {
+			return nil, err
+		}
+		p.NextToken()
 	}
 	return res, nil
 }
-- 
2.43.0


From 76179cd263df1e4a26e69f0c87a16a0c7e296a56 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 02:53:35 +0000
Subject: [PATCH 48/59] fix: report a missing semicolon after a property

---
 parser/type_class.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 4d660eb..0de1f82 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -352,9 +352,10 @@ func (p *Parser) ParseClassPropertyList(classType *ast.CustomClassType) (ast.Cla
 			return err
 		}
 		res = append(res, prop)
-		if p.CurrentToken().Is(token.Symbol(';')) {
-			p.NextToken()
+		if _, err := p.Current(token.Symbol(';')); err != nil {
+			return err
 		}
+		p.NextToken()
 		return nil
 	}); err != nil {
 		return nil, err
-- 
2.43.0


From b1c56871c9541a5acb2b44df49074ee74474c808 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 03:16:16 +0000
Subject: [PATCH 49/59] fix: the variable of an exception handler must be an
 identifier

---
 parser/statement_try.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index ceb143a..36ada24 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -138,6 +138,9 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	decl := &ast.ExceptionBlockHandlerDecl{}
 	if hasIdent {
+		if _, err := p.Current(token.Identifier); err != nil {
+			return nil, err
+		}
 		decl.Ident = p.NewIdent(t)
 		if _, err := p.Next(token.Symbol(':')); err != nil {
 			return nil, err
-- 
2.43.0


From 203d863a6304138cb5faaf4dc3c8450b11ea80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:51 +0000
Subject: [PATCH 50/59] fix: units used by the implementation section come
 before those of the interface section and embedded types

---
 parser/unit_parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index af4bdb5..f36ca05 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -211,8 +211,21 @@ func (m *UnitParser) ProcessImplAndInit() error {
 	defer func() { m.Unit.DeclMap = originalUnitDeclMap }()
 
 	// Insert implLocalDeclMap to m.context.DeclMap
-	maps := []astcore.DeclMap{implLocalDeclMap, originalContextDeclMap}
+	// The names of the used units, the declarations of the unit itself and its name hide the declarations
+	// of the used units, which hide those of the units used by the interface section and the embedded types
+	implUsesDeclMap := astcore.NewDeclMap()
+	for _, item := range m.Unit.ImplementationSection.UsesClause {
+		if err := implUsesDeclMap.Set(item); err != nil {
+			return err
+		}
+	}
+	unitNameDeclMap := astcore.NewDeclMap()
+	if err := unitNameDeclMap.Set(m.Unit); err != nil {
+		return err
+	}
+	maps := []astcore.DeclMap{implLocalDeclMap, implUsesDeclMap, originalUnitDeclMap, unitNameDeclMap}
 	maps = append(maps, unitsUsedByImpl.DeclMaps().Reverse()...)
+	maps = append(maps, originalContextDeclMap)
 	m.context.DeclMap = astcore.NewCompositeDeclMap(maps...)
 
 	if err := m.ParseImplBody(); err != nil {
-- 
2.43.0


From 4fdd86f4ea49d9d0884b7dd75d64d1aadf1ba6dd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 04:31:11 +0000
Subject: [PATCH 51/59] fix: two unit files which declare the same unit name
 are an error, not a crash

---
 parser/unit_parsers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/unit_parsers.go b/parser/unit_parsers.go
index 733f88c..7c5e9d6 100644
--- a/parser/unit_parsers.go
+++ b/parser/unit_parsers.go
@@ -56,6 +56,9 @@ func (m UnitParsers) Graph() *toposort.Graph {
 
 func (m UnitParsers) Sort() (UnitParsers, error) {
 	loaderMap := m.Map()
+	if len(loaderMap) != len(m) {
+		return nil, errors.Errorf("a unit name is declared by more than one unit file")
+	}
 
 	graph := m.Graph()
 	order, ok := graph.Toposort()
-- 
2.43.0


From 11708eef813b60b13397505f6a807ccdaee529c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 52/59] fix: a variant part without any variant is refused

---
 parser/type_struc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index 718d1ef..ee64181 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -234,7 +234,7 @@ func (p *Parser) ParseVariantSection(terminator token.Predicator) (*ast.VariantS
 
 	recVariants := ast.RecVariants{}
 	if err := p.Until(terminator, token.Symbol(';'), func() error {
-		if p.CurrentToken().Is(terminator) {
+		if len(recVariants) > 0 && p.CurrentToken().Is(terminator) {
 			return QuitUntil
 		}
 		recVariant, err := p.ParseRecVariant()
-- 
2.43.0


From 4ffd8b413067254bfe456cc22384fa63be0787df Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:34:46 +0000
Subject: [PATCH 53/59] fix: deeply nested input is an error and does not
 exhaust the stack

---
 parser/base.go       | 17 +++++++++++++++++
 parser/expression.go |  5 +++++
 parser/function.go   |  5 +++++
 parser/statement.go  |  5 +++++
 parser/type.go       |  5 +++++
 parser/type_struc.go |  5 +++++
 6 files changed, 42 insertions(+)

diff --git a/parser/base.go b/parser/base.go
index 4183c75..d143d36 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -13,6 +13,23 @@ type Parser struct {
 	curr             *token.Token
 	context          Context
 	postSectionFuncs []func()
+	nesting          int
+}
+
+// maxNesting limits how deep factors, statements, types and routines may be nested in each
+// other. It keeps the recursion of the parser from exhausting the stack.
+const maxNesting = 10000
+
+func (p *Parser) enter() error {
+	if p.nesting >= maxNesting {
+		return p.TokenErrorf("nested too deeply at %s", p.CurrentToken())
+	}
+	p.nesting++
+	return nil
+}
+
+func (p *Parser) leave() {
+	p.nesting--
 }
 
 func NewParser(ctx Context) *Parser {
diff --git a/parser/expression.go b/parser/expression.go
index 8fae9d5..61c0917 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -158,6 +158,11 @@ var MulOpPredicator = token.Some(
 )
 
 func (p *Parser) ParseFactor() (ast.Factor, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	t0 := p.CurrentToken()
 	t0Value := t0.Value()
 	if t0.Is(token.SpecialSymbol) {
diff --git a/parser/function.go b/parser/function.go
index 177f7de..898390d 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -7,6 +7,11 @@ import (
 )
 
 func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	var functionHeading *ast.FunctionHeading
 	switch p.CurrentToken().Value() {
 	case "PROCEDURE", "FUNCTION":
diff --git a/parser/statement.go b/parser/statement.go
index 9233a37..e4225cd 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -61,6 +61,11 @@ func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error
 }
 
 func (p *Parser) ParseStatement() (*ast.Statement, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	res := &ast.Statement{}
 	labelId := p.CurrentToken()
 	labelDecl := p.context.Get(labelId.Value())
diff --git a/parser/type.go b/parser/type.go
index 376ef96..96d0147 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -98,6 +98,11 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 }
 
 func (p *Parser) ParseType() (ast.Type, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	t1 := p.CurrentToken()
 	switch t1.Type {
 	case token.SpecialSymbol:
diff --git a/parser/type_struc.go b/parser/type_struc.go
index ee64181..808dbfb 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -253,6 +253,11 @@ func (p *Parser) ParseVariantSection(terminator token.Predicator) (*ast.VariantS
 }
 
 func (p *Parser) ParseRecVariant() (*ast.RecVariant, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	constExprs := ast.ConstExprs{}
 	if err := p.Until(token.Symbol(':'), token.Symbol(','), func() error {
 		constExpr, err := p.ParseConstExpr()
-- 
2.43.0


From 882a6665a7974a3006758a28dbd38a66d12ce776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:32 +0000
Subject: [PATCH 54/59] fix: error messages and the order of units do not
 depend on map iteration

---
 ext/string_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ext/string_set.go b/ext/string_set.go
index f52124c..6322140 100644
--- a/ext/string_set.go
+++ b/ext/string_set.go
@@ -1,5 +1,7 @@
 package ext
 
+import "sort"
+
 type StringSet map[string]bool
 
 func ExtractStringSets(args ...interface{}) ([]StringSet, []interface{}) {
@@ -44,6 +46,7 @@ func (m StringSet) Slice() Strings {
 		r[i] = k
 		i++
 	}
+	sort.Strings(r)
 	return r
 }
 
-- 
2.43.0


From 7900ba4bdc79109921b0a05c727527cf7f56fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:46 +0000
Subject: [PATCH 55/59] fix: unit files are looked for relative to the program
 file, not to the working directory

---
 parser/program.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/program.go b/parser/program.go
index 276f9b7..33fa17b 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"io/ioutil"
 	"os"
+	"path/filepath"
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/ast/astcore"
@@ -117,6 +118,10 @@ func (p *ProgramParser) LoadUnits(uses ast.UsesClause) error {
 	for _, unitRef := range uses {
 		path := unitRef.EffectivePath()
 		if path != "" {
+			// Relative paths are relative to the directory of the program file
+			if !filepath.IsAbs(path) {
+				path = filepath.Join(filepath.Dir(p.context.GetPath()), path)
+			}
 			parsers = append(parsers, NewUnitParser(NewUnitContext(p.context, path)))
 		}
 	}
-- 
2.43.0


From ef1e9f37429d598922a728471af3b8747ebf8fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:57 +0000
Subject: [PATCH 56/59] fix: a long run of comments overflows the stack of the
 tokenizer

---
 token/tokenizer.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/token/tokenizer.go b/token/tokenizer.go
index 5bc95df..9847f76 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -46,16 +46,24 @@ var processors = []func(*runes.Cursor) *Token{
 }
 
 func (t *Tokenizer) GetNext() *Token {
+	for {
+		token := t.process()
+		if token == nil {
+			return nil
+		}
+		if !t.loadSpace && token.Type == Space {
+			continue
+		} else if !t.loadComment && token.Type == Comment {
+			continue
+		}
+		return token
+	}
+}
+
+func (t *Tokenizer) process() *Token {
 	for _, proc := range processors {
-		token := proc(t.Cursor)
-		if token != nil {
-			if !t.loadSpace && token.Type == Space {
-				return t.GetNext()
-			} else if !t.loadComment && token.Type == Comment {
-				return t.GetNext()
-			} else {
-				return token
-			}
+		if token := proc(t.Cursor); token != nil {
+			return token
 		}
 	}
 	return nil
-- 
2.43.0


From fc9d3d01f95c56bf9f49e9b15ecba0aee4bbae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:33 +0000
Subject: [PATCH 57/59] fix: an exception handler refuses a variable named like
 a type and a type of a named unit

'on T: E do' was refused where T is the name of a visible type, and
'on Unit1.E do' was always refused. The token after the name decides which
of the two forms it is.
---
 parser/statement_try.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index 36ada24..36d08db 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -129,10 +129,14 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	if decl := p.context.Get(t.RawString()); decl != nil {
 		log.Printf("decl: %+v\n", *decl)
 		log.Printf("decl.Node: %+v\n", decl.Node)
-		if _, ok := decl.Node.(*ast.TypeDecl); ok {
+		switch decl.Node.(type) {
+		case *ast.TypeDecl, *ast.UsesClauseItem, ast.Namespace:
+			// The variable of the handler may have the name of a type or a unit, too
 			log.Printf("decl is Node\n")
-			hasIdent = false
-		} else {
+			rollback := p.RollbackPoint()
+			hasIdent = p.NextToken().Is(token.Symbol(':'))
+			rollback()
+		default:
 			log.Printf("decl is NOT Node\n")
 		}
 	}
-- 
2.43.0


From 4901d584695af21a321fc5869ec967535cc86fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:32 +0000
Subject: [PATCH 58/59] fix: members are not inherited through another name of
 a class declared forward

With 'A = class; B = A; A = class ... end; C = class(B)' the parent class of C
was not found, as the type behind B is the forward declaration of A.
---
 ast/type_class.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 77e3faa..0221620 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -73,8 +73,11 @@ func (m *CustomClassType) Children() Nodes {
 func (m *CustomClassType) GetParentClass() *CustomClassType {
 	if m.Heritage != nil && len(m.Heritage) > 0 {
 		parent := m.Heritage[0]
-		if parentClass, ok := parent.actualType().(*CustomClassType); ok {
-			return parentClass
+		switch parentType := parent.actualType().(type) {
+		case *CustomClassType:
+			return parentType
+		case *ForwardDeclaredClassType:
+			return parentType.Actual
 		}
 	}
 	return nil
-- 
2.43.0


From c3b167626fca3d9ba3d945a6f5184bb8ead38ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:17 +0000
Subject: [PATCH 59/59] fix: a cast to a type qualified by its unit is taken
 for a call

---
 parser/expression.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index 61c0917..f9ee16a 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -221,22 +221,23 @@ func (p *Parser) ParseFactor() (ast.Factor, error) {
 				typeId := ast.NewTypeId(ast.NewIdent(t0), decl)
 				p.NextToken()
 				if p.CurrentToken().Is(token.Symbol('(')) {
-					p.NextToken()
-					expr, err := p.ParseExpression()
-					if err != nil {
-						return nil, err
-					}
-					if _, err := p.Current(token.Symbol(')')); err != nil {
-						return nil, err
-					}
-					p.NextToken()
-					return &ast.TypeCast{TypeId: typeId, Expression: expr}, nil
+					return p.parseTypeCast(typeId)
 				} else {
 					rollback()
 				}
 			}
 		}
 
+		if p.IsNamespaceIdentifier(t0) || p.IsUnitIdentifier(t0) {
+			rollback := p.RollbackPoint()
+			if typeId, err := p.parseTypeIdWithUnit(); err == nil && typeId.Ref != nil && p.CurrentToken().Is(token.Symbol('(')) {
+				if _, ok := typeId.Ref.Node.(*ast.TypeDecl); ok {
+					return p.parseTypeCast(typeId)
+				}
+			}
+			rollback()
+		}
+
 		d, err := p.ParseDesignator()
 		if err != nil {
 			return nil, err
@@ -259,6 +260,23 @@ func (p *Parser) ParseFactor() (ast.Factor, error) {
 	return nil, p.TokenErrorf("unexpected token %s", t0)
 }
 
+// parseTypeCast parses the rest of a type cast after its type.
+func (p *Parser) parseTypeCast(typeId *ast.TypeId) (ast.Factor, error) {
+	if _, err := p.Current(token.Symbol('(')); err != nil {
+		return nil, err
+	}
+	p.NextToken()
+	expr, err := p.ParseExpression()
+	if err != nil {
+		return nil, err
+	}
+	if _, err := p.Current(token.Symbol(')')); err != nil {
+		return nil, err
+	}
+	p.NextToken()
+	return &ast.TypeCast{TypeId: typeId, Expression: expr}, nil
+}
+
 func (p *Parser) ParseManifestConstant(t *token.Token, skipTypeCheck bool) (*ast.ValueFactor, error) {
 	if skipTypeCheck || ast.IsManifestConstant(t.Value()) {
 		p.NextToken()
-- 
2.43.0

