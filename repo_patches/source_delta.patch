From 02cf57724842f665519068587d22dc62c465d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:10 +0000
Subject: [PATCH 01/52] fix: cloning a cursor keeps the pending newline

Clone dropped wasLF, so a parser rollback taken right before a newline
lost that line: every later position was one line too small.
---
 runes/cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index 07557a2..0cf8ea4 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -22,6 +22,7 @@ func (c *Cursor) Clone() *Cursor {
 		Text:     c.Text,
 		Len:      c.Len,
 		Position: c.Position.Clone(),
+		wasLF:    c.wasLF,
 	}
 }
 
-- 
2.43.0


From 5035d856e96e22f0f0fa69e0160c925ac111dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:21 +0000
Subject: [PATCH 02/52] fix: a rollback no longer replaces the parser's context
 by a copy

No declaration is made between RollbackPoint and the rollback. The copy
shared the declaration map but not the scope stack: leaving a routine
restored the scope of the discarded original, so parameters and locals
of a routine that mentions a type name without a cast stayed visible,
and a unit whose interface did so lost the units its implementation uses.
---
 parser/base.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 2cdaa48..4183c75 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -29,11 +29,9 @@ func (p *Parser) SetText(text *[]rune) {
 func (p *Parser) RollbackPoint() func() {
 	tokenizer := p.tokenizer.Clone()
 	curr := p.curr.Clone()
-	ctx := p.context.Clone()
 	return func() {
 		p.tokenizer = tokenizer
 		p.curr = curr
-		p.context = ctx
 	}
 }
 
-- 
2.43.0


From c8a29b2be9175c05ec077efec6010ae9f0880a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:38 +0000
Subject: [PATCH 03/52] fix: AS is a multiplicative operator, as documented in
 Grammer.md

---
 parser/expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/expression.go b/parser/expression.go
index 5508ec3..3d6a552 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -140,6 +140,7 @@ var MulOpPredicator = token.Some(
 	token.ReservedWord.HasKeyword("AND"),
 	token.ReservedWord.HasKeyword("SHL"),
 	token.ReservedWord.HasKeyword("SHR"),
+	token.ReservedWord.HasKeyword("AS"),
 )
 
 func (p *Parser) ParseFactor() (ast.Factor, error) {
-- 
2.43.0


From 87d17fe25befbcd38d86963bbe937a130b9feae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:40 +0000
Subject: [PATCH 04/52] fix: an unterminated string ends at the end of the text

ProcessString looked for the closing quote forever. The rest of the text
is now one token of the new type Illegal, which no grammar rule accepts.
---
 runes/cursor.go | 4 ++++
 token/string.go | 3 +++
 token/type.go   | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index 0cf8ea4..0161ffd 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -26,6 +26,10 @@ func (c *Cursor) Clone() *Cursor {
 	}
 }
 
+func (c *Cursor) IsEOF() bool {
+	return c.Position.Index >= c.Len
+}
+
 func (c *Cursor) Current() rune {
 	return c.Seek(0)
 }
diff --git a/token/string.go b/token/string.go
index be38b40..55ae22a 100644
--- a/token/string.go
+++ b/token/string.go
@@ -11,6 +11,9 @@ func ProcessString(c *runes.Cursor) *Token {
 		var last rune
 		for {
 			r := c.Next()
+			if c.IsEOF() {
+				return NewToken(Illegal, c.Text, start, c.Position.Clone())
+			}
 			if last != '\\' && r == '\'' {
 				break
 			}
diff --git a/token/type.go b/token/type.go
index b5da5ef..13c61c9 100644
--- a/token/type.go
+++ b/token/type.go
@@ -20,6 +20,7 @@ const (
 	NumeralReal
 	Label
 	CharacterString
+	Illegal // text which is no token, e.g. an unterminated string
 )
 
 var TypeNames = map[Type]string{
@@ -34,6 +35,7 @@ var TypeNames = map[Type]string{
 	NumeralReal:         "real",
 	Label:               "label",
 	CharacterString:     "character string",
+	Illegal:             "illegal",
 }
 
 func (t Type) String() string {
-- 
2.43.0


From ac1daad3a18710d24708b59c233a7353177a86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:42 +0000
Subject: [PATCH 05/52] fix: a rune which starts no token is reported instead
 of crashing

GetNext returned nil for such a rune without consuming it, and the
parser dereferences the current token everywhere. It is now a token of
type Illegal, which the parser rejects as any other unexpected token.
---
 token/illegal.go   | 12 ++++++++++++
 token/tokenizer.go |  1 +
 2 files changed, 13 insertions(+)
 create mode 100644 token/illegal.go

diff --git a/token/illegal.go b/token/illegal.go
new file mode 100644
index 0000000..811bed9
--- /dev/null
+++ b/token/illegal.go
@@ -0,0 +1,12 @@
+package token
+
+import (
+	"github.com/akm/tparser/runes"
+)
+
+// ProcessIllegal takes one rune which starts no token, e.g. !, % or ?.
+func ProcessIllegal(c *runes.Cursor) *Token {
+	start := c.Position.Clone()
+	c.Next()
+	return NewToken(Illegal, c.Text, start, c.Position.Clone())
+}
diff --git a/token/tokenizer.go b/token/tokenizer.go
index 0f32d50..e97de10 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -42,6 +42,7 @@ var processors = []func(*runes.Cursor) *Token{
 	ProcessSingleSpecialSymbol,
 	ProcessWord,
 	ProcessSpace,
+	ProcessIllegal,
 }
 
 func (t *Tokenizer) GetNext() *Token {
-- 
2.43.0


From b163455b4aa97f16adbd41b270a569051f9d5641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:54 +0000
Subject: [PATCH 06/52] fix: a NUL rune is not the end of the text

The end was recognised by the rune value 0, so everything after a NUL in
the source was dropped silently.
---
 token/comment.go | 6 +++---
 token/eof.go     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/token/comment.go b/token/comment.go
index 70b3293..1851f39 100644
--- a/token/comment.go
+++ b/token/comment.go
@@ -9,7 +9,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 	case '{':
 		start := c.Position.Clone()
 		for {
-			if r := c.Next(); r == '}' || r == runes.CursorEOF {
+			if r := c.Next(); r == '}' || c.IsEOF() {
 				break
 			}
 		}
@@ -19,7 +19,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 		if c.Seek(1) == '/' {
 			start := c.Position.Clone()
 			for {
-				if r := c.Next(); r == '\n' || r == runes.CursorEOF {
+				if r := c.Next(); r == '\n' || c.IsEOF() {
 					break
 				}
 			}
@@ -36,7 +36,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 					c.Next()
 					break
 				}
-				if r == runes.CursorEOF {
+				if c.IsEOF() {
 					break
 				}
 			}
diff --git a/token/eof.go b/token/eof.go
index aab4a18..95d02a9 100644
--- a/token/eof.go
+++ b/token/eof.go
@@ -5,7 +5,7 @@ import (
 )
 
 func ProcessEof(c *runes.Cursor) *Token {
-	if c.Current() == runes.CursorEOF {
+	if c.IsEOF() {
 		pos := c.Position.Clone()
 		return NewToken(EOF, c.Text, pos, pos)
 	}
-- 
2.43.0


From 1db0075522428d44161c33b4401588578d6b0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:19 +0000
Subject: [PATCH 07/52] fix: an assembler block ends at its END or with an
 error at the end of the text

The first token after ASM was skipped unseen, so 'asm end' ran past its
END, and a block without END was read forever.
---
 parser/statement_asm.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/statement_asm.go b/parser/statement_asm.go
index 6df2624..0f19ece 100644
--- a/parser/statement_asm.go
+++ b/parser/statement_asm.go
@@ -14,12 +14,14 @@ func (p *Parser) ParseAssemblerStatement() (*ast.AssemblerStatement, error) {
 
 	log.Printf("ParseAssemblerStatement start")
 
-	for {
-		if p.NextToken().Is(token.ReservedWord.HasKeyword("END")) {
-			p.NextToken()
-			break
+	kwEnd := token.ReservedWord.HasKeyword("END")
+	for !p.CurrentToken().Is(kwEnd) {
+		if p.CurrentToken().Is(token.EOF) {
+			return nil, p.TokenErrorf("expects "+kwEnd.Name()+" but was %s", p.CurrentToken())
 		}
+		p.NextToken()
 	}
+	p.NextToken()
 
 	log.Printf("ParseAssemblerStatement done")
 
-- 
2.43.0


From 4d0ac411b810c4a695ccfaaf36e4720a956c5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:21 +0000
Subject: [PATCH 08/52] fix: a unit heading without its semicolon is an error

ParseUnitIdent returned neither a unit nor an error, and ParseUnit then
returned nil, nil for the whole unit.
---
 parser/unit_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 7b773f4..c5662f9 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -104,9 +104,9 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 	if t.Is(token.PortabilityDirective) {
 		s := ast.PortabilityDirective(t.Value())
 		res.PortabilityDirective = &s
-		t = p.NextToken()
+		p.NextToken()
 	}
-	if !t.Is(token.Symbol(';')) {
+	if _, err := p.Current(token.Symbol(';')); err != nil {
 		return nil, err
 	}
 	p.NextToken()
-- 
2.43.0


From 39fc5c4f7b7a5ecacf3206ccadff061a1940d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:22 +0000
Subject: [PATCH 09/52] fix: a program file which cannot be opened is an error,
 not a panic

---
 parser/program.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/program.go b/parser/program.go
index 69d04e0..276f9b7 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -20,7 +20,7 @@ type Program struct {
 func ParseProgram(path string) (*Program, error) {
 	fp, err := os.Open(path)
 	if err != nil {
-		panic(err)
+		return nil, errors.Wrapf(err, "failed to open file: %q", path)
 	}
 	defer fp.Close()
 
-- 
2.43.0


From 08be38aad81c84faca86915078465bc41b9f181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:24 +0000
Subject: [PATCH 10/52] fix: a reserved word which starts no type is rejected
 as a type

ParseType returned nil, nil, so 'type A = begin' declared a type without
a type node.
---
 parser/type_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_string.go b/parser/type_string.go
index 8b3d139..b671522 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -23,7 +23,7 @@ func (p *Parser) ParseStringOfStringType() (ast.StringType, error) {
 	t1 := p.CurrentToken()
 	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t1.Value())
 	if decl == nil {
-		return nil, nil
+		return nil, p.TokenErrorf("Unsupported Type token %s", t1)
 	}
 	t2 := p.NextToken()
 	if t2.Is(token.Symbol('[')) {
-- 
2.43.0


From 64cbf961c7f133f72cd942cecb567e46c1a78b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:52 +0000
Subject: [PATCH 11/52] fix: parsing a type always ends on the token after it

Records, classes, class references and unit-qualified type names were
left on their last token while all other types were left on the next
one, and ParseTypeDecl skipped one token unseen to hide it. So the END
of a record nested in a record, class or var section ended the outer
construct and the declarations after it were dropped, unit-qualified
types were only usable in type sections, a portability directive after a
type name was lost, and any stray token after a type was accepted.
---
 parser/type.go       | 15 +++++----------
 parser/type_class.go |  9 ++++++++-
 parser/type_struc.go |  1 +
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index cfd8241..133fa2c 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -90,16 +90,10 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		}
 	}
 
-	{
-		t := p.CurrentToken()
-		if t.Is(token.Symbol(';')) {
-			return res, nil
-		}
-		if t := p.NextToken(); t.Is(token.PortabilityDirective) {
-			portabilityDirective := ast.PortabilityDirective(t.Value())
-			res.PortabilityDirective = &portabilityDirective
-			p.NextToken()
-		}
+	if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
+		portabilityDirective := ast.PortabilityDirective(t.Value())
+		res.PortabilityDirective = &portabilityDirective
+		p.NextToken()
 	}
 
 	return res, nil
@@ -169,6 +163,7 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if err != nil {
 		return nil, err
 	}
+	p.NextToken()
 	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
 }
 
diff --git a/parser/type_class.go b/parser/type_class.go
index aba690f..33ab104 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -34,6 +34,7 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 		if typeId == nil {
 			typeId = ast.NewTypeId(ast.NewIdent(t))
 		}
+		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
@@ -49,13 +50,19 @@ func (p *Parser) ParseClassType() (ast.ClassType, error) {
 	} else {
 		res.Heritage = heritage
 	}
-	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+	kwEnd := token.ReservedWord.HasKeyword("END")
+	if p.CurrentToken().Is(kwEnd) {
+		p.NextToken()
 		return res, nil
 	}
 	if !p.CurrentToken().Is(token.Symbol(';')) {
 		if _, err := p.ParseClassMemberSections(res); err != nil {
 			return nil, err
 		}
+		if _, err := p.Current(kwEnd); err != nil {
+			return nil, err
+		}
+		p.NextToken()
 	}
 	return res, nil
 }
diff --git a/parser/type_struc.go b/parser/type_struc.go
index 45af2d1..b2c9df4 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -142,6 +142,7 @@ func (p *Parser) ParseRecType() (*ast.RecType, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("END")); err != nil {
 		return nil, err
 	}
+	p.NextToken()
 
 	return r, nil
 }
-- 
2.43.0


From 172e78e65b0890641f619447a2437e2c0a4d765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:10 +0000
Subject: [PATCH 12/52] fix: a unit-qualified type name refers to the
 declaration in that unit

---
 parser/type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index 133fa2c..b9a32ba 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -164,7 +164,11 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 		return nil, err
 	}
 	p.NextToken()
-	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
+	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
+	if item, ok := p.context.Get(unitId.Name).Node.(*ast.UsesClauseItem); ok && item.Unit != nil && item.Unit.DeclMap != nil {
+		r.Ref = item.Unit.DeclMap.Get(r.Ident.Name)
+	}
+	return r, nil
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-- 
2.43.0


From 13d1a138876f51b4d7a79ff5b998a058f6c94ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:36 +0000
Subject: [PATCH 13/52] fix: a type may hide a declaration of an outer scope

Every visible declaration of the same name was an error unless it was a
forward declared class, so neither a local type, nor a type of a program
or unit named as one of a used unit, nor one named as a predeclared type
could be declared. Redeclaring a class of a used unit even changed the
class behind that unit's forward declaration.
---
 ast/type_class.go               |  2 ++
 ast/type_forward_declaration.go |  1 +
 parser/type.go                  | 28 ++++++++++++++++++----------
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 4f72126..24e4af5 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -36,6 +36,8 @@ func (m *ForwardDeclaredClassType) SetActualType(t Type) error {
 	}
 }
 
+func (m *ForwardDeclaredClassType) IsResolved() bool { return m.Actual != nil }
+
 var _ ForwardDeclaration = (*ForwardDeclaredClassType)(nil)
 
 func (*ForwardDeclaredClassType) isType()           {}
diff --git a/ast/type_forward_declaration.go b/ast/type_forward_declaration.go
index 9469d40..4fa7080 100644
--- a/ast/type_forward_declaration.go
+++ b/ast/type_forward_declaration.go
@@ -2,4 +2,5 @@ package ast
 
 type ForwardDeclaration interface {
 	SetActualType(Type) error
+	IsResolved() bool
 }
diff --git a/parser/type.go b/parser/type.go
index b9a32ba..ffba2e8 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
@@ -69,15 +68,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		return nil, err
 	}
 	res.Type = typ
-	if old := p.context.Get(res.Ident.Name); old != nil {
-		typeDecl, ok := old.Node.(*ast.TypeDecl)
-		if !ok {
-			return nil, errors.Errorf("expects type declaration but was %T", old.Node)
-		}
-		fwd, ok := typeDecl.Type.(ast.ForwardDeclaration)
-		if !ok {
-			return nil, errors.Errorf("expects forward declaration but was %T", typeDecl.Type)
-		}
+	if fwd := p.findForwardDeclaration(res.Ident.Name); fwd != nil {
 		if err := fwd.SetActualType(typ); err != nil {
 			return nil, err
 		}
@@ -99,6 +90,23 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	return res, nil
 }
 
+// findForwardDeclaration returns the visible forward declaration which still waits for its actual type.
+func (p *Parser) findForwardDeclaration(name string) ast.ForwardDeclaration {
+	decl := p.context.Get(name)
+	if decl == nil {
+		return nil
+	}
+	typeDecl, ok := decl.Node.(*ast.TypeDecl)
+	if !ok {
+		return nil
+	}
+	fwd, ok := typeDecl.Type.(ast.ForwardDeclaration)
+	if !ok || fwd.IsResolved() {
+		return nil
+	}
+	return fwd
+}
+
 func (p *Parser) ParseType() (ast.Type, error) {
 	t1 := p.CurrentToken()
 	switch t1.Type {
-- 
2.43.0


From 65e3db49b1fceefe8b61a0b4ebb3da06f4d9b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:38 +0000
Subject: [PATCH 14/52] fix: a unit exports the class, not its forward
 declaration

---
 parser/unit_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index c5662f9..f2bf6fe 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -162,6 +162,11 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 	for _, decl := range p.Unit.InterfaceSection.InterfaceDecls {
 		declNodes := decl.GetDeclNodes()
 		for _, declNode := range declNodes {
+			if typeDecl, ok := declNode.(*ast.TypeDecl); ok {
+				if fwd, ok := typeDecl.Type.(ast.ForwardDeclaration); ok && fwd.IsResolved() {
+					continue // the actual declaration follows
+				}
+			}
 			declMap.Set(declNode)
 		}
 	}
-- 
2.43.0


From adc89cd434447d6ec7be0b4dde360de3dafe724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:26 +0000
Subject: [PATCH 15/52] fix: looking up a member ends when a class inherits
 from itself

A type section may name a class as its own ancestor, directly or through
another class; FindMemberDecl and FindProperty then recursed until the
stack overflowed.
---
 ast/type_class.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 24e4af5..1910628 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -86,9 +86,30 @@ func (m *CustomClassType) GetParentClass() *CustomClassType {
 	return nil
 }
 
+// lineage returns the class and its ancestors, the nearest one first.
+// A class which inherits from itself is listed once.
+func (m *CustomClassType) lineage() []*CustomClassType {
+	r := []*CustomClassType{}
+	seen := map[*CustomClassType]bool{}
+	for c := m; c != nil && !seen[c]; c = c.GetParentClass() {
+		seen[c] = true
+		r = append(r, c)
+	}
+	return r
+}
+
 func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	defer log.TraceMethod("CustomClassType.FindMemberDecl: " + name)()
 
+	for _, c := range m.lineage() {
+		if r := c.findOwnMemberDecl(name, includePrivate && c == m); r != nil {
+			return r
+		}
+	}
+	return nil
+}
+
+func (m *CustomClassType) findOwnMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	kw := strings.ToLower(name)
 	for _, mb := range m.Members {
 		if !includePrivate && (mb.Visibility == CvPrivate) {
@@ -116,14 +137,19 @@ func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astc
 			}
 		}
 	}
+	return nil
+}
 
-	if parentClass := m.GetParentClass(); parentClass != nil {
-		return parentClass.FindMemberDecl(name, false)
+func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+	for _, c := range m.lineage() {
+		if prop := c.findOwnProperty(name); prop != nil || !acendant {
+			return prop
+		}
 	}
 	return nil
 }
 
-func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+func (m *CustomClassType) findOwnProperty(name string) *ClassProperty {
 	kw := strings.ToLower(name)
 	for _, mm := range m.Members {
 		if mm.ClassPropertyList != nil {
@@ -134,11 +160,6 @@ func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassPropert
 			}
 		}
 	}
-	if acendant {
-		if parentClass := m.GetParentClass(); parentClass != nil {
-			return parentClass.FindProperty(name, true)
-		}
-	}
 	return nil
 }
 
-- 
2.43.0


From 4ecb0711d777721acdc0aaf424b59087aaab7d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:28 +0000
Subject: [PATCH 16/52] fix: NODEFAULT and IMPLEMENTS of a property are
 accepted

Neither keyword was consumed.
---
 parser/type_class.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index 33ab104..27b7f1c 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -480,6 +480,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 		p.Logf("Parser.ParseClassProperty #18")
 		v := true
 		res.Default = &ast.PropertyDefaultSpecifier{NoDefault: &v}
+		p.NextToken()
 	}
 
 	p.Logf("Parser.ParseClassProperty #19")
@@ -487,6 +488,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 	//   [IMPLEMENTS TypeId]
 	if strings.ToUpper(p.CurrentToken().Value()) == "IMPLEMENTS" {
 		p.Logf("Parser.ParseClassProperty #20")
+		p.NextToken()
 		typeId, err := p.ParseTypeId()
 		if err != nil {
 			p.Logf("Parser.ParseClassProperty #21")
-- 
2.43.0


From 76ea51d5684932007f48978a5bb2b24d87049eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:30 +0000
Subject: [PATCH 17/52] fix: ParseNumberFactor checks for a number, so EXTERNAL
 ... INDEX is accepted

---
 parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index 3d6a552..d8c8415 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -259,7 +259,7 @@ func (p *Parser) ParseStringFactor(t *token.Token, skipTypeCheck bool) (*ast.Str
 }
 
 func (p *Parser) ParseNumberFactor(t *token.Token, skipTypeCheck bool) (*ast.NumberFactor, error) {
-	if skipTypeCheck || t.Is(token.CharacterString) {
+	if skipTypeCheck || t.Is(token.Some(token.NumeralInt, token.NumeralReal)) {
 		p.NextToken()
 		return &ast.NumberFactor{Value: t.Value()}, nil
 	} else {
-- 
2.43.0


From c254c59e8ccc799415076cc19d60f43b260c0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:31 +0000
Subject: [PATCH 18/52] fix: exports after the body of a block do not replace
 the ones before it

---
 parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/block.go b/parser/block.go
index 0f5fef7..801aa24 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -37,7 +37,7 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
 		return nil, err
 	} else if exportStmts != nil {
-		res.ExportsStmts1 = exportStmts
+		res.ExportsStmts2 = exportStmts
 	}
 
 	return res, nil
-- 
2.43.0


From e73a20e4c3ea534dc07f10be5aed621a5431c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:33 +0000
Subject: [PATCH 19/52] fix: the identifier of an exception handler is visible
 in that handler only

It was declared in the enclosing scope, so two handlers could not use
the same name and the name of the last one stayed visible.
---
 parser/statement_try.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index cb8abde..002bef6 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -121,6 +121,9 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	t := p.NextToken()
 
+	// The identifier is visible in the handler only
+	defer p.context.StackDeclMap()()
+
 	hasIdent := true
 
 	// p.logger.Printf("p.context.DeclMap.Keys(): %+v\n", p.context.DeclMap.Keys())
-- 
2.43.0


From d70aee59b0e56cbb1a7f6f9352d0cb3d6329b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:04 +0000
Subject: [PATCH 20/52] fix: an exception handler may name an exception class
 that is not declared

Whether the name after ON is an identifier or a type was decided by what
it is declared as, so 'on Exception do' was rejected unless the class
had been loaded. A colon decides it.
---
 parser/statement_try.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index 002bef6..13c145d 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
-	"github.com/akm/tparser/log"
 	"github.com/akm/tparser/token"
 )
 
@@ -119,25 +118,19 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	if _, err := p.Current(token.UpperCase("ON")); err != nil {
 		return nil, err
 	}
-	t := p.NextToken()
+	t, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 
 	// The identifier is visible in the handler only
 	defer p.context.StackDeclMap()()
 
-	hasIdent := true
+	// "Ident : TypeId" or "TypeId"
+	rollback := p.RollbackPoint()
+	hasIdent := p.NextToken().Is(token.Symbol(':'))
+	rollback()
 
-	// p.logger.Printf("p.context.DeclMap.Keys(): %+v\n", p.context.DeclMap.Keys())
-
-	if decl := p.context.Get(t.RawString()); decl != nil {
-		log.Printf("decl: %+v\n", *decl)
-		log.Printf("decl.Node: %+v\n", decl.Node)
-		if _, ok := decl.Node.(*ast.TypeDecl); ok {
-			log.Printf("decl is Node\n")
-			hasIdent = false
-		} else {
-			log.Printf("decl is NOT Node\n")
-		}
-	}
 	decl := &ast.ExceptionBlockHandlerDecl{}
 	if hasIdent {
 		decl.Ident = p.NewIdent(t)
-- 
2.43.0


From 3d5f1cee235cb8fc59c47297ddff77b36e5bd251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:05 +0000
Subject: [PATCH 21/52] fix: the empty set constructor is accepted, as
 documented in Grammer.md

---
 parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index d8c8415..b257d21 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -316,6 +316,9 @@ func (p *Parser) ParseSetConstructor() (*ast.SetConstructor, error) {
 	}
 	p.NextToken()
 	res := &ast.SetConstructor{}
+	if p.CurrentToken().Is(token.Symbol(']')) {
+		return res, nil
+	}
 	if err := p.Until(token.Symbol(']'), token.Symbol(','), func() error {
 		element, err := p.ParseSetElement()
 		if err != nil {
-- 
2.43.0


From c7eef2b6ef81878195994345baec6f1d95c31edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:07 +0000
Subject: [PATCH 22/52] fix: empty parentheses after a call are accepted, as
 documented in Grammer.md

---
 parser/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index b257d21..43573c5 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -7,6 +7,9 @@ import (
 
 func (p *Parser) ParseExprList(terminator token.Predicator) (ast.ExprList, error) {
 	res := ast.ExprList{}
+	if p.CurrentToken().Is(terminator) {
+		return res, nil
+	}
 	for {
 		expr, err := p.ParseExpression()
 		if err != nil {
@@ -297,6 +300,9 @@ func (p *Parser) ParseDesignator() (*ast.Designator, error) {
 			if err != nil {
 				return nil, err
 			}
+			if len(exprList) == 0 {
+				return nil, p.TokenErrorf("unexpected token %s", p.CurrentToken())
+			}
 			item = ast.DesignatorItemExprList(exprList)
 		case "^":
 			item = &ast.DesignatorItemDereference{}
-- 
2.43.0


From 251e38ecd07115763fde561f07cbcc72d55816ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:36 +0000
Subject: [PATCH 23/52] fix: empty statements are accepted, as documented in
 Grammer.md

Even 'begin end.' was rejected. An empty statement without a label is
left out of a statement list, as the one after a last semicolon always
was; elsewhere it is a statement without a body.
---
 ast/statement.go    |  4 +++-
 parser/statement.go | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/ast/statement.go b/ast/statement.go
index e4ba2ab..ea55f6e 100644
--- a/ast/statement.go
+++ b/ast/statement.go
@@ -50,7 +50,9 @@ func (m *Statement) Children() Nodes {
 	if m.LabelId != nil {
 		res = append(res, m.LabelId)
 	}
-	res = append(res, m.Body)
+	if m.Body != nil {
+		res = append(res, m.Body)
+	}
 	return res
 }
 
diff --git a/parser/statement.go b/parser/statement.go
index 9358f9f..2a4d581 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -37,14 +37,15 @@ func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error
 		if err != nil {
 			return nil, err
 		}
-		if p.CurrentToken().Is(terminator) {
+		if statement.LabelId != nil || statement.Body != nil {
 			res = append(res, statement)
+		}
+		if p.CurrentToken().Is(terminator) {
 			break
 		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
-		res = append(res, statement)
 		p.NextToken()
 		if p.CurrentToken().Is(terminator) {
 			break
@@ -53,6 +54,17 @@ func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error
 	return res, nil
 }
 
+// statementBreak is what follows a statement, so an empty statement is in front of it.
+var statementBreak = token.Some(
+	token.Symbol(';'),
+	token.ReservedWord.HasKeyword("END"),
+	token.ReservedWord.HasKeyword("ELSE"),
+	token.ReservedWord.HasKeyword("UNTIL"),
+	token.ReservedWord.HasKeyword("EXCEPT"),
+	token.ReservedWord.HasKeyword("FINALLY"),
+	token.ReservedWord.HasKeyword("FINALIZATION"),
+)
+
 func (p *Parser) ParseStatement() (*ast.Statement, error) {
 	res := &ast.Statement{}
 	labelId := p.CurrentToken()
@@ -68,6 +80,9 @@ func (p *Parser) ParseStatement() (*ast.Statement, error) {
 	}
 
 	t := p.CurrentToken()
+	if t.Is(statementBreak) {
+		return res, nil // empty statement
+	}
 	if t.Is(token.ReservedWord) {
 		switch t.Value() {
 		case "INHERITED":
-- 
2.43.0


From 6b10a7af10f97d14e28d9c2128bdc703c94dd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:38 +0000
Subject: [PATCH 24/52] fix: the last selector of a case statement needs no
 semicolon

---
 parser/statement_conditional.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/statement_conditional.go b/parser/statement_conditional.go
index f9916ff..d19564f 100644
--- a/parser/statement_conditional.go
+++ b/parser/statement_conditional.go
@@ -78,20 +78,24 @@ func (p *Parser) ParseCaseStmt() (*ast.CaseStmt, error) {
 
 func (p *Parser) ParseCaseSelectors() (ast.CaseSelectors, error) {
 	r := ast.CaseSelectors{}
+	terminator := token.Some(
+		token.ReservedWord.HasKeyword("ELSE"),
+		token.ReservedWord.HasKeyword("END"),
+	)
 	for {
 		selector, err := p.ParseCaseSelector()
 		if err != nil {
 			return nil, err
 		}
 		r = append(r, selector)
+		if p.CurrentToken().Is(terminator) {
+			break
+		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
 		p.NextToken()
-		if p.CurrentToken().Is(token.Some(
-			token.ReservedWord.HasKeyword("ELSE"),
-			token.ReservedWord.HasKeyword("END"),
-		)) {
+		if p.CurrentToken().Is(terminator) {
 			break
 		}
 	}
-- 
2.43.0


From 81535e41cf702ffa9f1618b4db58e0dcda6d7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:40 +0000
Subject: [PATCH 25/52] fix: a bare RAISE may be followed by END, ELSE, UNTIL
 and the like

---
 parser/statement_raise.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/statement_raise.go b/parser/statement_raise.go
index 5d37abf..45961e3 100644
--- a/parser/statement_raise.go
+++ b/parser/statement_raise.go
@@ -13,7 +13,7 @@ func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
 
 	res := &ast.RaiseStmt{}
 
-	if p.CurrentToken().Is(token.Symbol(';')) {
+	if p.CurrentToken().Is(statementBreak) {
 		return res, nil
 	}
 
-- 
2.43.0


From 86178bc0e5e96560a5fa5d8c68383f2a7cac93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:52 +0000
Subject: [PATCH 26/52] fix: a variant part may be nested in a variant

---
 parser/type_struc.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index b2c9df4..718d1ef 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -167,7 +167,7 @@ func (p *Parser) ParseFieldList(terminator token.Predicator) (*ast.FieldList, er
 	r.FieldDecls = fieldDecls
 
 	if p.CurrentToken().Is(casePred) {
-		variantSection, err := p.ParseVariantSection()
+		variantSection, err := p.ParseVariantSection(terminator)
 		if err != nil {
 			return nil, err
 		}
@@ -200,7 +200,7 @@ func (p *Parser) ParseFieldDecl(terminator token.Predicator) (*ast.FieldDecl, er
 	return r, nil
 }
 
-func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
+func (p *Parser) ParseVariantSection(terminator token.Predicator) (*ast.VariantSection, error) {
 	log.Printf("ParseVariantSection")
 	if _, err := p.Current(token.ReservedWord.HasKeyword("CASE")); err != nil {
 		return nil, p.TokenErrorf("Expected CASE, got %s", p.CurrentToken())
@@ -233,9 +233,8 @@ func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
 	p.NextToken()
 
 	recVariants := ast.RecVariants{}
-	endPred := token.ReservedWord.HasKeyword("END")
-	if err := p.Until(endPred, token.Symbol(';'), func() error {
-		if p.CurrentToken().Is(endPred) {
+	if err := p.Until(terminator, token.Symbol(';'), func() error {
+		if p.CurrentToken().Is(terminator) {
 			return QuitUntil
 		}
 		recVariant, err := p.ParseRecVariant()
-- 
2.43.0


From ecb24a133ef76151529df29806f00e26ee173650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:16 +0000
Subject: [PATCH 27/52] fix: class methods are accepted, as documented in
 Grammer.md

---
 parser/type_class.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index 27b7f1c..77fef96 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -179,6 +179,7 @@ var (
 		propertyBreak,
 	)
 	fieldListBreak = token.Some(
+		token.ReservedWord.HasKeyword("CLASS"),
 		token.ReservedWord.HasKeyword("FUNCTION"),
 		token.ReservedWord.HasKeyword("PROCEDURE"),
 		token.ReservedWord.HasKeyword("CONSTRUCTOR"),
@@ -257,6 +258,14 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 		return nil, err
 	}
 
+	if t0.Is(token.ReservedWord.HasKeyword("CLASS")) {
+		res.ClassMethod = true
+		t0, err = p.Next(token.ReservedWord)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	defer p.context.StackDeclMap()()
 
 	switch strings.ToUpper(t0.Value()) {
-- 
2.43.0


From f5b47898b72566529b0d1487e00f7fb6a85ec1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 28/52] fix: the first section of a class may start with a
 method or a property

---
 parser/type_class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 77fef96..70700ca 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -111,7 +111,7 @@ func (p *Parser) ParseClassMemberSection(classType *ast.CustomClassType) (*ast.C
 	res := &ast.ClassMemberSection{}
 	classType.Members = append(classType.Members, res)
 
-	if t0, err := p.Current(token.Identifier); err != nil {
+	if t0, err := p.Current(token.Some(token.Identifier, fieldListBreak)); err != nil {
 		return nil, err
 	} else {
 		switch strings.ToUpper(t0.Value()) {
-- 
2.43.0


From 5fa4be2ca58fd90ae14f5a85f436b25c1544cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:19 +0000
Subject: [PATCH 29/52] fix: an exports item may have both a name and an index

---
 parser/block.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser/block.go b/parser/block.go
index 801aa24..baac2c2 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -132,21 +132,22 @@ func (p *Parser) ParseExportsStmt(required bool) (*ast.ExportsStmt, error) {
 			return err
 		}
 		item := &ast.ExportsItem{Ident: p.NewIdent(t)}
-		t2 := p.NextToken()
-		if t2.Is(token.Directives("NAME")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
+		p.NextToken()
+		for {
+			var target **ast.ConstExpr
+			if p.CurrentToken().Is(token.Directives("NAME")) && item.Name == nil {
+				target = &item.Name
+			} else if p.CurrentToken().Is(token.Directives("INDEX")) && item.Index == nil {
+				target = &item.Index
+			} else {
+				break
 			}
-			item.Name = constExpr
-		} else if t2.Is(token.Directives("INDEX")) {
 			p.NextToken()
 			constExpr, err := p.ParseConstExpr()
 			if err != nil {
 				return err
 			}
-			item.Index = constExpr
+			*target = constExpr
 		}
 		items = append(items, item)
 		return nil
-- 
2.43.0


From cbffa74a195afd460525e2da792e007e6de82c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:21 +0000
Subject: [PATCH 30/52] fix: portability directives of variables and constants
 are accepted

---
 parser/const.go | 5 +++++
 parser/var.go   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/parser/const.go b/parser/const.go
index 08998fd..1a8ed02 100644
--- a/parser/const.go
+++ b/parser/const.go
@@ -65,6 +65,11 @@ func (p *Parser) ParseConstantDecl() (*ast.ConstantDecl, error) {
 		return nil, err
 	}
 	res.ConstExpr = expr
+	if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
+		portabilityDirective := ast.PortabilityDirective(t.Value())
+		res.PortabilityDirective = &portabilityDirective
+		p.NextToken()
+	}
 
 	return res, nil
 }
diff --git a/parser/var.go b/parser/var.go
index be57489..97bc8cf 100644
--- a/parser/var.go
+++ b/parser/var.go
@@ -76,6 +76,11 @@ func (p *Parser) ParseVarDecl() (*ast.VarDecl, error) {
 		}
 		res.ConstExpr = expr
 	}
+	if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
+		portabilityDirective := ast.PortabilityDirective(t.Value())
+		res.PortabilityDirective = &portabilityDirective
+		p.NextToken()
+	}
 	if err := p.context.Set(res); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 08f43ca5ca42be600f4f5449ff6aac1781f2c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 31/52] fix: a forward or external routine has no block

What followed such a declaration, including the body of the program, was
taken as the block of that routine.
---
 parser/function.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index c18c160..697bb60 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -36,6 +36,13 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		res.ExternalOptions = opts
 	}
 	// TODO PortabilityDirective
+	for _, d := range res.Directives {
+		if d == ast.DrForward || d == ast.DrExternal {
+			// No block follows. What comes next belongs to the enclosing block.
+			res.Block = &ast.Block{}
+			return res, nil
+		}
+	}
 	block, err := p.ParseBlock()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f2e831211e8fe062208c6461699e8841fb891ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:27 +0000
Subject: [PATCH 32/52] fix: a routine is visible after its declaration

Its name was declared in its own scope only, so calls of it from the
statements and routines that follow referred to nothing.
---
 parser/function.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index 697bb60..8e2e1bc 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -6,6 +6,23 @@ import (
 )
 
 func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
+	res, err := p.parseProcedureDecl()
+	if err != nil || res == nil {
+		return nil, err
+	}
+	if err := p.context.Set(res); err != nil {
+		// A routine may be declared again after its forward declaration or as an overload
+		if _, ok := p.context.Get(res.Ident.Name).Node.(*ast.FunctionDecl); !ok {
+			return nil, err
+		}
+		for _, decl := range res.ToDeclarations() {
+			p.context.Overwrite(decl.Ident.Name, decl)
+		}
+	}
+	return res, nil
+}
+
+func (p *Parser) parseProcedureDecl() (*ast.FunctionDecl, error) {
 	var functionHeading *ast.FunctionHeading
 	switch p.CurrentToken().Value() {
 	case "PROCEDURE", "FUNCTION":
-- 
2.43.0


From d9b12006b364fad235a2d10bbc6da42c888edc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:04 +0000
Subject: [PATCH 33/52] fix: the routines of a unit's interface are visible in
 the unit

Their names were declared in their own scope only.
---
 parser/function_heading.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index df19a01..e4b344e 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -10,6 +10,20 @@ import (
 )
 
 func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
+	res, err := p.parseExportedHeading()
+	if err != nil {
+		return nil, err
+	}
+	if err := p.context.Set(res); err != nil {
+		// Only overloads may have the same name
+		if _, ok := p.context.Get(res.Ident.Name).Node.(*ast.ExportedHeading); !ok {
+			return nil, err
+		}
+	}
+	return res, nil
+}
+
+func (p *Parser) parseExportedHeading() (*ast.ExportedHeading, error) {
 	defer p.context.StackDeclMap()()
 
 	var functionHeading *ast.FunctionHeading
-- 
2.43.0


From 95e6b0495c75fc90130e9c2dd548f95ad881a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:05 +0000
Subject: [PATCH 34/52] fix: ParseExportedHeading rejects what is not a heading
 instead of crashing

---
 parser/function_heading.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index e4b344e..91736df 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -26,14 +26,9 @@ func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
 func (p *Parser) parseExportedHeading() (*ast.ExportedHeading, error) {
 	defer p.context.StackDeclMap()()
 
-	var functionHeading *ast.FunctionHeading
-	switch p.CurrentToken().Value() {
-	case "PROCEDURE", "FUNCTION":
-		var err error
-		functionHeading, err = p.ParseFunctionHeading()
-		if err != nil {
-			return nil, err
-		}
+	functionHeading, err := p.ParseFunctionHeading()
+	if err != nil {
+		return nil, err
 	}
 	if _, err := p.Current(token.Symbol(';')); err != nil {
 		return nil, err
-- 
2.43.0


From 8ab233c7f7bc87cde02d06d136817ea883135520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 35/52] fix: a unit exports the elements of its enumerated
 types

They were visible inside the unit only.
---
 parser/unit_parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index f2bf6fe..9cc42fa 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -169,6 +169,14 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 			}
 			declMap.Set(declNode)
 		}
+		if err := astcore.WalkDown(decl, func(n ast.Node) error {
+			if element, ok := n.(*ast.EnumeratedTypeElement); ok {
+				declMap.Set(element)
+			}
+			return nil
+		}); err != nil {
+			return err
+		}
 	}
 	p.Unit.DeclMap = declMap
 
-- 
2.43.0


From a8adfd0d8c7b336b0b3b34e6d8e8399b6ae43d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:41 +0000
Subject: [PATCH 36/52] fix: empty parentheses of a parameter list are
 accepted, as documented in Grammer.md

---
 parser/function_heading.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index 91736df..d83dd8a 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -174,6 +174,10 @@ func (p *Parser) ParseFormalParameters(startRune, endRune rune) (ast.FormalParam
 	}
 	p.NextToken()
 	r := ast.FormalParameters{}
+	if startRune == '(' && p.CurrentToken().Is(token.Symbol(endRune)) {
+		p.NextToken()
+		return r, nil
+	}
 	if err := p.Until(token.Symbol(endRune), token.Symbol(';'), func() error {
 		formalParm, err := p.ParseFormalParm(endRune)
 		if err != nil {
-- 
2.43.0


From 634669c98d808d273bfe23830f2a465e9bc79978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:43 +0000
Subject: [PATCH 37/52] fix: a class reference type may name a class of a unit
 or a class declared later

---
 parser/type_class.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 70700ca..5567da4 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -20,21 +20,13 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 	}
 
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("OF")) {
-		t, err := p.Next(token.Identifier)
-		if err != nil {
+		if _, err := p.Next(token.Identifier); err != nil {
 			return nil, err
 		}
-		var typeId *ast.TypeId
-		decl := p.context.Get(t.Value())
-		if decl != nil {
-			if _, ok := decl.Node.(*ast.TypeDecl); ok {
-				typeId = ast.NewTypeId(ast.NewIdent(t), decl)
-			}
-		}
-		if typeId == nil {
-			typeId = ast.NewTypeId(ast.NewIdent(t))
+		typeId, err := p.ParseTypeId()
+		if err != nil {
+			return nil, err
 		}
-		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
-- 
2.43.0


From 1c72cd3100c05b420d958669ce846ae3e8411878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 38/52] fix: qualifying a name with the own unit in an
 interface no longer crashes

---
 parser/pcontext/unit_context.go | 4 +++-
 parser/unit_parser.go           | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/pcontext/unit_context.go b/parser/pcontext/unit_context.go
index 3e36f64..23f5d61 100644
--- a/parser/pcontext/unit_context.go
+++ b/parser/pcontext/unit_context.go
@@ -45,7 +45,8 @@ func (c *UnitContext) Clone() Context {
 	}
 }
 
-func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) {
+// ImportUnitDecls returns the map which gets the declarations of the unit itself.
+func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) astcore.DeclMap {
 	c.AssignUnits(usesClause)
 	units := usesClause.Units().Compact()
 	// NewCompositeDeclMap は 先頭から最後に向かって検索するので、mapsにはその順序でDeclMapを追加する
@@ -54,6 +55,7 @@ func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) {
 	maps = append(maps, units.DeclMaps().Reverse()...)
 	maps = append(maps, c.DeclMap)
 	c.DeclMap = astcore.NewCompositeDeclMap(maps...)
+	return localMap
 }
 
 func (c *UnitContext) AssignUnits(usesClause ast.UsesClause) {
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 9cc42fa..716822e 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -141,7 +141,8 @@ func (p *UnitParser) ParseInterfaceSectionUses() (*ast.InterfaceSection, error)
 
 func (m *UnitParser) ProcessIntfBody() error {
 	// Import decls after resovling unit load order and parsing units which this unit uses.
-	m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
+	// The unit's own name may qualify what its interface has declared so far.
+	m.Unit.DeclMap = m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
 
 	if err := m.context.Set(m.Unit); err != nil {
 		return err
-- 
2.43.0


From 181488719c673d881c7f7ff0da7ca7da007c2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:30 +0000
Subject: [PATCH 39/52] fix: classifying a type name ends when aliases name
 each other

---
 ast/type_id.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/ast/type_id.go b/ast/type_id.go
index c29bfa0..36e3140 100644
--- a/ast/type_id.go
+++ b/ast/type_id.go
@@ -55,18 +55,25 @@ func (m *TypeId) Children() Nodes {
 	return r
 }
 
+// getRefNodeDecl follows aliases. It returns nil if they never end.
 func (m *TypeId) getRefNodeDecl() *TypeDecl {
-	if m.Ref == nil {
-		return nil
-	}
-	if m.Ref.Node == nil {
-		return nil
-	}
-	decl, ok := m.Ref.Node.(*TypeDecl)
-	if !ok {
-		return nil
+	seen := map[*TypeId]bool{}
+	for !seen[m] {
+		seen[m] = true
+		if m.Ref == nil {
+			return nil
+		}
+		decl, ok := m.Ref.Node.(*TypeDecl)
+		if !ok {
+			return nil
+		}
+		alias, ok := decl.Type.(*TypeId)
+		if !ok {
+			return decl
+		}
+		m = alias
 	}
-	return decl
+	return nil
 }
 
 func (*TypeId) isType() {}
-- 
2.43.0


From 4233ac7e3dbfcc2d5cc9624a18f286f2c70c20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 40/52] fix: members are inherited from a class named by an
 alias

---
 ast/type_class.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 1910628..f995dc6 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -74,12 +74,10 @@ func (m *CustomClassType) Children() Nodes {
 
 func (m *CustomClassType) GetParentClass() *CustomClassType {
 	if m.Heritage != nil && len(m.Heritage) > 0 {
-		parent := m.Heritage[0]
-		if parent.Ref != nil {
-			if typeDecl, ok := parent.Ref.Node.(*TypeDecl); ok {
-				if parentClass, ok := typeDecl.Type.(*CustomClassType); ok {
-					return parentClass
-				}
+		// The parent may be named by an alias
+		if typeDecl := m.Heritage[0].getRefNodeDecl(); typeDecl != nil {
+			if parentClass, ok := typeDecl.Type.(*CustomClassType); ok {
+				return parentClass
 			}
 		}
 	}
-- 
2.43.0


From 5529cff2b66d3e20b38514817683044c44cbe2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:52 +0000
Subject: [PATCH 41/52] fix: a type name must be an identifier or STRING

---
 parser/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/type.go b/parser/type.go
index ffba2e8..384ea1a 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -180,6 +180,9 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
+	if _, err := p.Current(token.Some(token.Identifier, token.ReservedWord.HasKeyword("STRING"))); err != nil {
+		return nil, err
+	}
 	ident := p.NewIdent(p.CurrentToken())
 	p.NextToken()
 	r := &ast.TypeId{Ident: ident}
-- 
2.43.0


From 69a893220e3450845de8fc5ddbc9bd455c77278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:54 +0000
Subject: [PATCH 42/52] fix: the name of a constructor, destructor or property
 must be an identifier

---
 parser/type_class.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 5567da4..f6f21b3 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -325,7 +325,10 @@ func (p *Parser) ParseConstructorHeading() (*ast.ConstructorHeading, error) {
 	}
 	res := &ast.ConstructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 
 	p.NextToken()
@@ -347,7 +350,10 @@ func (p *Parser) ParseDestructorHeading() (*ast.DestructorHeading, error) {
 	}
 	res := &ast.DestructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	p.NextToken()
 	return res, nil
@@ -384,7 +390,10 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 
 	p.Logf("Parser.ParseClassProperty #01")
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	defer p.TraceMethod("Parser.ParseClassProperty")()
 
-- 
2.43.0


From 2da4460bd05113d716536b2793a1d62653cf6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:21 +0000
Subject: [PATCH 43/52] fix: the own unit and the program may qualify a type
 name

---
 parser/type.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 384ea1a..b964e2e 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -160,7 +160,7 @@ func (p *Parser) ParseTypeId() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
-	if !p.IsUnitIdentifier(p.CurrentToken()) {
+	if !p.IsUnitIdentifier(p.CurrentToken()) && !p.IsNamespaceIdentifier(p.CurrentToken()) {
 		return nil, nil
 	}
 	unitId := ast.NewUnitId(p.CurrentToken())
@@ -173,8 +173,13 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	}
 	p.NextToken()
 	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
-	if item, ok := p.context.Get(unitId.Name).Node.(*ast.UsesClauseItem); ok && item.Unit != nil && item.Unit.DeclMap != nil {
-		r.Ref = item.Unit.DeclMap.Get(r.Ident.Name)
+	switch v := p.context.Get(unitId.Name).Node.(type) {
+	case *ast.UsesClauseItem:
+		if v.Unit != nil && v.Unit.DeclMap != nil {
+			r.Ref = v.Unit.DeclMap.Get(r.Ident.Name)
+		}
+	case ast.Namespace:
+		r.Ref = v.GetDeclMap().Get(r.Ident.Name)
 	}
 	return r, nil
 }
-- 
2.43.0


From e30ba0eec48a8d0df765be1316e7e755b303b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:21 +0000
Subject: [PATCH 44/52] fix: StringSet.Slice gives its members in a fixed order

Error messages which list directives, and the order in which independent
units are processed, differed from run to run.
---
 ext/string_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ext/string_set.go b/ext/string_set.go
index f52124c..6322140 100644
--- a/ext/string_set.go
+++ b/ext/string_set.go
@@ -1,5 +1,7 @@
 package ext
 
+import "sort"
+
 type StringSet map[string]bool
 
 func ExtractStringSets(args ...interface{}) ([]StringSet, []interface{}) {
@@ -44,6 +46,7 @@ func (m StringSet) Slice() Strings {
 		r[i] = k
 		i++
 	}
+	sort.Strings(r)
 	return r
 }
 
-- 
2.43.0


From 009f893ba22d83e9410b3aeaab673be202f223b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:45 +0000
Subject: [PATCH 45/52] fix: a forward class which is declared again as
 something else is named in the error

---
 parser/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index b964e2e..e89e628 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
+	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
@@ -70,7 +71,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	res.Type = typ
 	if fwd := p.findForwardDeclaration(res.Ident.Name); fwd != nil {
 		if err := fwd.SetActualType(typ); err != nil {
-			return nil, err
+			return nil, errors.Wrapf(err, "duplicate declaration: %s at %s", res.Ident.Name, res.Ident.Location.String())
 		}
 		for _, decl := range res.ToDeclarations() {
 			p.context.Overwrite(res.Ident.Name, decl)
-- 
2.43.0


From 82cfca1d2c2c62eb6cc808b195029d54d68e8364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:04 +0000
Subject: [PATCH 46/52] fix: walking a variant part visits its tag before the
 tag's type

---
 ast/type_struc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 6b8ef86..f9dc2d3 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -157,10 +157,11 @@ type VariantSection struct {
 var _ Node = (*VariantSection)(nil)
 
 func (m *VariantSection) Children() Nodes {
-	r := Nodes{m.TypeId}
+	r := Nodes{}
 	if m.Ident != nil {
 		r = append(r, m.Ident)
 	}
+	r = append(r, m.TypeId)
 	if m.RecVariants != nil {
 		r = append(r, m.RecVariants)
 	}
-- 
2.43.0


From 6506ab6beaba8dfe61e67734e06f5277d55fd2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:40 +0000
Subject: [PATCH 47/52] fix: a set or file type is not ordinal because its base
 type is

---
 ast/type_struc.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index f9dc2d3..3c5fd21 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -53,6 +53,10 @@ var _ StrucType = (*SetType)(nil)
 func (*SetType) isType()          {}
 func (*SetType) isStrucType()     {}
 func (m *SetType) IsPacked() bool { return m.Packed }
+
+// A set is not what its elements are.
+func (*SetType) IsSimpleType() bool  { return false }
+func (*SetType) IsOrdinalType() bool { return false }
 func (m *SetType) Children() Nodes {
 	return Nodes{m.OrdinalType}
 }
@@ -71,6 +75,15 @@ var _ StrucType = (*FileType)(nil)
 func (*FileType) isType()          {}
 func (*FileType) isStrucType()     {}
 func (m *FileType) IsPacked() bool { return m.Packed }
+
+// A file is not what its elements are.
+func (*FileType) IsSimpleType() bool  { return false }
+func (*FileType) IsOrdinalType() bool { return false }
+func (*FileType) IsRealType() bool    { return false }
+func (*FileType) IsOrdIdent() bool    { return false }
+func (*FileType) IsStringType() bool  { return false }
+func (*FileType) IsPointerType() bool { return false }
+func (*FileType) IsVariantType() bool { return false }
 func (m *FileType) Children() Nodes {
 	return Nodes{m.TypeId}
 }
-- 
2.43.0


From 57143a800323437510c23abe367f8e4635b556ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:55 +0000
Subject: [PATCH 48/52] fix: a declaration hides the predefined type of its
 name in types

---
 parser/type.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index e89e628..1f66bd8 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -139,19 +139,37 @@ func (p *Parser) ParseType() (ast.Type, error) {
 func (p *Parser) ParseTypeForIdentifier() (ast.Type, error) {
 	if res, err := p.parseTypeIdWithUnit(); res != nil || err != nil {
 		return res, err
-	} else if res, err := p.ParseRealType(false); res != nil || err != nil {
-		return res, err
-	} else if res, err := p.ParseOrdIdent(false); res != nil || err != nil {
-		return res, err
-	} else if res, err := p.ParseStringType(false); res != nil || err != nil {
-		return res, err
-	} else if res, err := p.parseSubrangeTypeForIdentifier(false); res != nil || err != nil {
+	}
+	// A declaration of the source hides the predefined type of that name
+	if !p.isDeclaredBySource(p.CurrentToken()) {
+		if res, err := p.ParseRealType(false); res != nil || err != nil {
+			return res, err
+		} else if res, err := p.ParseOrdIdent(false); res != nil || err != nil {
+			return res, err
+		} else if res, err := p.ParseStringType(false); res != nil || err != nil {
+			return res, err
+		}
+	}
+	if res, err := p.parseSubrangeTypeForIdentifier(false); res != nil || err != nil {
 		return res, err
 	} else {
 		return p.parseTypeIdWithoutUnit()
 	}
 }
 
+func (p *Parser) isDeclaredBySource(t *token.Token) bool {
+	decl := p.context.Get(t.Value())
+	if decl == nil {
+		return false
+	}
+	if typeDecl, ok := decl.Node.(*ast.TypeDecl); ok {
+		if _, ok := typeDecl.Type.(*ast.TypeEmbedded); ok {
+			return false
+		}
+	}
+	return true
+}
+
 func (p *Parser) ParseTypeId() (*ast.TypeId, error) {
 	if res, err := p.parseTypeIdWithUnit(); res != nil || err != nil {
 		return res, err
-- 
2.43.0


From aaf3c422da1459d8c64c7d8069aa7b8876c54009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 49/52] fix: an error about what is no method gives the place
 of its token

---
 parser/type_class.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index f6f21b3..b4fb154 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"strings"
 
 	"github.com/akm/tparser/ast"
@@ -280,7 +279,7 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 		}
 		res.Heading = heading
 	default:
-		return nil, fmt.Errorf("unexpected token for method: %s", t0)
+		return nil, p.TokenErrorf("unexpected token %s for method", t0)
 	}
 
 	directiveList, err := p.ClassMethodDirectiveList()
-- 
2.43.0


From e4f8fefc3affc93ac3e79e338da953ea6f0c4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:31 +0000
Subject: [PATCH 50/52] fix: an error about the index of an external routine
 gives its place

---
 parser/function_heading.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index d83dd8a..9a9f3b0 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
@@ -113,7 +112,7 @@ func (p *Parser) ParseExternalOptions() (*ast.ExternalOptions, error) {
 			}
 			val, err := strconv.ParseInt(f2.Value, 10, 64)
 			if err != nil {
-				return nil, errors.Errorf("Invalid index constant for extenal index %s", f2.Value)
+				return nil, p.TokenErrorf("Invalid index constant %s for extenal index", t2)
 			}
 			v := int(val)
 			r.Index = &v
-- 
2.43.0


From bb2bb6bfa5d46fb763dd3ed6e5a806c60dbea70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:02 +0000
Subject: [PATCH 51/52] fix: two used units of the same name are an error
 instead of a crash

---
 parser/unit_parsers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/unit_parsers.go b/parser/unit_parsers.go
index 733f88c..c7e0062 100644
--- a/parser/unit_parsers.go
+++ b/parser/unit_parsers.go
@@ -56,6 +56,11 @@ func (m UnitParsers) Graph() *toposort.Graph {
 
 func (m UnitParsers) Sort() (UnitParsers, error) {
 	loaderMap := m.Map()
+	for _, loader := range m {
+		if loaderMap[strings.ToLower(loader.Unit.Name)] != loader {
+			return nil, errors.Errorf("unit %s is loaded more than once", loader.Unit.Name)
+		}
+	}
 
 	graph := m.Graph()
 	order, ok := graph.Toposort()
-- 
2.43.0


From e9af5b259834617907d9f016d92f7ee5f762234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:18 +0000
Subject: [PATCH 52/52] fix: spaces and comments are skipped in a loop, so that
 any number of them in a row fits the stack

---
 token/tokenizer.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/token/tokenizer.go b/token/tokenizer.go
index e97de10..24d473d 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -46,16 +46,27 @@ var processors = []func(*runes.Cursor) *Token{
 }
 
 func (t *Tokenizer) GetNext() *Token {
+	for {
+		token := t.next()
+		if token == nil {
+			return nil
+		}
+		// Skipping in a loop: a recursive call for each space or comment could exhaust the stack
+		if !t.loadSpace && token.Type == Space {
+			continue
+		}
+		if !t.loadComment && token.Type == Comment {
+			continue
+		}
+		return token
+	}
+}
+
+func (t *Tokenizer) next() *Token {
 	for _, proc := range processors {
 		token := proc(t.Cursor)
 		if token != nil {
-			if !t.loadSpace && token.Type == Space {
-				return t.GetNext()
-			} else if !t.loadComment && token.Type == Comment {
-				return t.GetNext()
-			} else {
-				return token
-			}
+			return token
 		}
 	}
 	return nil
-- 
2.43.0

