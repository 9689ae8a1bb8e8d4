From a0ea41f42976c4ee4affec168060304f815b4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 01/65] fix: compute source line index from bytes so that
 locations never panic on invalid UTF-8 or stop at NUL

---
 parser/expression.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index d3765b6..f43ad8f 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -584,10 +584,9 @@ func (e *Locator) PosOnLine(offset int) int {
 func (e *Locator) getLineIndex() []int {
 	if e.lineIndex == nil {
 		li := append(make([]int, 0, 32), 0)
-		rdr := NewStringReader(e.string)
-		for c, _ := rdr.Next(); c != 0; c, _ = rdr.Next() {
-			if c == '\n' {
-				li = append(li, rdr.Pos())
+		for i := 0; i < len(e.string); i++ {
+			if e.string[i] == '\n' {
+				li = append(li, i+1)
 			}
 		}
 		e.lineIndex = li
-- 
2.43.0


From c8ca86c49ea8cb5dca61a48374a110ac80d3c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 02/65] fix: accept a validly encoded U+FFFD in source text

---
 parser/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/reader.go b/parser/reader.go
index c18c0b3..ac4d5d8 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -63,7 +63,7 @@ func (r *stringReader) Next() (c rune, start int) {
 		return
 	}
 	c, size := utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	r.i += size
@@ -80,7 +80,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
@@ -96,7 +96,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size <= 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
-- 
2.43.0


From 22bf1686ccc4cf5ece365b1cf3672dc4f44146ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 03/65] fix: report a NUL character in the source instead of
 silently ignoring everything that follows it

---
 parser/reader.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser/reader.go b/parser/reader.go
index ac4d5d8..1747b2d 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -52,6 +52,10 @@ func (r *stringReader) invalidUnicode() *parseError {
 	return r.parseError("invalid unicode character")
 }
 
+func (r *stringReader) illegalNul() *parseError {
+	return r.parseError("illegal NUL character")
+}
+
 func (r *stringReader) Next() (c rune, start int) {
 	start = r.i
 	if r.i >= len(r.text) {
@@ -59,6 +63,9 @@ func (r *stringReader) Next() (c rune, start int) {
 	}
 	c = rune(r.text[r.i])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.illegalNul())
+		}
 		r.i++
 		return
 	}
@@ -76,6 +83,9 @@ func (r *stringReader) Peek() (c rune, size int) {
 	}
 	c = rune(r.text[r.i])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.illegalNul())
+		}
 		size = 1
 		return
 	}
@@ -92,6 +102,9 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 	}
 	c = rune(r.text[pos])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.illegalNul())
+		}
 		size = 1
 		return
 	}
-- 
2.43.0


From feb8180988a06b59a1b1e7b603547ca851d560a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 04/65] fix: simple lexer must not jump back to the start of
 the source at the first newline

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index d786464..94d56ea 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -90,6 +90,7 @@ func NewSimpleLexer(filename string, source string) Lexer {
 		stringReader:          stringReader{text: source},
 		factory:               nil,
 		locator:               &Locator{string: source, file: filename},
+		nextLineStart:         -1,
 		handleBacktickStrings: false,
 		handleHexEscapes:      false,
 		tasks:                 false,
-- 
2.43.0


From 57f0e51aab55c8ee88b6d3f0562780c724c7f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 05/65] fix: reset all lexer and parser state when a parser
 instance is reused

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 94d56ea..e03c327 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -165,6 +165,10 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.locator = &Locator{string: source, file: filename}
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
+	ctx.setToken(tokenEnd)
+	ctx.tokenStartPos = 0
+	ctx.beginningOfLine = 0
+	ctx.nameStack = nil
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
-- 
2.43.0


From 018d23a34b2cf8d71933d5801ab01f5dd501ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 06/65] fix: a sign following decimal digits is an operator
 unless it belongs to an exponent

---
 parser/lexer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 108b486..7db124d 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -957,6 +957,9 @@ outer:
 }
 
 func (ctx *context) consumeFloat(start int, d rune) {
+	if d != '.' {
+		ctx.skipSign()
+	}
 	if ctx.skipDecimalDigits() == 0 {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
@@ -965,6 +968,7 @@ func (ctx *context) consumeFloat(start int, d rune) {
 		// Check for 'e'
 		if c == 'e' || c == 'E' {
 			ctx.Advance(n)
+			ctx.skipSign()
 			if ctx.skipDecimalDigits() == 0 {
 				panic(ctx.parseIssue(lexDigitExpected))
 			}
@@ -978,13 +982,16 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// Skips an optional sign. A sign is only permitted in an exponent
+func (ctx *context) skipSign() {
+	if c, n := ctx.Peek(); c == '-' || c == '+' {
+		ctx.Advance(n)
+	}
+}
+
 func (ctx *context) skipDecimalDigits() (digitCount int) {
 	digitCount = 0
 	c, n := ctx.Peek()
-	if c == '-' || c == '+' {
-		ctx.Advance(n)
-		c, n = ctx.Peek()
-	}
 	for isDecimalDigit(c) {
 		ctx.Advance(n)
 		c, n = ctx.Peek()
-- 
2.43.0


From c78cb45f4b2a2e109d4609c78fcc43da607a5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 07/65] fix: correct source position of interpolations in
 double quoted strings

---
 parser/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 7db124d..ae0a5e9 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1027,12 +1027,12 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 
 			case delimiter:
 				buf.WriteRune(delimiter)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 
 			default:
 				handler(buf, ctx, ec)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 			}
 
@@ -1047,7 +1047,7 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			fallthrough
 		default:
 			buf.WriteRune(ec)
-			ec, _ = ctx.Next()
+			ec, start = ctx.Next()
 		}
 	}
 }
-- 
2.43.0


From df5c03f3b4c44ce8f58ac3c7b75224e6cfb47336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 08/65] fix: reject a hexadecimal escape that does not start
 with a hex digit

---
 parser/lexer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index ae0a5e9..ce63443 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1674,11 +1674,11 @@ func (ctx *context) appendHexadec(buf *bytes.Buffer) {
 	// Must be XX (a two-digit hex number)
 	d, start := ctx.Next()
 	if isHexDigit(d) {
-		d, _ := ctx.Next()
-		if !isHexDigit(d) {
-			ctx.SetPos(start - 2)
-			panic(ctx.parseIssue(lexMalformedHexEscape))
-		}
+		d, _ = ctx.Next()
+	}
+	if !isHexDigit(d) {
+		ctx.SetPos(start - 2)
+		panic(ctx.parseIssue(lexMalformedHexEscape))
 	}
 	r, _ := strconv.ParseInt(ctx.From(start), 16, 64)
 	buf.WriteByte(byte(r))
-- 
2.43.0


From dca677b805d7287ab184a8d10107d2065b62aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 09/65] fix: reject unicode escapes that do not denote a
 unicode character instead of substituting U+FFFD

---
 parser/lexer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index ce63443..e433bf9 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1695,8 +1695,7 @@ func (ctx *context) appendUnicode(buf *bytes.Buffer) {
 				panic(ctx.parseIssue(lexMalformedUnicodeEscape))
 			}
 		}
-		r, _ := strconv.ParseInt(ctx.From(start), 16, 32)
-		buf.WriteRune(rune(r))
+		ctx.writeEscapedRune(buf, start, ctx.From(start))
 		return
 	}
 
@@ -1718,8 +1717,18 @@ func (ctx *context) appendUnicode(buf *bytes.Buffer) {
 		panic(ctx.parseIssue(lexMalformedUnicodeEscape))
 	}
 
-	r, _ := strconv.ParseInt(ctx.From(hexStart), 16, 32)
+	ctx.writeEscapedRune(buf, start, ctx.From(hexStart))
 	ctx.Advance(n) // Skip terminating '}'
+}
+
+// Writes the rune with the given hexadecimal code point. A code point that isn't a valid unicode character cannot
+// be represented in a string and is considered malformed
+func (ctx *context) writeEscapedRune(buf *bytes.Buffer, start int, hexDigits string) {
+	r, _ := strconv.ParseInt(hexDigits, 16, 32)
+	if !utf8.ValidRune(rune(r)) {
+		ctx.SetPos(start - 2)
+		panic(ctx.parseIssue(lexMalformedUnicodeEscape))
+	}
 	buf.WriteRune(rune(r))
 }
 
-- 
2.43.0


From 039ab899e2e93b53baab945f5bf5c53cc227f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 10/65] fix: empty heredoc with suppressed last newline must
 not panic

---
 parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index e433bf9..38f4100 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1520,9 +1520,9 @@ findEndOfText:
 				heredocEnd = n
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
-					if suppressLastNL {
+					if suppressLastNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
-						if expr[heredocContentEnd-1] == '\r' {
+						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
 						}
 					}
-- 
2.43.0


From e780eb06dc9e075caf1adf71c6ba38af0b07c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 11/65] fix: operator after the hash of a type alias must not
 panic

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e03c327..37370e6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1222,7 +1222,7 @@ func (ctx *context) typeAliasOrDefinition() Expression {
 		switch bt := body.(type) {
 		case *QualifiedReference:
 			if ctx.currentToken == tokenLc {
-				hash := ctx.expression().(*LiteralHash)
+				hash := ctx.atomExpression().(*LiteralHash)
 				if bt.name == `Object` || bt.name == `TypeSet` {
 					body = ctx.factory.Access(bt, []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
 				} else {
-- 
2.43.0


From 5b122dda6c4b3f0e7cc5d500c7fd9b0e9139006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 12/65] fix: expressions must not have negative lengths

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 37370e6..3005e5b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1146,12 +1146,12 @@ func (ctx *context) identifierExpr() (Expression, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenIdentifier:
-		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, start-ctx.Pos())
+		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		return name, true
 	default:
 		if word, ok := ctx.keyword(); ok {
-			name := ctx.factory.QualifiedName(word, ctx.locator, start, start-ctx.Pos())
+			name := ctx.factory.QualifiedName(word, ctx.locator, start, ctx.Pos()-start)
 			ctx.nextToken()
 			return name, ok
 		}
@@ -1461,7 +1461,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
 			vs := ctx.Pos()
-			pl := ps - vs
+			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
 			vl := ctx.Pos() - vs
@@ -1836,7 +1836,7 @@ func (ctx *context) returnParameter() Expression {
 		case tokenLp, tokenWslp:
 			ps := ctx.tokenStartPos
 			ctx.nextToken()
-			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ps-ctx.Pos())
+			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ctx.Pos()-ps)
 			ctx.nextToken()
 		default:
 			defaultExpression = ctx.attributeAlias()
-- 
2.43.0


From 1df0cd2a6247c14977623bcb441f94f8c69fa115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 13/65] fix: do not parse the token that follows a step style
 name twice

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3005e5b..80e2885 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -449,8 +449,11 @@ func (ctx *context) step() (expr Expression) {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
 			if style, ok := workflowStyles[s]; ok {
+				pos := ctx.Pos()
 				if name, ok := ctx.identifier(); ok {
 					expr = ctx.stepDeclaration(start, style, name, true)
+				} else {
+					ctx.SetPos(pos)
 				}
 			}
 		}
-- 
2.43.0


From bb146dc451bf8f0129b3a546b5d8950addf3e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 14/65] fix: start of block must not skip whitespace that
 follows its first token

---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 80e2885..740fe9e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -248,8 +248,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 }
 
 func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expression) {
-	_, start := ctx.skipWhite(false)
-	ctx.SetPos(start)
+	start := ctx.tokenStartPos
 	if singleExpression {
 		if ctx.currentToken == expectedEnd {
 			expr = ctx.factory.Undef(ctx.locator, start, 0)
-- 
2.43.0


From fed878a8e3b6961011ed19c1b7bfde4f1a7152f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 15/65] fix: steps and step properties start at their first
 token

---
 parser/parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 740fe9e..c4c2e72 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -442,7 +442,7 @@ func (ctx *context) assignment() (expr Expression) {
 }
 
 func (ctx *context) step() (expr Expression) {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	expr = ctx.resource()
 	if ctx.workflow {
 		if qn, ok := expr.(*QualifiedName); ok {
@@ -1306,7 +1306,7 @@ func (ctx *context) stepName(step StepStyle) string {
 // stepEntry is a hash entry with some specific constraints
 
 func (ctx *context) stepProperty() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	key, ok := ctx.identifierExpr()
 	if !ok {
 		panic(ctx.parseIssue(parseExpectedAttributeName))
@@ -1316,7 +1316,7 @@ func (ctx *context) stepProperty() Expression {
 	}
 	ctx.nextToken()
 
-	vstart := ctx.Pos()
+	vstart := ctx.tokenStartPos
 	name := key.(*QualifiedName).name
 	var value Expression
 	switch name {
@@ -1410,7 +1410,7 @@ func (ctx *context) stateAttribute() (op Expression) {
 }
 
 func (ctx *context) stepExpression() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	if ctx.currentToken == tokenFunction {
 		return ctx.functionDefinition()
 	}
@@ -1458,11 +1458,11 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterFunc := ctx.tokenString()
 			nl := len(iterFunc)
 			fs := ctx.tokenStartPos
-			ps := ctx.Pos()
 			ctx.nextToken()
+			ps := ctx.tokenStartPos
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
-			vs := ctx.Pos()
+			vs := ctx.tokenStartPos
 			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
-- 
2.43.0


From 5740e5ba65854d1d1c2449ebc33a6fcf7e497df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 16/65] fix: find the start of heredoc text when the tag line
 contains a division or a comment

---
 parser/lexer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 38f4100..d9848ea 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1444,15 +1444,19 @@ findStartOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '#':
-			c, _ = ctx.skipWhite(true)
+			_, n = ctx.skipWhite(true)
+			ctx.SetPos(n)
+			c, sz = ctx.Peek()
 
 		case '/':
 			n = ctx.Pos()
 			ctx.Advance(sz)
-			c, _ = ctx.Next()
+			c, sz = ctx.Peek()
 			if c == '*' {
 				ctx.SetPos(n) // rewind to comment start
-				c, _ = ctx.skipWhite(true)
+				_, n = ctx.skipWhite(true)
+				ctx.SetPos(n)
+				c, sz = ctx.Peek()
 			}
 
 		case '\n':
-- 
2.43.0


From eb90a17b7d3b618f51e3aa7b6a7099fad5a9fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 17/65] fix: heredoc that ends at end of file must not place
 the lexer beyond the source

---
 parser/lexer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d9848ea..44e06b7 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1477,7 +1477,7 @@ findStartOfText:
 
 	suppressLastNL := false
 	heredocContentEnd := -1
-	heredocEnd := -1
+	heredocNext := -1
 	indentStrip := 0
 	tagLen := len(tag)
 
@@ -1521,8 +1521,8 @@ findEndOfText:
 				// tag found if rest of line is whitespace
 				ctx.SetPos(tagEnd)
 				c, n = ctx.skipWhiteInLiteral()
-				heredocEnd = n
 				if c == '\n' || c == 0 {
+					heredocNext = ctx.Pos()
 					heredocContentEnd = lineStart
 					if suppressLastNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
@@ -1550,8 +1550,8 @@ findEndOfText:
 			if len(heredoc) > 0 {
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 			}
-			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+			ctx.SetPos(heredocTagEnd)       // Normal parsing continues here
+			ctx.nextLineStart = heredocNext // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
 			return
@@ -1561,8 +1561,8 @@ findEndOfText:
 		heredoc = ctx.From(heredocContentStart)
 	}
 
-	ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-	ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+	ctx.SetPos(heredocTagEnd)       // Normal parsing continues here
+	ctx.nextLineStart = heredocNext // and next newline will jump to here
 	if ctx.factory != nil {
 		textExpr := ctx.factory.String(heredoc, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 		ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
-- 
2.43.0


From 60da39231c12f5c8a1c91f434770937e3429bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 18/65] fix: backtracking must not lose pending heredocs or
 duplicate definitions

---
 parser/lexer.go  | 29 +++++++++++++++++++++++++----
 parser/parser.go |  7 ++++---
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 44e06b7..e171848 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -324,6 +324,27 @@ type context struct {
 	definitions           []Definition
 }
 
+// lexerState is the state that must be restored when the lexer backtracks
+type lexerState struct {
+	pos             int
+	nextLineStart   int
+	beginningOfLine int
+	currentToken    int
+	definitionCount int
+}
+
+func (ctx *context) saveState() lexerState {
+	return lexerState{ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine, ctx.currentToken, len(ctx.definitions)}
+}
+
+func (ctx *context) restoreState(state lexerState) {
+	ctx.SetPos(state.pos)
+	ctx.nextLineStart = state.nextLineStart
+	ctx.beginningOfLine = state.beginningOfLine
+	ctx.currentToken = state.currentToken
+	ctx.definitions = ctx.definitions[:state.definitionCount]
+}
+
 func (ctx *context) setToken(token int) {
 	ctx.currentToken = token
 	ctx.tokenValue = nil
@@ -420,10 +441,10 @@ func (ctx *context) nextToken() {
 		case '(':
 			// If token is first on line or only preceded by whitespace, then it is not start of parameters
 			// in a call.
-			savePos := ctx.Pos()
+			state := ctx.saveState()
 			ctx.SetPos(ctx.beginningOfLine)
 			_, firstNonWhite := ctx.skipWhite(false)
-			ctx.SetPos(savePos)
+			ctx.restoreState(state)
 			if firstNonWhite == start {
 				ctx.setToken(tokenWslp)
 			} else {
@@ -630,9 +651,9 @@ func (ctx *context) nextToken() {
 					// Empty parameter list
 					ctx.setToken(tokenPipeEnd)
 				} else {
-					pos := ctx.Pos()
+					state := ctx.saveState()
 					n, _ := ctx.skipWhite(false)
-					ctx.SetPos(pos)
+					ctx.restoreState(state)
 					if n == '{' || n == '>' || ctx.eppMode && (n == '%' || n == '-') {
 						// A lambda parameter list cannot start with either of these tokens so
 						// this must be the end (next is either block body or block return type declaration)
diff --git a/parser/parser.go b/parser/parser.go
index c4c2e72..e834ab9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -981,6 +981,7 @@ func (ctx *context) caseOption() Expression {
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
 	bodiesStart := ctx.Pos()
+	bodiesState := ctx.saveState()
 	ctx.nextToken()
 	titleStart := ctx.Pos()
 	var firstTitle Expression
@@ -1007,7 +1008,7 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 					// Handle the call here and set lexer position to where the next expression (the one starting
 					// with a curly brace) starts.
 					args := make([]Expression, 1)
-					ctx.SetPos(bodiesStart)
+					ctx.restoreState(bodiesState)
 					ctx.nextToken()
 					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
 					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
@@ -1018,12 +1019,12 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			ctx.SetPos(start)
 			panic(ctx.parseIssue2(parseResourceWithoutTitle, issue.H{`name`: name}))
 		case `defaults`:
-			ctx.SetPos(bodiesStart)
+			ctx.restoreState(bodiesState)
 			ctx.nextToken()
 			ops := ctx.attributeOperations()
 			expr = ctx.factory.ResourceDefaults(form, first, ops, ctx.locator, start, ctx.Pos()-start)
 		case `override`:
-			ctx.SetPos(bodiesStart)
+			ctx.restoreState(bodiesState)
 			ctx.nextToken()
 			ops := ctx.attributeOperations()
 			expr = ctx.factory.ResourceOverride(form, first, ops, ctx.locator, start, ctx.Pos()-start)
-- 
2.43.0


From 0feccd7960c2c6ae67db442bb9908e50469277a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 19/65] fix: do not strip zeroes from the exponent of a float

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 7ab8a12..bdd3ea8 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -248,7 +248,7 @@ func (pn *literalPN) AsParameters() []PN {
 
 // Strip zeroes between last significant digit and end or exponent. The
 // zero following the decimal point is considered significant.
-var StripTrailingZeroes = regexp.MustCompile(`\A(.*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
+var StripTrailingZeroes = regexp.MustCompile(`\A([^e]*(?:\.0|\.\d*[1-9]))0+(e[+-]?\d+)?\z`)
 
 func (pn *literalPN) Format(b *bytes.Buffer) {
 	switch pn.val.(type) {
-- 
2.43.0


From 70ee2e2316dfb64904a52e9b16e1065bfdf47680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 20/65] fix: literal hash with an array or a hash as key must
 not panic

---
 literal/literal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/literal/literal.go b/literal/literal.go
index 2fee078..06c4ea6 100644
--- a/literal/literal.go
+++ b/literal/literal.go
@@ -38,7 +38,13 @@ func toLiteral(e parser.Expression) interface{} {
 		result := make(map[interface{}]interface{}, len(entries))
 		for _, entry := range entries {
 			kh := entry.(*parser.KeyedEntry)
-			result[toLiteral(kh.Key())] = toLiteral(kh.Value())
+			key := toLiteral(kh.Key())
+			switch key.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// Not possible to represent as key in a Go map
+				panic(notLiteral)
+			}
+			result[key] = toLiteral(kh.Value())
 		}
 		return result
 	case *parser.ConcatenatedString:
-- 
2.43.0


From 033c087884e85ecab345460fb45c5ccee422202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 21/65] fix: duplicate key check must not confuse strings with
 regexps, arrays, or hashes

---
 validator/checker.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/validator/checker.go b/validator/checker.go
index 475120b..33ce34e 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -74,6 +74,9 @@ var ReservedParameters = map[string]bool{
 	`title`: true,
 }
 
+// structuredKey is the unique representation of a hash key that isn't a scalar value
+type structuredKey string
+
 type basicChecker struct {
 	AbstractValidator
 }
@@ -396,8 +399,9 @@ func (v *basicChecker) checkLiteralHash(e *parser.LiteralHash) {
 		key := entry.(*parser.KeyedEntry).Key()
 		if literalKey, ok := literal.ToLiteral(key); ok {
 			switch key.(type) {
-			case *parser.LiteralList, *parser.LiteralHash:
-				literalKey = key.ToPN().String()
+			case *parser.LiteralList, *parser.LiteralHash, *parser.RegexpExpression:
+				// Use a type that makes this key different from all string keys
+				literalKey = structuredKey(key.ToPN().String())
 			}
 			if _, ok = unique[literalKey]; ok {
 				v.Accept(ValidateDuplicateKey, entry, issue.H{`key`: key.String()})
-- 
2.43.0


From a68788d855833892d890cfc173aab9c30aad2894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 22/65] fix: parameters with illegal names must not make the PN
 conversion panic

---
 parser/expression.go | 6 ++++++
 pn/pn.go             | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index f43ad8f..e128a44 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -2112,6 +2112,12 @@ func (e *namedDefinition) definitionPN(typeName string, parent string, returnTyp
 }
 
 func parametersEntry(parameters []Expression) pn.Entry {
+	for _, param := range parameters {
+		if !pn.IsKey(param.(*Parameter).Name()) {
+			// The name is illegal and cannot be used as a key. Use the param call notation
+			return pnList(parameters).WithName(`params`)
+		}
+	}
 	params := make([]pn.Entry, len(parameters))
 	for idx, param := range parameters {
 		p, _ := param.(*Parameter)
diff --git a/pn/pn.go b/pn/pn.go
index bdd3ea8..4667d67 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -95,9 +95,14 @@ func List(elements []PN) PN {
 	return &listPN{elements}
 }
 
+// IsKey returns true if the given string can be used as a key in a Map
+func IsKey(key string) bool {
+	return keyPattern.MatchString(key)
+}
+
 func Map(entries []Entry) PN {
 	for _, e := range entries {
-		if !keyPattern.MatchString(e.Key()) {
+		if !IsKey(e.Key()) {
 			panic(pnError{fmt.Sprintf("key '%s' does not conform to pattern %s",
 				e.Key(), keyPattern.String())})
 		}
-- 
2.43.0


From 9858ef4d072b3d2dd4f4e27d815b33004e7159b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 23/65] fix: numbers in node names must be retained verbatim

---
 parser/parser.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e834ab9..ec0abbc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/lyraproj/issue/issue"
@@ -1736,10 +1735,9 @@ func (ctx *context) dottedName() Expression {
 		switch ctx.currentToken {
 		case tokenIdentifier, tokenTypeName:
 			names = append(names, ctx.tokenString())
-		case tokenInteger:
-			names = append(names, strconv.FormatInt(ctx.tokenValue.(int64), 10))
-		case tokenFloat:
-			names = append(names, strconv.FormatFloat(ctx.tokenValue.(float64), 'g', -1, 64))
+		case tokenInteger, tokenFloat:
+			// The number is text in this context. It's not the numeric value that is of interest
+			names = append(names, ctx.From(ctx.tokenStartPos))
 		default:
 			panic(ctx.parseIssue(parseExpectedNameOrNumberAfterDot))
 		}
-- 
2.43.0


From 412dd2f42f964e13ee9388af85741379d3d189ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 24/65] fix: report integers and floats that are out of range
 instead of silently changing their value

---
 parser/issues.go |  2 ++
 parser/lexer.go  | 33 +++++++++++++++++++++++++++------
 parser/parser.go |  8 +++-----
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/parser/issues.go b/parser/issues.go
index d64af25..9a78d96 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -21,6 +21,7 @@ const (
 	lexMalformedHexEscape           = `LEX_MALFORMED_HEX_ESCAPE`
 	lexMalformedInterpolation       = `LEX_MALFORMED_INTERPOLATION`
 	lexMalformedUnicodeEscape       = `LEX_MALFORMED_UNICODE_ESCAPE`
+	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
@@ -74,6 +75,7 @@ func init() {
 	issue.Hard(lexMalformedHexEscape, `malformed hexadecimal escape sequence`)
 	issue.Hard(lexMalformedInterpolation, `malformed interpolation expression`)
 	issue.Hard(lexMalformedUnicodeEscape, `malformed unicode escape sequence`)
+	issue.Hard(lexNumberOutOfRange, `number is out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
diff --git a/parser/lexer.go b/parser/lexer.go
index e171848..bf161cf 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -319,6 +319,7 @@ type context struct {
 	tokenStartPos         int
 	tokenValue            interface{}
 	radix                 int
+	negative              bool // true when scanning a number that is preceded by a minus sign
 	factory               ExpressionFactory
 	nameStack             []string
 	definitions           []Definition
@@ -387,8 +388,7 @@ func (ctx *context) nextToken() {
 		if unicode.IsLetter(c) {
 			panic(ctx.parseIssue(lexDigitExpected))
 		}
-		v, _ := strconv.ParseInt(ctx.From(start), 10, 64)
-		ctx.settokenValue(tokenInteger, v)
+		ctx.settokenValue(tokenInteger, ctx.integerValue(start, 10))
 		ctx.radix = 10
 
 	case 'A' <= c && c <= 'Z':
@@ -694,7 +694,7 @@ func (ctx *context) nextToken() {
 			} else if isDecimalDigit(c) {
 				ctx.Advance(sz)
 				ctx.skipDecimalDigits()
-				ctx.tokenValue, _ = strconv.ParseInt(ctx.From(start+1), 10, 64)
+				ctx.tokenValue = ctx.integerValue(start+1, 10)
 			} else if unicode.IsLetter(c) {
 				panic(ctx.parseIssue(lexInvalidVariableName))
 			} else {
@@ -722,7 +722,7 @@ func (ctx *context) nextToken() {
 				if ctx.Pos() == hexStart || isLetter(c) {
 					panic(ctx.parseIssue(lexHexdigitExpected))
 				}
-				v, _ := strconv.ParseInt(ctx.From(hexStart), 16, 64)
+				v := ctx.integerValue(hexStart, 16)
 				ctx.radix = 16
 				ctx.settokenValue(tokenInteger, v)
 
@@ -741,7 +741,7 @@ func (ctx *context) nextToken() {
 					panic(ctx.parseIssue(lexOctaldigitExpected))
 				}
 				if ctx.Pos() > octalStart {
-					v, _ := strconv.ParseInt(ctx.From(octalStart), 8, 64)
+					v := ctx.integerValue(octalStart, 8)
 					ctx.radix = 8
 					ctx.settokenValue(tokenInteger, v)
 				} else {
@@ -999,10 +999,31 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	if unicode.IsLetter(c) {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
-	v, _ := strconv.ParseFloat(ctx.From(start), 64)
+	v, err := strconv.ParseFloat(ctx.From(start), 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
+	if ctx.negative {
+		v = -v
+	}
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// Returns the integer value of the digits that start at the given position and end at the current position
+func (ctx *context) integerValue(start, radix int) int64 {
+	digits := ctx.From(start)
+	if ctx.negative {
+		digits = `-` + digits
+	}
+	v, err := strconv.ParseInt(digits, radix, 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
+	return v
+}
+
 // Skips an optional sign. A sign is only permitted in an exponent
 func (ctx *context) skipSign() {
 	if c, n := ctx.Peek(); c == '-' || c == '+' {
diff --git a/parser/parser.go b/parser/parser.go
index ec0abbc..76a1f5b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -168,6 +168,7 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.tokenStartPos = 0
 	ctx.beginningOfLine = 0
 	ctx.nameStack = nil
+	ctx.negative = false
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
@@ -660,12 +661,9 @@ func (ctx *context) unaryExpression() Expression {
 	switch ctx.currentToken {
 	case tokenSubtract:
 		if c, _ := ctx.Peek(); isDecimalDigit(c) {
+			ctx.negative = true
 			ctx.nextToken()
-			if ctx.currentToken == tokenInteger {
-				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(int64))
-			} else {
-				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(float64))
-			}
+			ctx.negative = false
 			expr := ctx.primaryExpression()
 			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
 			return expr
-- 
2.43.0


From 92e4651906a98b8255009b84d790334cd862dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 25/65] fix: permit all kinds of statements in an EPP template
 without parameters

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 76a1f5b..e2ccfd3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -238,7 +238,10 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 				expr = asEppLambda(ctx.factory.Block(ctx.transformCalls(expressions, 0), ctx.locator, 0, ctx.Pos()))
 				return
 			}
-			expressions = append(expressions, ctx.expression())
+			expressions = append(expressions, ctx.syntacticStatement())
+			if ctx.currentToken == tokenSemicolon {
+				ctx.nextToken()
+			}
 		}
 	}
 
-- 
2.43.0


From 11aa75fdef39496c666e304cf48212a191e510c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 26/65] fix: EPP template without parameters must not claim
 that parameters were specified

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e2ccfd3..5bcc358 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -207,7 +207,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 			if _, ok := e.(*BlockExpression); !ok {
 				e = ctx.factory.Block([]Expression{e}, ctx.locator, 0, ctx.Pos())
 			}
-			return ctx.factory.EppExpression([]Expression{}, e, ctx.locator, 0, ctx.Pos())
+			return ctx.factory.EppExpression(nil, e, ctx.locator, 0, ctx.Pos())
 		}
 
 		if ctx.currentToken == tokenEnd {
-- 
2.43.0


From a2f08e853858f9910a4bdf9674ba70411f2fcd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 27/65] fix: restore start position of string token after
 interpolation

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index bf161cf..2d37305 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -583,6 +583,7 @@ func (ctx *context) nextToken() {
 			} else if c == '(' {
 				ctx.Advance(sz)
 				ctx.consumeHeredocString()
+				ctx.tokenStartPos = start // may have changed due to interpolation
 			} else {
 				ctx.setToken(tokenAt)
 			}
@@ -666,6 +667,7 @@ func (ctx *context) nextToken() {
 
 		case '"':
 			ctx.consumeDoubleQuotedString()
+			ctx.tokenStartPos = start // may have changed due to interpolation
 
 		case '\'':
 			ctx.consumeSingleQuotedString()
-- 
2.43.0


From 2bc22fa6b50645e8ff9b7a0f380fee2ec921c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 28/65] fix: interpolation in heredoc must end within the
 heredoc text

---
 parser/lexer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 2d37305..87f539a 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1641,7 +1641,7 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 	for c, start := ctx.Next(); c != 0 && start < end; c, start = ctx.Next() {
 		if c != '\\' {
 			if c == '$' && segments != nil {
-				segments = ctx.handleInterpolation(start, segments, bld)
+				segments = ctx.handleHeredocInterpolation(start, end, segments, bld)
 			} else {
 				bld.WriteRune(c)
 				if c == '\n' {
@@ -1672,7 +1672,7 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 		if !escaped {
 			bld.WriteRune('\\')
 			if c == '$' && segments != nil {
-				segments = ctx.handleInterpolation(start, segments, bld)
+				segments = ctx.handleHeredocInterpolation(start, end, segments, bld)
 			} else {
 				bld.WriteRune(c)
 				if c == '\n' {
@@ -1703,6 +1703,16 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 	return
 }
 
+// Like handleInterpolation but ensures that the interpolation doesn't extend beyond the end of the heredoc text
+func (ctx *context) handleHeredocInterpolation(start, end int, segments []Expression, buf *bytes.Buffer) []Expression {
+	segments = ctx.handleInterpolation(start, segments, buf)
+	if ctx.Pos() > end {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexMalformedInterpolation))
+	}
+	return segments
+}
+
 func (ctx *context) stripIndent(indentStrip int) {
 	start := ctx.Pos()
 	for indentStrip > 0 {
-- 
2.43.0


From 5b50d8cc23e966caeb1f44072892731a3aca9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 29/65] fix: numeric variable as name of an iteration must not
 panic

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5bcc358..6f9e386 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1446,7 +1446,11 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 
 	iterName := name
 	if ctx.currentToken == tokenVariable {
-		iterName = ctx.tokenString()
+		var ok bool
+		if iterName, ok = ctx.tokenValue.(string); !ok {
+			// Numeric variables cannot be assigned
+			panic(ctx.parseIssue(parseExpectedVariable))
+		}
 		ctx.nextToken()
 		ctx.assertToken(tokenAssign)
 		ctx.nextToken()
-- 
2.43.0


From ad5d839195b17bcfe8f051a668dafdbb703ae6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 30/65] fix: unterminated EPP tag must be rejected

---
 parser/issues.go |  2 ++
 parser/lexer.go  | 15 ++++++++++++++-
 parser/parser.go |  2 ++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/parser/issues.go b/parser/issues.go
index 9a78d96..993dd37 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -24,6 +24,7 @@ const (
 	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
+	lexUnbalancedEppTag             = `LEX_UNBALANCED_EPP_TAG`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
 	lexUnterminatedComment          = `LEX_UNTERMINATED_COMMENT`
 	lexUnterminatedString           = `LEX_UNTERMINATED_STRING`
@@ -78,6 +79,7 @@ func init() {
 	issue.Hard(lexNumberOutOfRange, `number is out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
+	issue.Hard(lexUnbalancedEppTag, `unbalanced epp tag, reached end of source without closing tag`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
 	issue.Hard(lexUnterminatedComment, `unterminated /* */ comment`)
 	issue.Hard(lexUnterminatedString, `unterminated %{string_type} quoted string`)
diff --git a/parser/lexer.go b/parser/lexer.go
index 87f539a..5fb4b04 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -309,6 +309,8 @@ type context struct {
 	stringReader
 	locator               *Locator
 	eppMode               bool
+	eppTagOpen            bool // true when scanning code in an EPP tag
+	eppTagStart           int  // start of the last EPP tag
 	handleBacktickStrings bool
 	handleHexEscapes      bool
 	tasks                 bool
@@ -332,10 +334,12 @@ type lexerState struct {
 	beginningOfLine int
 	currentToken    int
 	definitionCount int
+	eppTagOpen      bool
+	eppTagStart     int
 }
 
 func (ctx *context) saveState() lexerState {
-	return lexerState{ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine, ctx.currentToken, len(ctx.definitions)}
+	return lexerState{ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine, ctx.currentToken, len(ctx.definitions), ctx.eppTagOpen, ctx.eppTagStart}
 }
 
 func (ctx *context) restoreState(state lexerState) {
@@ -344,6 +348,8 @@ func (ctx *context) restoreState(state lexerState) {
 	ctx.beginningOfLine = state.beginningOfLine
 	ctx.currentToken = state.currentToken
 	ctx.definitions = ctx.definitions[:state.definitionCount]
+	ctx.eppTagOpen = state.eppTagOpen
+	ctx.eppTagStart = state.eppTagStart
 }
 
 func (ctx *context) setToken(token int) {
@@ -400,6 +406,10 @@ func (ctx *context) nextToken() {
 	default:
 		switch c {
 		case 0:
+			if ctx.eppTagOpen {
+				ctx.SetPos(ctx.eppTagStart)
+				panic(ctx.parseIssue(lexUnbalancedEppTag))
+			}
 			ctx.setToken(tokenEnd)
 		case '=':
 			c, sz = ctx.Peek()
@@ -1100,6 +1110,7 @@ func (ctx *context) consumeEPP() {
 	buf := bytes.NewBufferString(``)
 	lastNonWS := 0
 	var sz int
+	ctx.eppTagOpen = false
 	for ec, start := ctx.Next(); ec != 0; ec, start = ctx.Next() {
 		switch ec {
 		case '<':
@@ -1150,6 +1161,8 @@ func (ctx *context) consumeEPP() {
 				ctx.Advance(sz)
 			}
 			ctx.SetPos(start) // Next token will be TOKEN_RENDER_EXPR
+			ctx.eppTagOpen = true
+			ctx.eppTagStart = start
 			ctx.settokenValue(tokenRenderString, buf.String())
 			if buf.Len() == 0 {
 				ctx.nextToken()
diff --git a/parser/parser.go b/parser/parser.go
index 6f9e386..175966f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -169,6 +169,8 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.beginningOfLine = 0
 	ctx.nameStack = nil
 	ctx.negative = false
+	ctx.eppTagOpen = false
+	ctx.eppTagStart = 0
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
-- 
2.43.0


From b9959853832b1833f0dc2dc536811e6ed564a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 31/65] fix: span of capability mapping must include its
 component

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 175966f..3f0c86d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1949,7 +1949,7 @@ func (ctx *context) qualifiedName(name string) string {
 }
 
 func (ctx *context) capabilityMapping(component Expression, kind string) Expression {
-	start := ctx.tokenStartPos
+	start := component.ByteOffset()
 	ctx.nextToken()
 	capName := ctx.className()
 	ctx.assertToken(tokenLc)
-- 
2.43.0


From ac62a07189eb5eef9614adb394ad504e37c651ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 32/65] fix: span of hash given to statement call must include
 its brace

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3f0c86d..6a93f80 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -982,7 +982,7 @@ func (ctx *context) caseOption() Expression {
 }
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
-	bodiesStart := ctx.Pos()
+	bodiesStart := ctx.tokenStartPos
 	bodiesState := ctx.saveState()
 	ctx.nextToken()
 	titleStart := ctx.Pos()
-- 
2.43.0


From f2d1b6f362caaccd581a3daa6fb881f24bd0dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 33/65] fix: path to contents of a plan must contain the plan

---
 parser/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index e128a44..a329554 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1571,6 +1571,18 @@ func (e *ParenthesizedExpression) ToUnaryExpression() UnaryExpression {
 
 func (e *ParenthesizedExpression) ToPN() pn.PN { return pn.Call(`paren`, e.Expr().ToPN()) }
 
+func (e *PlanDefinition) AllContents(path []Expression, visitor PathVisitor) {
+	DeepVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) Contents(path []Expression, visitor PathVisitor) {
+	ShallowVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) ToDefinition() Definition {
+	return e
+}
+
 func (e *PlanDefinition) ToPN() pn.PN {
 	return e.definitionPN(`plan`, ``, e.returnType)
 }
-- 
2.43.0


From effb9d96a82ea402e87aa4884d931b5845a9e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 34/65] fix: interpolated variable name must not include
 dashes, keywords and numbers are names

The name that follows a dollar sign in a string was lexed as an ordinary
token. It was then rejected as malformed when the text after it made the
token something else than an identifier, e.g. in "$a-b", "$type", and
"$1". It is now lexed as a variable.
---
 parser/lexer.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 5fb4b04..5e4d4e6 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1253,17 +1253,32 @@ func (ctx *context) interpolate(start int) Expression {
 		return ctx.factory.Text(expr, ctx.locator, start, ctx.Pos()-start)
 	}
 
-	// Not delimited by curly braces. Must be a single identifier then
-	ctx.setToken(tokenVariable)
-	if c == ':' || isLowercaseLetter(c) || isDecimalDigit(c) {
+	// Not delimited by curly braces. Must be a variable name then
+	var name Expression
+	if isLowercaseLetter(c) || isDecimalDigit(c) || c == ':' && ctx.startsGlobalName() {
+		ctx.SetPos(start)
 		ctx.nextToken()
-	}
-	if ctx.currentToken != tokenIdentifier {
+		if s, ok := ctx.tokenValue.(string); ok {
+			name = ctx.factory.QualifiedName(s, ctx.locator, start+1, ctx.Pos()-(start+1))
+		} else {
+			name = ctx.factory.Integer(ctx.tokenValue.(int64), 10, ctx.locator, start+1, ctx.Pos()-(start+1))
+		}
+	} else {
+		ctx.setToken(tokenVariable)
 		ctx.SetPos(start)
 		panic(ctx.parseIssue(lexMalformedInterpolation))
 	}
-	textExpr := ctx.factory.QualifiedName(ctx.tokenValue.(string), ctx.locator, start+1, ctx.Pos()-(start+1))
-	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
+	return ctx.factory.Text(ctx.factory.Variable(name, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
+}
+
+// startsGlobalName returns true if the current position is at a '::' that is followed by the start of a name
+func (ctx *context) startsGlobalName() bool {
+	c, _ := ctx.PeekAt(ctx.Pos() + 1)
+	if c != ':' {
+		return false
+	}
+	c, _ = ctx.PeekAt(ctx.Pos() + 2)
+	return isLowercaseLetter(c)
 }
 
 func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int) Expression {
-- 
2.43.0


From 7a534af4adfa79c6b12f52b39874064783877055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 35/65] fix: nested access in interpolation must have a
 variable as its start

The name in "${a[7]}" is the variable $a. The same must be true when
there is more than one access, or an access to a member, e.g. in
"${a[7][8]}" and "${a.b[7]}".
---
 parser/lexer.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 5e4d4e6..e129d54 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1235,12 +1235,7 @@ func (ctx *context) interpolate(start int) Expression {
 		case *QualifiedName:
 			expr = ctx.factory.Variable(expr, ctx.locator, start, ctx.Pos()-start)
 		case *AccessExpression:
-			access := expr.(*AccessExpression)
-			if identifier, ok := access.operand.(*QualifiedName); ok {
-				expr = ctx.factory.Access(
-					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-					access.keys, ctx.locator, start, access.ByteLength()+1)
-			}
+			expr = ctx.convertAccessLHS(expr.(*AccessExpression), start)
 		case *CallMethodExpression:
 			call := expr.(*CallMethodExpression)
 			if ne, ok := call.functor.(*NamedAccessExpression); ok {
@@ -1281,6 +1276,29 @@ func (ctx *context) startsGlobalName() bool {
 	return isLowercaseLetter(c)
 }
 
+func (ctx *context) convertAccessLHS(expr *AccessExpression, start int) Expression {
+	var operand Expression
+	switch lhs := expr.operand.(type) {
+	case *QualifiedName:
+		operand = ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1)
+	case *AccessExpression:
+		operand = ctx.convertAccessLHS(lhs, start)
+	case *NamedAccessExpression:
+		operand = ctx.convertNamedAccessLHS(lhs, start)
+	case *CallMethodExpression:
+		functor, ok := lhs.functor.(*NamedAccessExpression)
+		if !ok {
+			return expr
+		}
+		operand = ctx.factory.CallMethod(
+			ctx.convertNamedAccessLHS(functor, start),
+			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteLength()+1)
+	default:
+		return expr
+	}
+	return ctx.factory.Access(operand, expr.keys, ctx.locator, start, expr.ByteLength()+1)
+}
+
 func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int) Expression {
 	switch lhs := expr.lhs.(type) {
 	case *QualifiedName:
@@ -1288,13 +1306,7 @@ func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int
 			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1),
 			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
 	case *AccessExpression:
-		var lhe Expression = lhs
-		if identifier, ok := lhs.operand.(*QualifiedName); ok {
-			lhe = ctx.factory.Access(
-				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-				lhs.keys, ctx.locator, start, lhs.ByteLength()+1)
-		}
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		return ctx.factory.NamedAccess(ctx.convertAccessLHS(lhs, start), expr.rhs, ctx.locator, start, expr.ByteLength()+1)
 	case *NamedAccessExpression:
 		return ctx.factory.NamedAccess(
 			ctx.convertNamedAccessLHS(lhs, start),
-- 
2.43.0


From bcc0e778e1ba1402d3378b4f462a321bd87e8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 36/65] fix: heredoc text must not be affected by lines that
 aren't its end

A line in a heredoc text that started with a dash (a list item in
markdown or yaml for instance) or a pipe was considered to have the
modifiers of the end line, although it lacked the end tag.
---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index e129d54..8a86eb3 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1576,6 +1576,8 @@ findEndOfText:
 
 		case '\n':
 			lineStart := ctx.Pos()
+			suppressLastNL = false // unless this is the end line
+			indentStrip = 0
 			c, n = ctx.skipWhiteInLiteral()
 			switch c {
 			case 0:
-- 
2.43.0


From 0d87cc8a6f8dde4a6a617b116652305bb9e4f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 37/65] fix: text beside the quotes of a heredoc tag must not
 be ignored

---
 parser/lexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 8a86eb3..826b17e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -1483,7 +1484,7 @@ findTagEnd:
 			escapeStart = ctx.Pos()
 
 		case '"':
-			if tag != `` {
+			if tag != `` || strings.TrimSpace(ctx.From(start)) != `` {
 				panic(ctx.parseIssue(lexHeredocMultipleTag))
 			}
 			ctx.Advance(n)
@@ -1508,6 +1509,10 @@ findTagEnd:
 			tag = ctx.From(quoteStart)
 			ctx.Advance(n)
 		default:
+			if quoteStart >= 0 && syntaxStart < 0 && escapeStart < 0 && c != ' ' && c != '\t' && c != '\r' {
+				// Text after end quote
+				panic(ctx.parseIssue(lexHeredocMultipleTag))
+			}
 			ctx.Advance(n)
 		}
 	}
-- 
2.43.0


From 3a322d94800359dc89168ccc63d6cb3a8548c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 38/65] fix: name the parameter when captures rest is not
 supported

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 33ce34e..8dd326f 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -671,7 +671,7 @@ func (v *basicChecker) checkNoCapture(container parser.Expression, parameters []
 	for _, parameter := range parameters {
 		if param, ok := parameter.(*parser.Parameter); ok && param.CapturesRest() {
 			v.Accept(ValidateCapturesRestNotSupported, param,
-				issue.H{`name`: param.Name(), `container`: container})
+				issue.H{`param`: param.Name(), `container`: container})
 		}
 	}
 }
-- 
2.43.0


From 6bae57a667ee9c361a37c2c710407d1b9ca4c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 39/65] fix: permit a collector with an empty query

---
 validator/checker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/checker.go b/validator/checker.go
index 8dd326f..ecdefcd 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -453,6 +453,10 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 }
 
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
+	if _, ok := e.Expr().(*parser.Nop); ok {
+		// An empty query is legal
+		return
+	}
 	if e.Expr() != nil {
 		v.checkQuery(e.Expr())
 	}
-- 
2.43.0


From 1e5812a4d9b7d9eec3622551cc7776a43799fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 40/65] fix: duplicate key check must not confuse types with
 strings

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index ecdefcd..2ce525c 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -399,7 +399,7 @@ func (v *basicChecker) checkLiteralHash(e *parser.LiteralHash) {
 		key := entry.(*parser.KeyedEntry).Key()
 		if literalKey, ok := literal.ToLiteral(key); ok {
 			switch key.(type) {
-			case *parser.LiteralList, *parser.LiteralHash, *parser.RegexpExpression:
+			case *parser.LiteralList, *parser.LiteralHash, *parser.RegexpExpression, *parser.QualifiedReference:
 				// Use a type that makes this key different from all string keys
 				literalKey = structuredKey(key.ToPN().String())
 			}
-- 
2.43.0


From d00a8d7172d3a33bb3ef24aba608d636a3e07853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 41/65] fix: permit keywords as names of the first attribute of
 resource defaults and overrides

---
 parser/parser.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6a93f80..3efe90b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -988,9 +988,9 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	titleStart := ctx.Pos()
 	var firstTitle Expression
 
-	// First attribute might be a * => operator. No attempt should be made
-	// to read it as an expression.
-	if ctx.currentToken != tokenMultiply {
+	// First attribute might be a * => operator or have a keyword as its name. No attempt
+	// should be made to read it as an expression.
+	if ctx.currentToken != tokenMultiply && !ctx.atKeywordAttribute() {
 		firstTitle = ctx.expression()
 	}
 
@@ -1130,6 +1130,19 @@ func (ctx *context) attributeName() string {
 	panic(ctx.parseIssue(parseExpectedAttributeName))
 }
 
+// atKeywordAttribute returns true if the current token is a keyword that is followed by
+// an attribute operator
+func (ctx *context) atKeywordAttribute() bool {
+	if _, ok := ctx.keyword(); !ok {
+		return false
+	}
+	state := ctx.saveState()
+	op, _ := ctx.skipWhite(false)
+	c, _ := ctx.Peek()
+	ctx.restoreState(state)
+	return (op == '=' || op == '+') && c == '>'
+}
+
 func (ctx *context) identifier() (string, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
-- 
2.43.0


From 6296de98b804d99a57447944662708ca07bda499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 42/65] fix: permit a step without a body to be followed by
 another step

---
 parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3efe90b..fab4eb3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1460,7 +1460,8 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 	l := ctx.locator
 
 	iterName := name
-	if ctx.currentToken == tokenVariable {
+	assigned := ctx.currentToken == tokenVariable
+	if assigned {
 		var ok bool
 		if iterName, ok = ctx.tokenValue.(string); !ok {
 			// Numeric variables cannot be assigned
@@ -1505,7 +1506,10 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 				}, l, fs, fn)
 			propEntries = append(propEntries, f.KeyedEntry(f.QualifiedName(`iteration`, l, fs, 0), iter, l, fs, fn))
 		default:
-			panic(ctx.parseIssue2(parseExpectedIteratorStyle, issue.H{`style`: ctx.tokenString()}))
+			// A step that lacks a body can be followed by another step
+			if _, ok := workflowStyles[ctx.tokenString()]; !ok || assigned {
+				panic(ctx.parseIssue2(parseExpectedIteratorStyle, issue.H{`style`: ctx.tokenString()}))
+			}
 		}
 	}
 	var properties Expression
-- 
2.43.0


From 6610df52a4e670ee34904d1007298f477a40fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 43/65] fix: report extraneous comma in a block that ends with
 a statement call

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fab4eb3..972782b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -319,6 +319,7 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			result = append(result, cn)
 			idx++
 			if idx == top {
+				ctx.assertNoExtraneousComma(result)
 				return
 			}
 			memo = exprs[idx]
@@ -334,7 +335,12 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 		cnFunc.rvalRequired = false
 	}
 	result = append(result, memo)
-	for _, ex := range result {
+	ctx.assertNoExtraneousComma(result)
+	return
+}
+
+func (ctx *context) assertNoExtraneousComma(exprs []Expression) {
+	for _, ex := range exprs {
 		if csl, ok := ex.(*commaSeparatedList); ok {
 			// This happens when a block contains extraneous commas between statements. The
 			// location of the comma is estimated to be right after the first statement in
@@ -346,7 +352,6 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			panic(issue.NewReported(parseExtraneousComma, issue.SeverityError, issue.NoArgs, loc))
 		}
 	}
-	return
 }
 
 func (ctx *context) expressions(endToken int, producerFunc func() Expression) (exprs []Expression) {
-- 
2.43.0


From 963a4442b77ef5eae3c258b53f19accdc8a0385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 44/65] fix: access of the result of a method call without
 parentheses must retain the call

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 972782b..1ebd8e5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -726,6 +726,9 @@ func (ctx *context) primaryExpression() (expr Expression) {
 		case tokenLcollect, tokenLlcollect:
 			expr = ctx.collectExpression(expr)
 		case tokenLb:
+			if namedAccess, ok := expr.(*NamedAccessExpression); ok {
+				expr = ctx.convertLhsToCall(namedAccess, []Expression{}, nil, expr.ByteOffset(), expr.ByteLength())
+			}
 			ctx.nextToken()
 			params := ctx.arrayExpression()
 			isCall := false
-- 
2.43.0


From 4f8ada3d6943ca508700aee731661ac110c010e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 45/65] fix: permit resource defaults and overrides without
 attributes

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1ebd8e5..3a2e99b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -997,8 +997,8 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	var firstTitle Expression
 
 	// First attribute might be a * => operator or have a keyword as its name. No attempt
-	// should be made to read it as an expression.
-	if ctx.currentToken != tokenMultiply && !ctx.atKeywordAttribute() {
+	// should be made to read it as an expression. There might also be no attributes at all.
+	if ctx.currentToken != tokenMultiply && ctx.currentToken != tokenRc && !ctx.atKeywordAttribute() {
 		firstTitle = ctx.expression()
 	}
 
-- 
2.43.0


From e8577e964911d7986ca25a78c2caa8e070479d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 46/65] fix: recognize regular expression at start of
 interpolation regardless of what precedes the string

---
 parser/lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 826b17e..a99b347 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1226,7 +1226,9 @@ func (ctx *context) interpolate(start int) Expression {
 	if c == '{' {
 		ctx.Advance(sz)
 
-		// Call context recursively and expect the ending token to be the ending curly brace
+		// Call context recursively and expect the ending token to be the ending curly brace. What
+		// precedes the string must not affect how the expression is read.
+		ctx.setToken(tokenLc)
 		ctx.nextToken()
 		expr := ctx.parse(tokenRc, true)
 
-- 
2.43.0


From 7a061ce6595496bd93f6dfdd46ec1113df369e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 47/65] fix: deferred call must not lose its lambda

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3a2e99b..dbc26fd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1401,12 +1401,12 @@ func convertToDeferred(f ExpressionFactory, e Expression) Expression {
 			n := et.functor.(*QualifiedName).Name()
 			nw := f.QualifiedName(`new`, l, bo, 0)
 			e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), nw, l, bo, 0),
-				[]Expression{f.String(n, l, e.ByteOffset(), e.ByteLength()), f.Array(convertSliceToDeferred(f, et.arguments), l, bo, 0)}, nil, l, bo, bl)
+				[]Expression{f.String(n, l, e.ByteOffset(), e.ByteLength()), f.Array(convertSliceToDeferred(f, et.arguments), l, bo, 0)}, et.lambda, l, bo, bl)
 		case *QualifiedReference:
 			nw := f.QualifiedName(`new`, l, bo, 0)
 			args := append([]Expression{et.functor}, et.arguments...)
 			e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), nw, l, bo, 0),
-				[]Expression{nw, f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, nil, l, bo, bl)
+				[]Expression{nw, f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, et.lambda, l, bo, bl)
 		}
 	case *VariableExpression:
 		ve := e.(*VariableExpression)
-- 
2.43.0


From 8858dedbdb43284de0f32ea58ddf2704c24a4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 48/65] fix: deferred numeric variable must retain its number

---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index dbc26fd..72ea8e8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1409,8 +1409,7 @@ func convertToDeferred(f ExpressionFactory, e Expression) Expression {
 				[]Expression{nw, f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, et.lambda, l, bo, bl)
 		}
 	case *VariableExpression:
-		ve := e.(*VariableExpression)
-		n, _ := ve.Name()
+		n := fmt.Sprint(et.NameOrIndex())
 		e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), f.QualifiedName(`new`, l, bo, 0), l, bo, 0),
 			[]Expression{f.String(`$`+n, l, bo, bl)}, nil, l, bo, bl)
 	}
-- 
2.43.0


From 3838389411d6b9e935a5d4b6dae2d35913b581d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 49/65] fix: last title of a resource that lacks a colon must
 be an error

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 72ea8e8..c2a3e80 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1070,15 +1070,16 @@ func (ctx *context) resourceShape(expr Expression) string {
 
 func (ctx *context) resourceBodies(title Expression) (result []Expression) {
 	result = make([]Expression, 0, 1)
-	for ctx.currentToken != tokenRc {
+	for {
 		result = append(result, ctx.resourceBody(title))
 		if ctx.currentToken != tokenSemicolon {
 			break
 		}
 		ctx.nextToken()
-		if ctx.currentToken != tokenRc {
-			title = ctx.expression()
+		if ctx.currentToken == tokenRc {
+			break
 		}
+		title = ctx.expression()
 	}
 	return
 }
-- 
2.43.0


From 48590808b433fc44b199c2d0d5f8546d33236e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 50/65] fix: text of a number includes its sign and nothing
 that follows it

---
 parser/parser.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c2a3e80..d7ad8bd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -674,9 +674,8 @@ func (ctx *context) unaryExpression() Expression {
 			ctx.negative = true
 			ctx.nextToken()
 			ctx.negative = false
-			expr := ctx.primaryExpression()
-			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
-			return expr
+			ctx.tokenStartPos = unaryStart // the sign is part of the number
+			return ctx.primaryExpression()
 		}
 		ctx.nextToken()
 		expr := ctx.primaryExpression()
@@ -686,9 +685,8 @@ func (ctx *context) unaryExpression() Expression {
 		// Allow '+' prefix for constant numbers
 		if c, _ := ctx.Peek(); isDecimalDigit(c) {
 			ctx.nextToken()
-			expr := ctx.primaryExpression()
-			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
-			return expr
+			ctx.tokenStartPos = unaryStart // the sign is part of the number
+			return ctx.primaryExpression()
 		}
 		panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: `+`}))
 
-- 
2.43.0


From 22e2eb163a098efbec513f03816333c93fe06a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 51/65] fix: text of a variable or keyword must not include the
 token that follows it

---
 parser/parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d7ad8bd..fd375c4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -824,15 +824,15 @@ func (ctx *context) atomExpression() (expr Expression) {
 		ctx.nextToken()
 
 	case tokenVariable:
-		vni := ctx.tokenValue
-		ctx.nextToken()
+		atomEnd := ctx.Pos()
 		var name Expression
-		if s, ok := vni.(string); ok {
+		if s, ok := ctx.tokenValue.(string); ok {
 			name = ctx.factory.QualifiedName(s, ctx.locator, atomStart+1, len(s))
 		} else {
-			name = ctx.factory.Integer(vni.(int64), 10, ctx.locator, atomStart+1, ctx.Pos()-(atomStart+1))
+			name = ctx.factory.Integer(ctx.tokenValue.(int64), 10, ctx.locator, atomStart+1, atomEnd-(atomStart+1))
 		}
-		expr = ctx.factory.Variable(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
+		expr = ctx.factory.Variable(name, ctx.locator, atomStart, atomEnd-atomStart)
+		ctx.nextToken()
 
 	case tokenCase:
 		expr = ctx.caseExpression()
@@ -848,7 +848,7 @@ func (ctx *context) atomExpression() (expr Expression) {
 		ctx.nextToken()
 		if ctx.currentToken == tokenLc {
 			// Class resource
-			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
+			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, len(name))
 		} else {
 			expr = ctx.classExpression(atomStart)
 		}
@@ -861,7 +861,7 @@ func (ctx *context) atomExpression() (expr Expression) {
 			expr = ctx.typeAliasOrDefinition()
 		} else {
 			// Not a type definition. Just treat the 'type' keyword as a qualified name
-			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
+			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, len(name))
 		}
 
 	case tokenPlan:
-- 
2.43.0


From cb2a794a34eee37042348a6215c1b07a79ca21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 52/65] fix: text of an access to an interpolated variable must
 extend to its end

The text of the variable in "${x[0]}" was `${` since its length was
counted from the name although it starts at the dollar sign.
---
 parser/lexer.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index a99b347..f1c2720 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1244,7 +1244,7 @@ func (ctx *context) interpolate(start int) Expression {
 			if ne, ok := call.functor.(*NamedAccessExpression); ok {
 				modNe := ctx.convertNamedAccessLHS(ne, start)
 				if modNe != ne {
-					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteLength()+1)
+					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, endOf(call)-start)
 				}
 			}
 		}
@@ -1279,11 +1279,16 @@ func (ctx *context) startsGlobalName() bool {
 	return isLowercaseLetter(c)
 }
 
+// endOf returns the offset of the byte that follows the given expression
+func endOf(expr Expression) int {
+	return expr.ByteOffset() + expr.ByteLength()
+}
+
 func (ctx *context) convertAccessLHS(expr *AccessExpression, start int) Expression {
 	var operand Expression
 	switch lhs := expr.operand.(type) {
 	case *QualifiedName:
-		operand = ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1)
+		operand = ctx.factory.Variable(lhs, ctx.locator, start, endOf(lhs)-start)
 	case *AccessExpression:
 		operand = ctx.convertAccessLHS(lhs, start)
 	case *NamedAccessExpression:
@@ -1295,30 +1300,30 @@ func (ctx *context) convertAccessLHS(expr *AccessExpression, start int) Expressi
 		}
 		operand = ctx.factory.CallMethod(
 			ctx.convertNamedAccessLHS(functor, start),
-			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteLength()+1)
+			lhs.arguments, lhs.lambda, ctx.locator, start, endOf(lhs)-start)
 	default:
 		return expr
 	}
-	return ctx.factory.Access(operand, expr.keys, ctx.locator, start, expr.ByteLength()+1)
+	return ctx.factory.Access(operand, expr.keys, ctx.locator, start, endOf(expr)-start)
 }
 
 func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int) Expression {
 	switch lhs := expr.lhs.(type) {
 	case *QualifiedName:
 		return ctx.factory.NamedAccess(
-			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			ctx.factory.Variable(lhs, ctx.locator, start, endOf(lhs)-start),
+			expr.rhs, ctx.locator, start, endOf(expr)-start)
 	case *AccessExpression:
-		return ctx.factory.NamedAccess(ctx.convertAccessLHS(lhs, start), expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		return ctx.factory.NamedAccess(ctx.convertAccessLHS(lhs, start), expr.rhs, ctx.locator, start, endOf(expr)-start)
 	case *NamedAccessExpression:
 		return ctx.factory.NamedAccess(
 			ctx.convertNamedAccessLHS(lhs, start),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			expr.rhs, ctx.locator, start, endOf(expr)-start)
 	case *CallMethodExpression:
 		lhe := ctx.factory.CallMethod(
 			ctx.convertNamedAccessLHS(lhs.functor.(*NamedAccessExpression), start),
-			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteLength()+1).(*CallMethodExpression)
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			lhs.arguments, lhs.lambda, ctx.locator, start, endOf(lhs)-start).(*CallMethodExpression)
+		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, endOf(expr)-start)
 	}
 	return expr
 }
-- 
2.43.0


From a7c5d4ccc467bee0d474daf0348c8fff1437e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 53/65] fix: SyntaxError of the lexer must be located at the
 current token

It was located after the token, unlike the errors from AssertToken
and the errors from the parser.
---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index fd375c4..a484e1f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -110,6 +110,7 @@ func (l *lexer) SetPos(pos int) {
 }
 
 func (l *lexer) SyntaxError() {
+	l.context.SetPos(l.context.tokenStartPos)
 	panic(l.context.parseIssue2(lexUnexpectedToken, issue.H{`token`: tokenMap[l.context.currentToken]}))
 }
 
-- 
2.43.0


From 2a870e0a433191a29fea73f60b03cdf9c2a456d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 54/65] fix: a slash that starts no regular expression is no
 unterminated backtick string

`$x = /a\` was rejected with the message that a backtick quoted string
is unterminated, but `$x = /a` with the message that the slash is
unexpected.
---
 parser/lexer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index f1c2720..9cc3e49 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1078,17 +1078,15 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			ec, _ = ctx.Next()
 			switch ec {
 			case 0:
-				panic(ctx.unterminatedQuote(delimiterStart, delimiter))
+				// Unterminated
 
 			case delimiter:
 				buf.WriteRune(delimiter)
 				ec, start = ctx.Next()
-				continue
 
 			default:
 				handler(buf, ctx, ec)
 				ec, start = ctx.Next()
-				continue
 			}
 
 		case '$':
-- 
2.43.0


From c7c95440eef3d37a984128c563faee5037044c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:49 +0000
Subject: [PATCH 55/65] fix: lambdas, plans and parentheses must have a label
 of their own

---
 parser/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/label.go b/parser/label.go
index 5762e09..2143c2c 100644
--- a/parser/label.go
+++ b/parser/label.go
@@ -17,6 +17,7 @@ func (e *AssignmentExpression) Label() string        { return fmt.Sprintf("'%s'
 func (e *AttributeOperation) Label() string          { return fmt.Sprintf("'%s' expression", e.operator) }
 func (e *AttributesOperation) Label() string         { return "AttributesOperation" }
 func (e *BlockExpression) Label() string             { return "Block Expression" }
+func (e *CallFunctionExpression) Label() string      { return "Function Call" }
 func (e *CallMethodExpression) Label() string        { return "Method Call" }
 func (e *CallNamedFunctionExpression) Label() string { return "Function Call" }
 func (e *CapabilityMapping) Label() string           { return "Capability Mapping" }
@@ -33,6 +34,7 @@ func (e *HostClassDefinition) Label() string         { return "Host Class Defini
 func (e *IfExpression) Label() string                { return "'if' statement" }
 func (e *InExpression) Label() string                { return "'in' expression" }
 func (e *KeyedEntry) Label() string                  { return "Hash Entry" }
+func (e *LambdaExpression) Label() string            { return "Lambda" }
 func (e *LiteralBoolean) Label() string              { return "Literal Boolean" }
 func (e *LiteralDefault) Label() string              { return "'default' expression" }
 func (e *LiteralFloat) Label() string                { return "Literal Float" }
@@ -49,6 +51,8 @@ func (e *Nop) Label() string                         { return "Nop" }
 func (e *NotExpression) Label() string               { return "'!' expression" }
 func (e *OrExpression) Label() string                { return "'or' expression" }
 func (e *Parameter) Label() string                   { return "Parameter Definition" }
+func (e *ParenthesizedExpression) Label() string     { return "Parenthesized Expression" }
+func (e *PlanDefinition) Label() string              { return "Plan Definition" }
 func (e *Program) Label() string                     { return "Program" }
 func (e *QualifiedName) Label() string               { return "Name" }
 func (e *QualifiedReference) Label() string          { return "Type-Name" }
-- 
2.43.0


From a8f2a96ce68a9a538ff99f5fd068f6be91ed9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:37 +0000
Subject: [PATCH 56/65] fix: text that precedes an EPP tag must not be read as
 code

---
 parser/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 9cc3e49..8028e28 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1162,6 +1162,7 @@ func (ctx *context) consumeEPP() {
 			ctx.SetPos(start) // Next token will be TOKEN_RENDER_EXPR
 			ctx.eppTagOpen = true
 			ctx.eppTagStart = start
+			ctx.beginningOfLine = start // The text that precedes the tag is not code
 			ctx.settokenValue(tokenRenderString, buf.String())
 			if buf.Len() == 0 {
 				ctx.nextToken()
-- 
2.43.0


From 25fe62730ddd54ae66187360777676cb50bbfbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:54 +0000
Subject: [PATCH 57/65] fix: EPP text must not be an operand of the code that
 follows it

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index a484e1f..a5643c8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -377,6 +377,10 @@ func (ctx *context) expressions(endToken int, producerFunc func() Expression) (e
 
 func (ctx *context) syntacticStatement() (expr Expression) {
 	var args []Expression
+	if ctx.currentToken == tokenRenderString {
+		// Text is a statement. It is never an operand of the code in the tag that follows it
+		return ctx.atomExpression()
+	}
 	expr = ctx.relationship()
 	for ctx.currentToken == tokenComma {
 		ctx.nextToken()
-- 
2.43.0


From 0d77b747bd0073149e68df26449a93ad189d7758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 58/65] fix: EPP text must not be an argument of the statement
 call that precedes it

---
 parser/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a5643c8..2f4bc47 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -306,7 +306,7 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 	idx := 1
 	for ; idx < top; idx++ {
 		expr := exprs[idx]
-		if qname, ok := memo.(*QualifiedName); ok && statementCalls[qname.name] {
+		if qname, ok := memo.(*QualifiedName); ok && statementCalls[qname.name] && !isRendered(expr) {
 			var args []Expression
 			if csList, ok := expr.(*commaSeparatedList); ok {
 				args = csList.elements
@@ -340,6 +340,16 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 	return
 }
 
+// isRendered returns true if the given expression is rendered text or a rendered expression of an EPP template. Such
+// expressions are statements and not arguments of the statement call that precedes them
+func isRendered(expr Expression) bool {
+	switch expr.(type) {
+	case *RenderStringExpression, *RenderExpression:
+		return true
+	}
+	return false
+}
+
 func (ctx *context) assertNoExtraneousComma(exprs []Expression) {
 	for _, ex := range exprs {
 		if csl, ok := ex.(*commaSeparatedList); ok {
-- 
2.43.0


From 700a11a6f234d7e92a12fe7afeb5f210874b8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:38 +0000
Subject: [PATCH 59/65] fix: segments of a heredoc must be within its text

---
 parser/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 8028e28..05da69f 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1638,6 +1638,7 @@ findEndOfText:
 	var heredoc string
 	if flags != nil || quoteStart >= 0 || indentStrip > 0 {
 		ctx.SetPos(heredocContentStart)
+		ctx.tokenStartPos = heredocContentStart // start of the first segment
 		var segments []Expression
 		if quoteStart >= 0 && ctx.factory != nil {
 			segments = make([]Expression, 0, 4)
@@ -1645,7 +1646,7 @@ findEndOfText:
 		heredoc, segments = ctx.applyEscapes(heredocContentEnd, indentStrip, flags, segments)
 		if len(segments) > 0 {
 			if len(heredoc) > 0 {
-				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
+				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, heredocContentEnd-ctx.tokenStartPos))
 			}
 			ctx.SetPos(heredocTagEnd)       // Normal parsing continues here
 			ctx.nextLineStart = heredocNext // and next newline will jump to here
-- 
2.43.0


From 68e5efd5a8ad3ff6bbc96ce4c39050daa39ff3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:49 +0000
Subject: [PATCH 60/65] fix: comment characters in a string must not affect the
 heredoc that precedes it

---
 parser/lexer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 05da69f..80096bd 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1554,6 +1554,23 @@ findStartOfText:
 				c, sz = ctx.Peek()
 			}
 
+		case '\'', '"':
+			// Characters of a string never start a comment
+			delimiter := c
+			ctx.Advance(sz)
+			for c, sz = ctx.Peek(); c != 0 && c != '\n' && c != delimiter; c, sz = ctx.Peek() {
+				ctx.Advance(sz)
+				if c == '\\' {
+					if c, sz = ctx.Peek(); c != '\n' {
+						ctx.Advance(sz)
+					}
+				}
+			}
+			if c == delimiter {
+				ctx.Advance(sz)
+				c, sz = ctx.Peek()
+			}
+
 		case '\n':
 			if ctx.nextLineStart >= 0 {
 				ctx.SetPos(ctx.nextLineStart)
-- 
2.43.0


From 73fb2273df5ae3c590481ada2f50026e9eee5e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:50 +0000
Subject: [PATCH 61/65] fix: -%> must trim a line end that consists of a
 carriage return and a newline

---
 parser/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 80096bd..0f9a86c 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -511,6 +511,13 @@ func (ctx *context) nextToken() {
 						for c, sz = ctx.Peek(); c == ' ' || c == '\t'; c, sz = ctx.Peek() {
 							ctx.Advance(sz)
 						}
+						if c == '\r' {
+							// A line can end with \r\n
+							if n, _ := ctx.PeekAt(ctx.Pos() + sz); n == '\n' {
+								ctx.Advance(sz)
+								c, sz = ctx.Peek()
+							}
+						}
 						if c == '\n' {
 							ctx.Advance(sz)
 						}
-- 
2.43.0


From 91800d83e47c151772d07ce4a41c8bc0810a3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:30 +0000
Subject: [PATCH 62/65] fix: read the first key of a hash in a statement call
 once

---
 parser/parser.go | 106 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 83 insertions(+), 23 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2f4bc47..86cfddd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -372,19 +372,28 @@ func (ctx *context) expressions(endToken int, producerFunc func() Expression) (e
 			return
 		}
 		exprs = append(exprs, producerFunc())
-		if ctx.currentToken != tokenComma {
-			if ctx.currentToken != endToken {
-				ctx.SetPos(ctx.tokenStartPos)
-				panic(ctx.parseIssue2(parseExpectedOneOfTokens, issue.H{
-					`expected`: fmt.Sprintf(`'%s' or '%s'`, tokenMap[tokenComma], tokenMap[endToken]),
-					`actual`:   tokenMap[ctx.currentToken]}))
-			}
+		if !ctx.atNextElement(endToken) {
 			return
 		}
-		ctx.nextToken()
 	}
 }
 
+// atNextElement skips the comma that follows an element of a list. It returns false if the end of the list
+// follows instead
+func (ctx *context) atNextElement(endToken int) bool {
+	if ctx.currentToken != tokenComma {
+		if ctx.currentToken != endToken {
+			ctx.SetPos(ctx.tokenStartPos)
+			panic(ctx.parseIssue2(parseExpectedOneOfTokens, issue.H{
+				`expected`: fmt.Sprintf(`'%s' or '%s'`, tokenMap[tokenComma], tokenMap[endToken]),
+				`actual`:   tokenMap[ctx.currentToken]}))
+		}
+		return false
+	}
+	ctx.nextToken()
+	return true
+}
+
 func (ctx *context) syntacticStatement() (expr Expression) {
 	var args []Expression
 	if ctx.currentToken == tokenRenderString {
@@ -438,8 +447,12 @@ func (ctx *context) handleKeyword(next func() Expression) (expr Expression) {
 	return
 }
 
-func (ctx *context) relationship() (expr Expression) {
-	expr = ctx.assignment()
+func (ctx *context) relationship() Expression {
+	return ctx.relationshipFrom(ctx.assignment())
+}
+
+// relationshipFrom returns the relationship that starts with the given expression
+func (ctx *context) relationshipFrom(expr Expression) Expression {
 	for {
 		switch ctx.currentToken {
 		case tokenInEdge, tokenInEdgeSub, tokenOutEdge, tokenOutEdgeSub:
@@ -452,8 +465,12 @@ func (ctx *context) relationship() (expr Expression) {
 	}
 }
 
-func (ctx *context) assignment() (expr Expression) {
-	expr = ctx.step()
+func (ctx *context) assignment() Expression {
+	return ctx.assignmentFrom(ctx.step())
+}
+
+// assignmentFrom returns the assignment that starts with the given expression
+func (ctx *context) assignmentFrom(expr Expression) Expression {
 	for {
 		switch ctx.currentToken {
 		case tokenAssign, tokenAddAssign, tokenSubtractAssign:
@@ -485,12 +502,16 @@ func (ctx *context) step() (expr Expression) {
 	return
 }
 
-func (ctx *context) resource() (expr Expression) {
-	expr = ctx.expression()
+func (ctx *context) resource() Expression {
+	return ctx.resourceFrom(ctx.expression())
+}
+
+// resourceFrom returns the resource that starts with the given expression
+func (ctx *context) resourceFrom(expr Expression) Expression {
 	if ctx.currentToken == tokenLc {
 		expr = ctx.resourceExpression(expr.ByteOffset(), expr, REGULAR)
 	}
-	return
+	return expr
 }
 
 func (ctx *context) expression() (expr Expression) {
@@ -668,7 +689,11 @@ func (ctx *context) arrayExpression() (elements []Expression) {
 }
 
 func (ctx *context) keyedEntry() Expression {
-	key := ctx.hashEntry()
+	return ctx.keyedEntryFrom(ctx.hashEntry())
+}
+
+// keyedEntryFrom returns the entry with the given key
+func (ctx *context) keyedEntryFrom(key Expression) Expression {
 	if ctx.currentToken != tokenFarrow {
 		panic(ctx.parseIssue(parseExpectedFarrowAfterKey))
 	}
@@ -681,6 +706,15 @@ func (ctx *context) hashExpression() (entries []Expression) {
 	return ctx.expressions(tokenRc, ctx.keyedEntry)
 }
 
+// hashExpressionFrom returns the entries of a hash. The given key is the key of the first one
+func (ctx *context) hashExpressionFrom(key Expression) []Expression {
+	entries := []Expression{ctx.keyedEntryFrom(key)}
+	if ctx.atNextElement(tokenRc) {
+		entries = append(entries, ctx.hashExpression()...)
+	}
+	return entries
+}
+
 func (ctx *context) unaryExpression() Expression {
 	unaryStart := ctx.tokenStartPos
 	switch ctx.currentToken {
@@ -1006,7 +1040,7 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	bodiesStart := ctx.tokenStartPos
 	bodiesState := ctx.saveState()
 	ctx.nextToken()
-	titleStart := ctx.Pos()
+	titleToken := ctx.currentToken
 	var firstTitle Expression
 
 	// First attribute might be a * => operator or have a keyword as its name. No attempt
@@ -1017,7 +1051,6 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 
 	if ctx.currentToken != tokenColon {
 		// Resource body without title
-		ctx.SetPos(titleStart)
 		switch ctx.resourceShape(first) {
 		case `resource`:
 			// This is just LHS followed by a hash. It only makes sense when LHS is an identifier equal
@@ -1028,12 +1061,23 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			if ok {
 				name = fqn.name
 				if _, ok := statementCalls[name]; ok {
-					// Handle the call here and set lexer position to where the next expression (the one starting
-					// with a curly brace) starts.
+					// Handle the call here. What was read as a title is the start of the first key. It should not
+					// be read twice since the time to read nested calls would then be exponential. Only keywords
+					// and names (that can start a step) are different in a key.
+					var entries []Expression
+					if firstTitle == nil || isReadAsKey(titleToken, firstTitle) {
+						ctx.restoreState(bodiesState)
+						ctx.nextToken()
+						entries = ctx.hashExpression()
+					} else {
+						key := firstTitle
+						if titleToken != tokenType {
+							key = ctx.relationshipFrom(ctx.assignmentFrom(ctx.resourceFrom(key)))
+						}
+						entries = ctx.hashExpressionFrom(key)
+					}
 					args := make([]Expression, 1)
-					ctx.restoreState(bodiesState)
-					ctx.nextToken()
-					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
+					args[0] = ctx.factory.Hash(entries, ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
 					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
 					ctx.nextToken()
 					return
@@ -1065,6 +1109,22 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	return
 }
 
+// isReadAsKey returns true if an expression that starts with the given token can be different when it is a key
+func isReadAsKey(token int, expr Expression) bool {
+	switch token {
+	case tokenType:
+		if call, ok := expr.(*CallNamedFunctionExpression); ok {
+			_, ok = call.functor.(*QualifiedName)
+			return !ok
+		}
+		return true
+	case tokenFunction, tokenPlan, tokenApplication, tokenConsumes, tokenProduces, tokenSite:
+		return true
+	}
+	_, ok := expr.(*QualifiedName)
+	return ok
+}
+
 func (ctx *context) resourceShape(expr Expression) string {
 	if _, ok := expr.(*QualifiedName); ok {
 		return "resource"
-- 
2.43.0


From 584b59cfeb66b3d71aee94d7c507582de89f84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:59 +0000
Subject: [PATCH 63/65] fix: comment characters in a regular expression or a
 backtick string must not affect the heredoc that precedes it

---
 parser/lexer.go | 56 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 0f9a86c..4886adb 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1537,6 +1537,7 @@ findTagEnd:
 
 	// Find where actual text starts
 	heredocContentStart := -1
+	afterOperand := true // the heredoc itself
 	c, sz := ctx.Peek()
 findStartOfText:
 	for {
@@ -1558,25 +1559,17 @@ findStartOfText:
 				ctx.SetPos(n) // rewind to comment start
 				_, n = ctx.skipWhite(true)
 				ctx.SetPos(n)
-				c, sz = ctx.Peek()
+			} else {
+				afterOperand = !afterOperand && ctx.skipDelimited('/')
 			}
+			c, sz = ctx.Peek()
 
-		case '\'', '"':
+		case '\'', '"', '`':
 			// Characters of a string never start a comment
-			delimiter := c
 			ctx.Advance(sz)
-			for c, sz = ctx.Peek(); c != 0 && c != '\n' && c != delimiter; c, sz = ctx.Peek() {
-				ctx.Advance(sz)
-				if c == '\\' {
-					if c, sz = ctx.Peek(); c != '\n' {
-						ctx.Advance(sz)
-					}
-				}
-			}
-			if c == delimiter {
-				ctx.Advance(sz)
-				c, sz = ctx.Peek()
-			}
+			ctx.skipDelimited(c)
+			afterOperand = true
+			c, sz = ctx.Peek()
 
 		case '\n':
 			if ctx.nextLineStart >= 0 {
@@ -1588,9 +1581,23 @@ findStartOfText:
 			heredocContentStart = ctx.Pos()
 			break findStartOfText
 
-		default:
+		case ' ', '\t', '\r':
 			ctx.Advance(sz)
 			c, sz = ctx.Peek()
+
+		default:
+			n = ctx.Pos()
+			ctx.Advance(sz)
+			if isLetterOrDigit(c) {
+				for c, sz = ctx.Peek(); isLetterOrDigit(c); c, sz = ctx.Peek() {
+					ctx.Advance(sz)
+				}
+				keyword, ok := keywords[ctx.From(n)]
+				afterOperand = !ok || keyword == tokenBoolean || strings.IndexByte(`$:`, ctx.Text()[n-1]) >= 0
+			} else {
+				afterOperand = c == ')' || c == ']' || c == '$'
+				c, sz = ctx.Peek()
+			}
 		}
 	}
 
@@ -1693,6 +1700,23 @@ findEndOfText:
 	}
 }
 
+// skipDelimited skips the rest of a string or a regular expression that ends with the given delimiter. It stops at the
+// end of the line and returns false if there is no delimiter on the line
+func (ctx *context) skipDelimited(delimiter rune) bool {
+	for c, sz := ctx.Peek(); c != 0 && c != '\n'; c, sz = ctx.Peek() {
+		ctx.Advance(sz)
+		if c == delimiter {
+			return true
+		}
+		if c == '\\' && delimiter != '`' {
+			if c, sz = ctx.Peek(); c != '\n' {
+				ctx.Advance(sz)
+			}
+		}
+	}
+	return false
+}
+
 func (ctx *context) extractFlags(start int) []byte {
 	s := ctx.From(start)
 	top := len(s)
-- 
2.43.0


From 508ee929f3b7892d2726f8a9626ae00795ccc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:02 +0000
Subject: [PATCH 64/65] fix: add the missing quote to the message about the
 style of an iteration

---
 parser/issues.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/issues.go b/parser/issues.go
index 993dd37..6770fa4 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -88,7 +88,7 @@ func init() {
 	issue.Hard(parseElsifInUnless, `elsif not supported in unless expression`)
 	issue.Hard(parseExpectedStepName, `expected %{step} name`)
 	issue.Hard(parseExpectedStepOperation, `expected one of 'delete', 'read', or 'upsert'. Got '%{operation}'`)
-	issue.Hard(parseExpectedIteratorStyle, `expected one of 'each', 'range', or 'times'. Got '%{style}`)
+	issue.Hard(parseExpectedIteratorStyle, `expected one of 'each', 'range', or 'times'. Got '%{style}'`)
 	issue.Hard(parseExpectedStepStyle, `expected one of 'action', 'resource', or 'workflow'`)
 	issue.Hard(parseExpectedAttributeName, `expected attribute name`)
 	issue.Hard(parseExpectedClassName, `expected name of class`)
-- 
2.43.0


From 6bc9fd9c0bff1ee0d49ef96f0f8165f01b952b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:53 +0000
Subject: [PATCH 65/65] fix: a name with a leading :: must not give an empty
 segment to the full name of a nested definition

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 86cfddd..40b28d4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2043,7 +2043,10 @@ func (ctx *context) keyword() (word string, ok bool) {
 }
 
 func (ctx *context) qualifiedName(name string) string {
-	return strings.Join(append(ctx.nameStack, name), `::`)
+	for i := len(ctx.nameStack) - 1; i >= 0; i-- {
+		name = ctx.nameStack[i] + `::` + strings.TrimPrefix(name, `::`)
+	}
+	return name
 }
 
 func (ctx *context) capabilityMapping(component Expression, kind string) Expression {
-- 
2.43.0

