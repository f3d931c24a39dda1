From d24316b8644b5c870c4b7ccb6fbd14c0e452334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 01/18] fix: generate writes outputs atomically and reports
 write errors

The output file was truncated before its source was parsed, and errors of
the code writer and of Close were dropped, so a failed, killed or rejected
run destroyed the previous output and a failed write could exit 0.
---
 cmd/cddlc/commands/generate.go | 50 ++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 90c0eb9..7dc8b13 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -116,13 +116,6 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return err
 	}
 
-	// check if output file can be opened/created before generating. Fail otherwise
-	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
-	if err != nil {
-		return err
-	}
-	defer out.Close()
-
 	lex := lexer.NewLexer(src)
 	p := parser.NewParser(lex)
 	cddl, errs := p.ParseFile()
@@ -138,12 +131,51 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 
 	gen.Visit(cddl)
 
+	out := &bytes.Buffer{}
 	err = addBuildHeader(out)
 	if err != nil {
 		return err
 	}
-	gen.String(out)
-	return nil
+	err = gen.String(out)
+	if err != nil {
+		return err
+	}
+	return writeOutput(outPath, out.Bytes())
+}
+
+// writeOutput replaces the file at outPath by one holding data. On failure the
+// previous file is left as it was.
+func writeOutput(outPath string, data []byte) error {
+	tmp, err := createTemp(filepath.Dir(outPath))
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), outPath)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+	return err
+}
+
+// createTemp creates a new file in dir with the permissions of an output file.
+func createTemp(dir string) (f *os.File, err error) {
+	for i := 0; i < 10000; i++ {
+		name := filepath.Join(dir, fmt.Sprintf(".cddlc-%d-%d.tmp", os.Getpid(), i))
+		f, err = os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+		if !os.IsExist(err) {
+			break
+		}
+	}
+	return f, err
 }
 
 func addBuildHeader(f io.Writer) error {
-- 
2.43.0


From d6ee3034ef12cea8e8946509f50befaa9f7a575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 02/18] fix: look up the configuration by its exact names and
 report lookup errors

Glob drops I/O errors, so an unreadable directory silently selected the
default build, and any other file named cddlc.* was taken for the
configuration.
---
 cmd/cddlc/commands/generate.go | 18 +++++++++---------
 config/config.go               |  1 +
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 7dc8b13..1a3328a 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -97,16 +97,16 @@ func GenerateCmd(cCtx *cli.Context) error {
 }
 
 func loadConfigFromDir(dir string) (*config.Config, error) {
-	files, err := filepath.Glob(filepath.Join(dir, "cddlc.*"))
-	if err != nil {
-		return nil, err
-	}
-
-	if len(files) == 0 {
-		return nil, errNoConfiguration
+	for _, name := range []string{"cddlc.json", "cddlc.yaml"} {
+		path := filepath.Join(dir, name)
+		if _, err := os.Lstat(path); errors.Is(err, os.ErrNotExist) {
+			continue
+		} else if err != nil {
+			return nil, err
+		}
+		return config.LoadConfig(path)
 	}
-
-	return config.LoadConfig(files[0])
+	return nil, errNoConfiguration
 }
 
 func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
diff --git a/config/config.go b/config/config.go
index 3c40856..9102893 100644
--- a/config/config.go
+++ b/config/config.go
@@ -98,6 +98,7 @@ func LoadConfig(path string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer fh.Close()
 	config := &Config{}
 	switch base {
 	case cDDLC_JSON:
-- 
2.43.0


From 79a82a5091fbeec0aeb37c6152a3dcb8c921c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 03/18] fix: init creates its file exclusively and leaves no
 partial one behind

Two concurrent inits could both pass the existence check and append to the
same file, a dangling link was followed, a failed write left a partial
cddlc.json that made every later init refuse, and Close errors were lost.
---
 cmd/cddlc/commands/init.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 6b36cc6..d08f2b8 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -3,7 +3,6 @@ package commands
 import (
 	"encoding/json"
 	"errors"
-	"io"
 	"os"
 	"path/filepath"
 
@@ -13,23 +12,18 @@ import (
 
 const configFile string = "cddlc.json"
 
-func getFileHandle(name string) (io.Writer, error) {
+func getFileHandle(name string) (*os.File, error) {
 	root, err := os.Getwd()
 	if err != nil {
 		return nil, err
 	}
 	fp := filepath.Join(root, configFile)
 
-	_, err = os.Stat(fp)
-	switch {
-	case err == nil:
-		// file exists
+	f, err := os.OpenFile(fp, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0666)
+	if os.IsExist(err) {
 		return nil, errors.New("existing configuration for project found in " + fp)
-	case os.IsNotExist(err):
-		return os.OpenFile(fp, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
-	default:
-		return nil, err
 	}
+	return f, err
 }
 
 func InitCmd(cCtx *cli.Context) error {
@@ -41,8 +35,13 @@ func InitCmd(cCtx *cli.Context) error {
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "	")
 
-	if err := enc.Encode(conf); err != nil {
-		return err
+	err = enc.Encode(conf)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		// do not leave a partial configuration behind
+		os.Remove(f.Name())
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 5686a2891ee4fb587bc3a121842aba6db4a9ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 04/18] fix: the lexer copies its source instead of appending
 to the caller's buffer

append wrote a blank into the spare capacity of the caller's slice, which
may be the next line of the same buffer, and reuse of the buffer changed
the tokens still to come.
---
 lexer/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0e7eb38..8338cf2 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -50,7 +50,8 @@ func (l *Lexer) addLineOffset(offset int) {
 
 // NewLexer returns a new Lexer given code sourcce in bytes
 func NewLexer(src []byte) *Lexer {
-	src = append(src, 32) // Hack:: trailing byte ignored without adding an ignorable byte
+	// copy: the caller keeps its buffer and the spare capacity behind it
+	src = append(append(make([]byte, 0, len(src)+1), src...), 32) // Hack:: trailing byte ignored without adding an ignorable byte
 	l := &Lexer{
 		src:      src,
 		offset:   0,
-- 
2.43.0


From c04d9a987e893e55f90e4fb2ead4c35a421bf2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 05/18] fix: the lexer advances over bytes that are not valid
 UTF-8

next returned without consuming anything, so any such byte, and a valid
U+FFFD too, made Scan report the same character for ever.
---
 lexer/lexer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 8338cf2..95977c4 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -202,8 +202,8 @@ func (l *Lexer) next() {
 		return
 	}
 	ch, w := utf8.DecodeRune(l.src[l.rdOffset:])
-	if ch == utf8.RuneError {
-		return
+	if ch == utf8.RuneError && w == 1 {
+		l.error(l.rdOffset, "invalid UTF-8 encoding")
 	}
 	l.chr = ch
 	l.offset = l.rdOffset
@@ -385,7 +385,13 @@ func isIdentifierBodyChar(x rune) bool {
 }
 
 func (l *Lexer) error(offset int, message string) {
-	l.Errors = append(l.Errors, Error{Pos: token.Position{Offset: offset}, Msg: message})
+	lenLines := len(l.lineOffsets)
+	pos := token.Position{
+		Offset: offset,
+		Line:   lenLines,
+		Column: offset - l.lineOffsets[lenLines-1],
+	}
+	l.Errors = append(l.Errors, Error{Pos: pos, Msg: message})
 	l.ErrCount += 1
 }
 
-- 
2.43.0


From b86a5475a0a534a8b5cecce183960326e3c66b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 06/18] fix: an unterminated text literal no longer panics or
 loses its last byte

The slice bound assumed a closing quote, so a quote at the end of a line or
of the file made the lexer panic.
---
 lexer/lexer.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 95977c4..a174b06 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -320,19 +320,17 @@ func (l *Lexer) scanOctalDigits() (tok token.Token, lit string) {
 func (l *Lexer) scanString() string {
 	offsetPre := l.offset
 
-	for {
+	for l.chr != '"' {
 		if l.chr < 0 || l.chr == '\n' {
 			l.error(l.offset, "unexpected newline character before string termination")
-			break
-		}
-		if l.chr == '"' {
-			l.next()
-			break
+			return string(l.src[offsetPre:l.offset])
 		}
 		l.next()
 	}
+	lit := string(l.src[offsetPre:l.offset])
+	l.next()
 
-	return string(l.src[offsetPre : l.offset-1])
+	return lit
 }
 
 func isLetter(x rune) bool {
-- 
2.43.0


From a665fed4b0cc31be9387cebcd58896f6b78321ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 07/18] fix: lexer errors are reported as diagnostics

ParseFile returned no tree and no diagnostic when the first tokens had a
lexer error, which crashed its callers, and ignored all later ones, so
damaged sources were accepted.
---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e9fb87a..5a9d549 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -79,11 +79,6 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl := &ast.CDDL{}
 	cddl.Rules = []ast.CDDLEntry{}
 
-	// Don't parse if lexer errors are non zero
-	if len(p.lexer.Errors) != 0 {
-		return nil, nil
-	}
-
 	for p.currToken != token.EOF {
 		cddlEntry, err := p.parseRule()
 		if err != nil {
@@ -102,6 +97,12 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		}
 	}
 
+	for _, lerr := range p.lexer.Errors {
+		err := NewError(lerr.Msg, lerr.Pos, lerr.Pos)
+		err.Prefix = "lexer"
+		p.errorHandler(err)
+	}
+
 	return cddl, p.errors.Collect()
 
 }
-- 
2.43.0


From af6f66a72d82444091283dc0a2974a35b8ef2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 08/18] fix: a trailing comment no longer swallows the name of
 the next rule

parseRule advanced past the comment and ParseFile advanced again.
---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5a9d549..288f4bb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -174,7 +174,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
-		p.next()
 	}
 
 	return rule, nil
-- 
2.43.0


From 7e28263c13c23c1db817f26a862d6202a35fd9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 09/18] fix: malformed operands no longer make the parser
 dereference nil nodes

---
 ast/occurrence.go |  2 +-
 ast/tag.go        | 10 +++++++++-
 parser/parser.go  | 24 ++++++++++--------------
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/ast/occurrence.go b/ast/occurrence.go
index 56b6a77..a60cda6 100644
--- a/ast/occurrence.go
+++ b/ast/occurrence.go
@@ -31,7 +31,7 @@ func (nm *NMOccurrence) Start() token.Position {
 }
 
 func (nm *NMOccurrence) End() token.Position {
-	return nm.M.End()
+	return nm.Item.End()
 }
 
 func (nm *NMOccurrence) groupEntry() {}
diff --git a/ast/tag.go b/ast/tag.go
index 85aba74..bf988f3 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -14,5 +14,13 @@ func (t *Tag) Start() token.Position {
 }
 
 func (t *Tag) End() token.Position {
-	return t.Item.End().To(1) // add )
+	switch {
+	case t.Item != nil:
+		return t.Item.End().To(1) // add )
+	case t.TagNumber != nil:
+		return t.TagNumber.End()
+	case t.Major != nil:
+		return t.Major.End()
+	}
+	return t.Pos
 }
diff --git a/parser/parser.go b/parser/parser.go
index 288f4bb..15181bf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -567,7 +567,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if b, ok := left.(*ast.TstrType); ok {
 		base = b
 	} else {
-		return nil, p.errorUnsupportedTypes(b.Pos, p.currliteral, token.TSTR)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.TSTR)
 	}
 	r := &ast.Regexp{
 		Pos:   p.pos,
@@ -596,7 +596,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	p.next()
 	constraint, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		b.Base = wrapBadNode(constraint)
+		b.Base = &ast.BadNode{Pos: p.pos, Token: p.currToken, Base: constraint, EndPos: p.pos}
 		return b, err
 	}
 	b.Contstraint = constraint
@@ -650,14 +650,6 @@ func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
 
-func wrapBadNode(node ast.Node) *ast.BadNode {
-	return &ast.BadNode{
-		Pos:    node.Start(),
-		Base:   node,
-		EndPos: node.End(),
-	}
-}
-
 func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
@@ -726,8 +718,6 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	var leftI *ast.IntegerType
-
 	switch left.(type) {
 	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
 	default:
@@ -737,7 +727,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	op := &ast.ComparatorOpControl{
 		Pos:      p.pos,
 		Token:    p.currToken,
-		Left:     leftI,
+		Left:     left,
 		Operator: p.currliteral,
 	}
 	if !p.peekToken.IsNumeric() {
@@ -747,7 +737,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 
 	right, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
+		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
 	op.Right = right
 
@@ -764,6 +754,8 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 		bound, err = p.parseFloatBound(val)
 	case *ast.Identifier:
 		bound, err = p.parseIdentBound(val)
+	default:
+		err = p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.IDENT)
 	}
 	return bound, err
 }
@@ -887,6 +879,8 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		b.To = to
 	}
 
 	return b, nil
@@ -932,6 +926,8 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		b.To = to
 	}
 
 	return b, nil
-- 
2.43.0


From 110866782bc6c84b83419d6a2d2ff6b2f86b587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 10/18] fix: a tag without its closing parenthesis is diagnosed

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 15181bf..35388c8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -109,11 +109,10 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 
 func (p *Parser) expectPeek(tok token.Token) bool {
 	if p.peekToken != tok {
-		p.errorTokenExpected(p.peekPos, tok)
 		return false
 	}
 	p.next()
-	return false
+	return true
 }
 
 func (p *Parser) Errors() ErrorList {
@@ -448,7 +447,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		p.expectPeek(token.RPAREN)
+		if !p.expectPeek(token.RPAREN) {
+			return tagBase, p.errorTokenExpected(p.peekPos, token.RPAREN)
+		}
 	}
 	return tagBase, nil
 }
-- 
2.43.0


From 44e15b20df9f8b87fb2052bc0b07ed03d52cb333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 11/18] fix: a long input line no longer ends the repl session

---
 cmd/cddlc/commands/repl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/cddlc/commands/repl.go b/cmd/cddlc/commands/repl.go
index e8e4644..b590d9e 100644
--- a/cmd/cddlc/commands/repl.go
+++ b/cmd/cddlc/commands/repl.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"errors"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 
@@ -21,6 +22,7 @@ const PROMPT string = ">>>"
 
 func Repl(cCtx *cli.Context) error {
 	scanner := bufio.NewScanner(os.Stdin)
+	scanner.Buffer(nil, math.MaxInt) // lines may be of any length
 	parseVerbose := false
 
 	fmt.Println("Welcome to the cddlc quick repl.")
-- 
2.43.0


From 8b9eedf2480deeed6a7a8d1030a7df82b44be335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 12/18] fix: lex and parse report errors of writing their
 listing

---
 cmd/cddlc/commands.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/cddlc/commands.go b/cmd/cddlc/commands.go
index ec2dc4e..eada5a6 100644
--- a/cmd/cddlc/commands.go
+++ b/cmd/cddlc/commands.go
@@ -49,7 +49,9 @@ func LexerCmd(cCtx *cli.Context) error {
 	illegals := 0
 	for {
 		tok, pos, lit := lex.Scan()
-		fmt.Printf("%s: %s -> %s\n", pos, tok, lit)
+		if _, err := fmt.Printf("%s: %s -> %s\n", pos, tok, lit); err != nil {
+			return err
+		}
 		if tok == token.EOF {
 			break
 		}
@@ -91,8 +93,8 @@ func ParseCmd(cCtx *cli.Context) error {
 		fmt.Printf("%+v", ast)
 		return err
 	}
-	fmt.Println(string(b))
-	return nil
+	_, err = fmt.Println(string(b))
+	return err
 }
 
 func DoctorCmd(cCtx *cli.Context) error {
-- 
2.43.0


From c3307050fe451525fc67c8e409e6660a269c9361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 13/18] fix: a configuration followed by other data is refused
 instead of used in part

---
 config/config.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 9102893..555af9c 100644
--- a/config/config.go
+++ b/config/config.go
@@ -5,6 +5,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -102,9 +103,9 @@ func LoadConfig(path string) (*Config, error) {
 	config := &Config{}
 	switch base {
 	case cDDLC_JSON:
-		err = json.NewDecoder(fh).Decode(config)
+		err = decodeOnly(json.NewDecoder(fh), config)
 	case cDDLC_YAML:
-		err = yaml.NewDecoder(fh).Decode(config)
+		err = decodeOnly(yaml.NewDecoder(fh), config)
 	default:
 		err = errors.New("unknown config file base: " + base)
 	}
@@ -115,3 +116,20 @@ func LoadConfig(path string) (*Config, error) {
 
 	return config, nil
 }
+
+// decodeOnly decodes v and reports an error if anything follows it, which would
+// otherwise be ignored.
+func decodeOnly(dec interface{ Decode(interface{}) error }, v interface{}) error {
+	if err := dec.Decode(v); err != nil {
+		return err
+	}
+	var rest interface{}
+	err := dec.Decode(&rest)
+	if err == io.EOF {
+		return nil
+	}
+	if err == nil {
+		err = errors.New("unexpected data after the configuration")
+	}
+	return err
+}
-- 
2.43.0


From d57d66ac282ebd993c2ead50f55da9df9490c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 14/18] fix: a long line is not printed in full with every
 error in it

---
 cmd/cddlc/commands.go          | 22 ++++++++++++++++++++--
 cmd/cddlc/commands/generate.go | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/cmd/cddlc/commands.go b/cmd/cddlc/commands.go
index eada5a6..90caeae 100644
--- a/cmd/cddlc/commands.go
+++ b/cmd/cddlc/commands.go
@@ -118,12 +118,30 @@ func errorStringer(src []byte, errs parser.ErrorList) []string {
 	for _, err := range errs {
 		pos := err.Start()
 		if pos.Line <= lCount {
-			line := string(lines[pos.Line-1])
+			line, column := excerpt(lines[pos.Line-1], pos.Column)
 			lPrefix := fmt.Sprintf("%s%d | ", TAB, pos.Line)
 			outs = append(outs,
-				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, pos.Column+len(lPrefix), "˜"),
+				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, column+len(lPrefix), "˜"),
 			)
 		}
 	}
 	return outs
 }
+
+// excerpt cuts a long line down to what surrounds column. A line can be as long
+// as the source and is shown with every error in it.
+func excerpt(line []byte, column int) (string, int) {
+	const width = 160
+	start := column - width/2
+	if start > len(line)-width {
+		start = len(line) - width
+	}
+	if start < 0 {
+		start = 0
+	}
+	end := start + width
+	if end > len(line) {
+		end = len(line)
+	}
+	return string(line[start:end]), column - start
+}
diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 1a3328a..9b45c8f 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -197,12 +197,30 @@ func errorStringer(src []byte, errs parser.ErrorList) []string {
 	for _, err := range errs {
 		pos := err.Start()
 		if pos.Line <= lCount {
-			line := string(lines[pos.Line-1])
+			line, column := excerpt(lines[pos.Line-1], pos.Column)
 			lPrefix := fmt.Sprintf("%s%d | ", TAB, pos.Line)
 			outs = append(outs,
-				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, pos.Column+len(lPrefix), "˜"),
+				fmt.Sprintf("%s\n%s%s\n%*s", err, lPrefix, line, column+len(lPrefix), "˜"),
 			)
 		}
 	}
 	return outs
 }
+
+// excerpt cuts a long line down to what surrounds column. A line can be as long
+// as the source and is shown with every error in it.
+func excerpt(line []byte, column int) (string, int) {
+	const width = 160
+	start := column - width/2
+	if start > len(line)-width {
+		start = len(line) - width
+	}
+	if start < 0 {
+		start = 0
+	}
+	end := start + width
+	if end > len(line) {
+		end = len(line)
+	}
+	return string(line[start:end]), column - start
+}
-- 
2.43.0


From 601932e4fc1003d5ee730f69d739030b048f4c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 15/18] fix: joining many errors takes linear time

---
 parser/diagnostic.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/diagnostic.go b/parser/diagnostic.go
index 2676301..fd6af37 100644
--- a/parser/diagnostic.go
+++ b/parser/diagnostic.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/HannesKimara/cddlc/errors"
 	"github.com/HannesKimara/cddlc/token"
@@ -62,12 +63,12 @@ type ErrorList []errors.Diagnostic
 
 // String returns the concatenated individual errors.
 func (er ErrorList) String() string {
-	out := ""
+	var out strings.Builder
 	for _, err := range er {
-		out += err.Error() + "\n"
+		out.WriteString(err.Error() + "\n")
 	}
 
-	return out
+	return out.String()
 }
 
 func (er ErrorList) Error() string {
-- 
2.43.0


From 4f8cfcf09903184d69317df5beaedf398f148c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 16/18] fix: two sources configured for one output are refused
 instead of losing one

---
 cmd/cddlc/commands/generate.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 9b45c8f..e8a267f 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -45,6 +45,7 @@ func checkArgs(cCtx *cli.Context, n int) bool {
 
 func GenerateCmd(cCtx *cli.Context) error {
 	var conf *config.Config
+	claimed := map[string]string{} // what each output is generated from
 
 	wd, err := os.Getwd()
 	if err != nil {
@@ -76,6 +77,9 @@ func GenerateCmd(cCtx *cli.Context) error {
 			if filepath.Ext(file.Name()) != ".cddl" {
 				continue
 			}
+			if err := claimOutput(claimed, wd, build, file.Name()); err != nil {
+				return err
+			}
 			if _, err := os.Stat(build.OutDir); errors.Is(err, os.ErrNotExist) {
 				err := os.MkdirAll(build.OutDir, os.ModePerm)
 				if err != nil {
@@ -109,6 +113,22 @@ func loadConfigFromDir(dir string) (*config.Config, error) {
 	return nil, errNoConfiguration
 }
 
+// claimOutput refuses a source whose output another source, or the same one in
+// another package, has been written to: a file can hold the code of only one.
+func claimOutput(claimed map[string]string, wd string, build *config.BuildConfig, name string) error {
+	dir := build.OutDir
+	if !filepath.IsAbs(dir) {
+		dir = filepath.Join(wd, dir)
+	}
+	key := filepath.Join(dir, name)
+	origin := "package `" + build.Package + "` from `" + filepath.Join(build.SourceDir, name) + "`"
+	if other, ok := claimed[key]; ok && other != origin {
+		return errors.New("one output in `" + build.OutDir + "` is configured for both " + other + " and " + origin)
+	}
+	claimed[key] = origin
+	return nil
+}
+
 func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 	gen := gogen.NewGenerator(pkgName)
 	src, err := readSource(filepath)
-- 
2.43.0


From 3236e90ba0e04a0784f41f209f903515ce214d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 17/18] fix: an unterminated text literal is an illegal token

The lexer reported a missing closing quote but still returned a complete
TEXT_LITERAL, so the rule counted as parsed: in a REPL session its name
became defined and the corrected line was refused as a redeclaration.
---
 lexer/lexer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index a174b06..575a710 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -177,8 +177,11 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 				tok = token.PERIOD
 			}
 		case '"':
-			tok = token.TEXT_LITERAL
-			lit = l.scanString()
+			var terminated bool
+			lit, terminated = l.scanString()
+			if terminated {
+				tok = token.TEXT_LITERAL
+			}
 		case EOF:
 			tok = token.EOF
 			lit = ""
@@ -317,20 +320,22 @@ func (l *Lexer) scanOctalDigits() (tok token.Token, lit string) {
 	return token.INT, "0o" + string(l.src[offsetPre:l.offset])
 }
 
-func (l *Lexer) scanString() string {
+// scanString scans a text literal after its opening quote. The second result
+// is false if the line or the source ended before the closing quote.
+func (l *Lexer) scanString() (string, bool) {
 	offsetPre := l.offset
 
 	for l.chr != '"' {
 		if l.chr < 0 || l.chr == '\n' {
 			l.error(l.offset, "unexpected newline character before string termination")
-			return string(l.src[offsetPre:l.offset])
+			return string(l.src[offsetPre:l.offset]), false
 		}
 		l.next()
 	}
 	lit := string(l.src[offsetPre:l.offset])
 	l.next()
 
-	return lit
+	return lit, true
 }
 
 func isLetter(x rune) bool {
-- 
2.43.0


From f6611290446039088aa27cbc9f68fe54f84f1bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 18/18] fix: outputs reached through links are compared by the
 directory they lead to

---
 cmd/cddlc/commands/generate.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index e8a267f..f1a39c8 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -77,9 +77,6 @@ func GenerateCmd(cCtx *cli.Context) error {
 			if filepath.Ext(file.Name()) != ".cddl" {
 				continue
 			}
-			if err := claimOutput(claimed, wd, build, file.Name()); err != nil {
-				return err
-			}
 			if _, err := os.Stat(build.OutDir); errors.Is(err, os.ErrNotExist) {
 				err := os.MkdirAll(build.OutDir, os.ModePerm)
 				if err != nil {
@@ -88,6 +85,9 @@ func GenerateCmd(cCtx *cli.Context) error {
 			} else if err != nil {
 				return errors.New("failed to get stat info on output directory `" + build.OutDir + "` with err: " + err.Error())
 			}
+			if err := claimOutput(claimed, wd, build, file.Name()); err != nil {
+				return err
+			}
 			outPath := filepath.Join(build.OutDir, strings.TrimSuffix(file.Name(), ".cddl")+".go")
 			err := generateFile(cCtx, build.Package, filepath.Join(build.SourceDir, file.Name()), outPath)
 			if err != nil /*&& skip failed not set*/ {
@@ -120,6 +120,10 @@ func claimOutput(claimed map[string]string, wd string, build *config.BuildConfig
 	if !filepath.IsAbs(dir) {
 		dir = filepath.Join(wd, dir)
 	}
+	dir, err := filepath.EvalSymlinks(filepath.Clean(dir))
+	if err != nil {
+		return err
+	}
 	key := filepath.Join(dir, name)
 	origin := "package `" + build.Package + "` from `" + filepath.Join(build.SourceDir, name) + "`"
 	if other, ok := claimed[key]; ok && other != origin {
-- 
2.43.0

