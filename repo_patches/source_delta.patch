From f894c084a5b90e76806f9f491c974136156acf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 01/39] fix: end block comments at their first terminator and
 track positions over line breaks

---
 lexer/lexer.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 330a093..c8baa19 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -284,16 +284,16 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
-		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
-			// Multiline comment.
-			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-			match := matches[0]
-			lines := strings.Split(match, "\n")
-			lastLinesIndex := len(lines) - 1
-			row += lastLinesIndex
-			ogColumn = startIndex
-			i += len(match)
-			ogI = i - len(lines[lastLinesIndex])
+		} else if strings.HasPrefix(source[i:], "/*") {
+			// Multiline comment, ends at the first terminator.
+			comment, _, terminated := strings.Cut(source[i+2:], "*/")
+
+			if !terminated {
+				err = fmt.Errorf("comment at row %d, column %d has not been terminated", ogRow, ogColumn)
+				break
+			}
+			token = newToken(comment, COMMENT, ogRow, ogColumn)
+			i += len(comment) + 4
 		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
@@ -348,6 +348,11 @@ func Tokenize(source string) ([]Token, error) {
 		if token.tokenType == NEWLINE {
 			row++
 			column = startIndex
+		} else if lines := strings.Split(source[ogI:i], "\n"); len(lines) > 1 {
+			// Strings and comments might span several lines.
+			lastLinesIndex := len(lines) - 1
+			row += lastLinesIndex
+			column = startIndex + len(lines[lastLinesIndex])
 		} else {
 			column = ogColumn + (i - ogI)
 		}
-- 
2.43.0


From 9ab1dfde9b423f83756857368de90f7bb906e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 02/39] fix: do not split identifiers which start with true or
 false

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index c8baa19..f85af93 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -298,7 +298,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^(true|false)`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^(true|false)\b`).FindString(source[i:]); match != "" {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From 2cefba23e605bbf9881cdfdc33e808d19f7e328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 03/39] fix: recognise a minus directly before a number as
 operator after an operand

---
 lexer/lexer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index f85af93..8bc6375 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -230,6 +230,21 @@ func char(s string, position int) string {
 	return c
 }
 
+// endsOperand reports if a token of the given type can be the last one of an operand. A
+// following minus is then an operator, otherwise it might be the sign of a number.
+func endsOperand(tokenType TokenType) bool {
+	return slices.Contains([]TokenType{
+		IDENTIFIER,
+		BOOL_LITERAL,
+		NUMBER_LITERAL,
+		STRING_LITERAL,
+		NIL_LITERAL,
+		CLOSING_ROUND_BRACKET,
+		CLOSING_SQUARE_BRACKET,
+		CLOSING_CURLY_BRACKET,
+	}, tokenType)
+}
+
 func Tokenize(source string) ([]Token, error) {
 	var err error = nil
 	tokens := []Token{}
@@ -247,6 +262,7 @@ func Tokenize(source string) ([]Token, error) {
 		ogI := i
 		ogRow := row
 		ogColumn := column
+		afterOperand := len(tokens) > 0 && endsOperand(tokens[len(tokens)-1].tokenType)
 
 		if raw := c0 == "`"; raw || c0 == `"` {
 			// Evaluate string.
@@ -302,7 +318,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" && !(c0 == "-" && afterOperand) {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From 264e4685490cabc8bb1798f55b376da68f02522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 04/39] fix: keep string literals byte for byte like Go's
 unquoting does

---
 lexer/lexer.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 8bc6375..adbbca7 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -6,6 +6,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type TokenType int8
@@ -266,32 +267,38 @@ func Tokenize(source string) ([]Token, error) {
 
 		if raw := c0 == "`"; raw || c0 == `"` {
 			// Evaluate string.
-			str := ""
+			str := []byte{}
 			i++
 
 			for i < sourceLength {
 				c0 = char(source, i)
 				appended := false
 
-				if match := regexp.MustCompile(`^\\.`).FindString(source[i:]); !raw && match != "" {
-					// Convert escaped character to be a control character (https://pkg.go.dev/strconv#Unquote).
-					parsed, err := strconv.Unquote(fmt.Sprintf(`"%s"`, match))
+				if !raw && c0 == `\` {
+					// Convert escaped character to be a control character (https://pkg.go.dev/strconv#UnquoteChar).
+					parsed, multibyte, tail, err := strconv.UnquoteChar(source[i:], '"')
 
 					if err != nil {
-						return nil, fmt.Errorf(`invalid escape sequence "%s"`, match)
+						return nil, fmt.Errorf(`invalid escape sequence at row %d, column %d`, ogRow, ogColumn)
+					} else if multibyte {
+						str = utf8.AppendRune(str, parsed)
+					} else {
+						str = append(str, byte(parsed))
 					}
-					str += parsed
-					i += len(match)
+					i = sourceLength - len(tail)
 					appended = true
 				} else if (raw && c0 == "`") || (!raw && c0 == `"`) {
 					// Detected string end.
 					i++
-					token = newToken(str, STRING_LITERAL, ogRow, ogColumn)
+					token = newToken(string(str), STRING_LITERAL, ogRow, ogColumn)
 					break
 				}
 
 				if !appended {
-					str += c0
+					// Carriage returns are not part of raw strings (https://go.dev/ref/spec#String_literals).
+					if !raw || source[i] != '\r' {
+						str = append(str, source[i])
+					}
 					i++
 				}
 			}
-- 
2.43.0


From 4de18a751fbb0f7bf9b11a3bb94bf5a06a1ee0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 05/39] fix: assign to the variable which has been defined
 instead of a new one of the same name

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 819565f..613a934 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1279,7 +1279,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		if valueType != expectedValueType {
 			return nil, p.expectedError(fmt.Sprintf("%s but got %s", expectedValueType.String(), valueType.String()), valuesToken)
 		}
-		variables = append(variables, NewVariable(name, valueType, ctx.global(), isPublic(name)))
+		variables = append(variables, definedVariable)
 	}
 
 	if isMultiReturnFuncCall {
-- 
2.43.0


From 89157c8654f0eaa1aa39737144774b339f487220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 06/39] fix: find globals of imported files within their
 functions, blocks and loop headers

---
 parser/parser.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 613a934..0f7101d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -126,8 +126,12 @@ func (c context) findImport(alias string) (string, bool) {
 	return hash, exists
 }
 
-func (c context) findVariable(name string, prefix string, global bool) (Variable, bool) {
-	prefixedName, err := c.buildPrefixedName(name, prefix, global, true)
+func (c context) findVariable(name string, prefix string) (Variable, bool) {
+	// Variables which are local to a block or a function are stored without prefix.
+	if variable, exists := c.variables[strings.TrimSpace(name)]; exists {
+		return variable, exists
+	}
+	prefixedName, err := c.buildPrefixedName(name, prefix, true, true)
 
 	if err != nil {
 		return Variable{}, false
@@ -431,7 +435,7 @@ func (p *Parser) isShortVarInit() bool {
 
 func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error {
 	name := token.Value()
-	_, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	_, exists := ctx.findVariable(name, p.prefix)
 
 	if exists {
 		return p.atError(fmt.Sprintf("variable %s has already been defined", name), token)
@@ -1052,7 +1056,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		prefix := p.prefix
 		global := ctx.global()
 		name := nameToken.Value()
-		variable, exists := ctx.findVariable(name, prefix, global)
+		variable, exists := ctx.findVariable(name, prefix)
 		variableValueType := variable.ValueType()
 
 		// If the variable already exists, make sure it has the same type as the specified type.
@@ -1197,7 +1201,7 @@ func (p *Parser) evaluateCompoundAssignment(ctx context) (Statement, error) {
 	name := nameToken.Value()
 
 	// Make sure variable has been defined.
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1268,7 +1272,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		name := nameToken.Value()
 
 		// Make sure variable has been defined.
-		definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+		definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 		if !exists {
 			return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1311,7 +1315,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		p.eat()
 
 		name := nameToken.Value()
-		_, exists := ctx.findVariable(name, p.prefix, false)
+		_, exists := ctx.findVariable(name, p.prefix)
 
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
@@ -1954,7 +1958,7 @@ func (p *Parser) evaluateVarEvaluation(ctx context) (Expression, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
@@ -2185,7 +2189,7 @@ func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 					stmt, err = p.evaluateVarAssignment(ctx)
 				default:
 					// Handle slice assignment.
-					variable, exists := ctx.findVariable(token.Value(), p.prefix, ctx.global())
+					variable, exists := ctx.findVariable(token.Value(), p.prefix)
 
 					// If variable has been defined and is a slice, handles slice assignment.
 					if exists && variable.ValueType().IsSlice() {
@@ -2673,7 +2677,7 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 		return nil, p.expectedError("slice variable", nameToken)
 	}
 	name := nameToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -2735,7 +2739,7 @@ func (p *Parser) evaluateIncrementDecrement(ctx context) (Statement, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
-- 
2.43.0


From 51df43ec475c8bdd42a7fdb947a4ebb381ed69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:55 +0000
Subject: [PATCH 07/39] fix: keep variable and type when a variable is
 re-defined along with new ones

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0f7101d..c21c532 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1063,6 +1063,12 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		if exists && specifiedType.DataType() != DATA_TYPE_UNKNOWN && !specifiedType.Equals(variableValueType) {
 			return nil, p.atError(fmt.Sprintf(`variable "%s" already exists but has type %s`, name, variableValueType.String()), nextToken)
 		}
+
+		// If a variable is re-defined, keep using it. Globals are not re-defined by functions.
+		if exists && !(variable.Global() && ctx.findScope(SCOPE_FUNCTION)) {
+			variables = append(variables, variable)
+			continue
+		}
 		storedName := name
 
 		if global {
-- 
2.43.0


From b9a642d2aae9be622cefe3e7a2fb7b4618f908b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 08/39] fix: reject names which are repeated within one
 definition, parameter list or range header

---
 parser/parser.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c21c532..a23d2df 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -22,6 +22,8 @@ var typeMapping = map[lexer.VarType]DataType{
 	lexer.DATA_TYPE_ERROR:   DATA_TYPE_STRING, // error is internally just a string to make heandling easier.
 }
 
+const BLANK_IDENTIFIER = "_"
+
 type scope string
 
 const (
@@ -443,6 +445,20 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 	return nil
 }
 
+func (p *Parser) checkUniqueNameTokens(tokens []lexer.Token) error {
+	names := map[string]bool{}
+
+	for _, token := range tokens {
+		name := token.Value()
+
+		if names[name] && name != BLANK_IDENTIFIER {
+			return p.atError(fmt.Sprintf("%s is repeated", name), token)
+		}
+		names[name] = true
+	}
+	return nil
+}
+
 func (p *Parser) getUsedFuncs(startFunc string) []string {
 	usedFuncs := []string{}
 	startFunc = strings.TrimSpace(startFunc)
@@ -989,6 +1005,11 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 	}
 	nameTokensLength := len(nameTokens)
 	firstNameToken := nameTokens[0]
+	err = p.checkUniqueNameTokens(nameTokens)
+
+	if err != nil {
+		return nil, err
+	}
 
 	// Check if all variables are already defined.
 	if nameTokensLength > 1 {
@@ -1065,7 +1086,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		}
 
 		// If a variable is re-defined, keep using it. Globals are not re-defined by functions.
-		if exists && !(variable.Global() && ctx.findScope(SCOPE_FUNCTION)) {
+		if exists && name != BLANK_IDENTIFIER && !(variable.Global() && ctx.findScope(SCOPE_FUNCTION)) {
 			variables = append(variables, variable)
 			continue
 		}
@@ -1306,6 +1327,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 
 func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 	params := []Variable{}
+	nameTokens := []lexer.Token{}
 
 	for {
 		nameToken := p.peek()
@@ -1321,6 +1343,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		p.eat()
 
 		name := nameToken.Value()
+		nameTokens = append(nameTokens, nameToken)
 		_, exists := ctx.findVariable(name, p.prefix)
 
 		if exists {
@@ -1341,7 +1364,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		}
 		params = append(params, NewVariable(name, valueType, false, false))
 	}
-	return params, nil
+	return params, p.checkUniqueNameTokens(nameTokens)
 }
 
 func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
@@ -1752,6 +1775,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		if err != nil {
 			return nil, err
 		}
+		indexVarToken := nextToken
 		indexVarName := nextToken.Value()
 		nextToken = p.peek()
 		valueVarName := ""
@@ -1763,7 +1787,10 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			if nextToken.Type() != lexer.IDENTIFIER {
 				return nil, p.expectedIdentifierError(nextToken)
 			}
-			err = p.checkNewVariableNameToken(nextToken, ctx)
+			err = errors.Join(
+				p.checkNewVariableNameToken(nextToken, ctx),
+				p.checkUniqueNameTokens([]lexer.Token{indexVarToken, nextToken}),
+			)
 
 			if err != nil {
 				return nil, err
-- 
2.43.0


From e1700d203dcfefc176cc31a796f2c8f696c8a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 09/39] fix: link every imported file exactly once, whatever
 path or alias it is reached by

---
 parser/parser.go | 124 +++++++++++++++++++++++++++++------------------
 1 file changed, 77 insertions(+), 47 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a23d2df..b9a501f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -186,6 +186,13 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 	return multi, call
 }
 
+// importedFile stores the result of a parsed file, so that every file gets parsed (and linked) only once.
+type importedFile struct {
+	prefix  string
+	program Program
+	done    bool // False as long as the file is being parsed.
+}
+
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
@@ -194,12 +201,14 @@ type Parser struct {
 	path      string
 	prefix    string
 	currFunc  string
-	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	usedFuncs map[string][]string      // Stores which function (key) calls which functions (values).
+	files     map[string]*importedFile // Stores the file path to imported file relation.
 }
 
 func New() Parser {
 	return Parser{
 		usedFuncs: map[string][]string{},
+		files:     map[string]*importedFile{},
 	}
 }
 
@@ -224,6 +233,11 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	}
 	source, err := os.ReadFile(path)
 
+	if err != nil {
+		return Program{}, err
+	}
+	resolvedPath, err := filepath.EvalSymlinks(path)
+
 	if err != nil {
 		return Program{}, err
 	}
@@ -243,12 +257,17 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		h.Write(source)
 
 		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		p.prefix = p.uniquePrefix(p.prefix)
 	}
+	file := &importedFile{prefix: p.prefix}
+	p.files[resolvedPath] = file
 	program, err := p.evaluateProgram()
 
 	if err != nil {
 		return Program{}, err
 	}
+	file.program = program
+	file.done = true
 
 	// If this is the original program, removed unused stuff.
 	if !imported {
@@ -257,6 +276,51 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	return program, nil
 }
 
+// uniquePrefix makes sure that different files don't share a prefix (e.g. if their content is the same).
+func (p *Parser) uniquePrefix(prefix string) string {
+	uniquePrefix := prefix
+
+	for i := 2; true; i++ {
+		used := false
+
+		for _, file := range p.files {
+			used = used || file.prefix == uniquePrefix
+		}
+
+		if !used {
+			break
+		}
+		uniquePrefix = fmt.Sprintf("%sx%d", prefix, i)
+	}
+	return uniquePrefix
+}
+
+// importFile parses a file if that hasn't been done yet, otherwise it returns the already parsed file.
+func (p *Parser) importFile(path string) (file *importedFile, first bool, err error) {
+	resolvedPath, err := filepath.EvalSymlinks(path)
+
+	if err != nil {
+		return nil, false, err
+	}
+	file, exists := p.files[resolvedPath]
+
+	if exists {
+		if !file.done {
+			return nil, false, fmt.Errorf(`import cycle at "%s" in "%s"`, path, p.path)
+		}
+		return file, false, nil
+	}
+	importParser := New()
+	importParser.usedFuncs = p.usedFuncs
+	importParser.files = p.files
+	_, err = importParser.parse(path, true)
+
+	if err != nil {
+		return nil, false, err
+	}
+	return p.files[resolvedPath], true, nil
+}
+
 func allowedBinaryOperators(t ValueType) []BinaryOperator {
 	operators := []BinaryOperator{}
 
@@ -648,7 +712,7 @@ func (p *Parser) evaluateProgram() (Program, error) {
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	var nextToken lexer.Token
-	statementsTemp := []Statement{}
+	statements := []Statement{}
 
 	// Skip empty characters.
 	for {
@@ -711,8 +775,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
-			importParser := New()
-			importedProg, err := importParser.parse(absPath, true)
+			file, first, err := p.importFile(absPath)
 
 			if err != nil {
 				return nil, err
@@ -721,26 +784,24 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if _, exists := ctx.findImport(alias); exists {
 				return nil, fmt.Errorf(`import alias "%s" already exists`, alias)
 			}
-			err = ctx.addImport(alias, importParser.prefix)
+			err = ctx.addImport(alias, file.prefix)
 
 			if err != nil {
 				return nil, err
 			}
-			statementsTemp = append(statementsTemp, importedProg.Body()...)
 
-			// Import-parser funcs with current parser funcs.
-			for funcName, usedFuncs := range importParser.usedFuncs {
-				if foundUsedFuncs, exists := p.usedFuncs[funcName]; !exists {
-					p.usedFuncs[funcName] = usedFuncs
-				} else {
-					for _, usedFunc := range foundUsedFuncs {
-						if !slices.Contains(foundUsedFuncs, usedFunc) {
-							p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
-						}
-					}
+			// Add public functions.
+			for _, statement := range file.program.Body() {
+				if definedFunction, ok := statement.(FunctionDefinition); ok && definedFunction.Public() {
+					ctx.functions[definedFunction.Name()] = definedFunction
 				}
 			}
 
+			// Prevent code duplication.
+			if first {
+				statements = append(statements, file.program.Body()...)
+			}
+
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
 
@@ -756,37 +817,6 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 		}
 	}
-	statements := []Statement{}
-
-	// Add functions add variables.
-	for _, statement := range statementsTemp {
-		exists := false
-
-		switch statement.StatementType() {
-		case STATEMENT_TYPE_VAR_DEFINITION:
-			definedVariable := statement.(VariableDefinition)
-
-			for _, variable := range definedVariable.Variables() {
-				name := variable.Name()
-
-				if _, exists = ctx.variables[name]; !exists && variable.Public() {
-					ctx.variables[name] = variable
-				}
-			}
-		case STATEMENT_TYPE_FUNCTION_DEFINITION:
-			definedFunction := statement.(FunctionDefinition)
-			name := definedFunction.Name()
-
-			if _, exists = ctx.functions[name]; !exists && definedFunction.Public() {
-				ctx.functions[name] = definedFunction
-			}
-		}
-
-		// Prevent code duplication.
-		if !exists {
-			statements = append(statements, statement)
-		}
-	}
 	return statements, nil
 }
 
-- 
2.43.0


From 07fca90022071390d17f34954e61564fbbbf3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 10/39] fix: visit every used function just once

---
 parser/parser.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b9a501f..1df6434 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -524,24 +524,20 @@ func (p *Parser) checkUniqueNameTokens(tokens []lexer.Token) error {
 }
 
 func (p *Parser) getUsedFuncs(startFunc string) []string {
-	usedFuncs := []string{}
 	startFunc = strings.TrimSpace(startFunc)
+	usedFuncs := slices.Clone(p.usedFuncs[startFunc])
+	visited := map[string]bool{}
 
-	if usedFuncsTemp, exists := p.usedFuncs[startFunc]; exists {
-		if len(startFunc) > 0 && !slices.Contains(usedFuncs, startFunc) {
-			usedFuncs = append(usedFuncs, startFunc)
-		}
-
-		for _, usedFuncTemp := range usedFuncsTemp {
-			if !slices.Contains(usedFuncs, usedFuncTemp) {
-				usedFuncs = append(usedFuncs, usedFuncTemp)
-			}
-			usedSubFuncs := p.getUsedFuncs(usedFuncTemp)
+	for _, usedFunc := range usedFuncs {
+		visited[usedFunc] = true
+	}
 
-			for _, usedSubFunc := range usedSubFuncs {
-				if !slices.Contains(usedFuncs, usedSubFunc) {
-					usedFuncs = append(usedFuncs, usedSubFunc)
-				}
+	// Visit every function just once as the number of call paths might grow exponentially.
+	for i := 0; i < len(usedFuncs); i++ {
+		for _, usedFunc := range p.usedFuncs[usedFuncs[i]] {
+			if !visited[usedFunc] {
+				visited[usedFunc] = true
+				usedFuncs = append(usedFuncs, usedFunc)
 			}
 		}
 	}
-- 
2.43.0


From 162726036ff6eba3b2a22b544076af75e193b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 11/39] fix: allow blank and comment lines in import groups and
 before the first case

---
 parser/parser.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1df6434..5b3d0e4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -492,6 +492,12 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+func (p *Parser) skipNewlines() {
+	for p.peek().Type() == lexer.NEWLINE {
+		p.eat()
+	}
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -711,13 +717,8 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	statements := []Statement{}
 
 	// Skip empty characters.
-	for {
-		nextToken = p.peek()
-		if !slices.Contains([]lexer.TokenType{lexer.NEWLINE}, nextToken.Type()) {
-			break
-		}
-		p.eat()
-	}
+	p.skipNewlines()
+	nextToken = p.peek()
 
 	if nextToken.Type() == lexer.IMPORT {
 		p.eat()
@@ -731,6 +732,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if nextToken.Type() != lexer.NEWLINE {
 				return nil, p.expectedNewlineError(nextToken)
 			}
+			p.skipNewlines()
 		}
 
 		for {
@@ -798,6 +800,9 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				statements = append(statements, file.program.Body()...)
 			}
 
+			if multiple {
+				p.skipNewlines()
+			}
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
 
@@ -1708,6 +1713,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		},
 	}
 	useMock := true
+	p.skipNewlines()
 	nextToken = p.peek()
 	defaultSet := false
 
-- 
2.43.0


From ef0a3970364fb8d99e7339711ba2e2a9c77cfc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 12/39] fix: reject calls without or with several return values
 where exactly one value is required

---
 parser/function.go |  4 +++-
 parser/parser.go   | 45 ++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c330183..21bd4b0 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -67,8 +67,10 @@ func functionValueType(returnTypes []ValueType) ValueType {
 
 	if len(returnTypes) > 1 {
 		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
-	} else {
+	} else if len(returnTypes) == 1 {
 		valueType = returnTypes[0]
+	} else {
+		valueType = NewValueType(DATA_TYPE_UNKNOWN, false) // Functions without return value don't have a type.
 	}
 	return valueType
 }
diff --git a/parser/parser.go b/parser/parser.go
index 5b3d0e4..c36b0c4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -604,8 +604,7 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 		funcName := ""
 
 		// If expression is a function, check if it returns a value.
-		if expr.StatementType() == STATEMENT_TYPE_FUNCTION_CALL {
-			call := expr.(FunctionCall)
+		if call, ok := expr.(Call); ok {
 			returnValuesLength = len(call.ReturnTypes())
 			funcName = call.Name()
 
@@ -613,22 +612,30 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 				return evaluatedValues{}, p.expectedError(fmt.Sprintf(`return value from function "%s"`, funcName), exprToken)
 			}
 		}
+		// If there are other values, function must only return one value.
+		if returnValuesLength > 1 && (len(expressions) > 1 || nextToken.Type() == lexer.COMMA) {
+			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
+		}
+
 		// Check if other values follow.
 		if nextToken.Type() != lexer.COMMA {
 			break
 		}
 		p.eat() // Eat comma token.
-
-		// If other values follow, function must only return one value.
-		if returnValuesLength > 1 {
-			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
-		}
 	}
 	return evaluatedValues{
 		values: expressions,
 	}, nil
 }
 
+// checkSingleValue makes sure that an expression has exactly one value.
+func (p *Parser) checkSingleValue(expr Expression, token lexer.Token) error {
+	if slices.Contains([]DataType{DATA_TYPE_UNKNOWN, DATA_TYPE_MULTIPLE}, expr.ValueType().DataType()) {
+		return p.expectedError("exactly one value", token)
+	}
+	return nil
+}
+
 func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword string, minArgs int, maxArg int, ctx context, stmtCallout func(keywordToken lexer.Token, expressions []Expression) (Statement, error)) (Statement, error) {
 	keywordToken := p.eat()
 
@@ -667,6 +674,17 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 	}
 	expressionsLength := len(expressions)
 
+	// Only print supports several return values, if the call is its only argument.
+	for _, expr := range expressions {
+		if tokenType != lexer.PRINT || expressionsLength > 1 || expr.ValueType().DataType() != DATA_TYPE_MULTIPLE {
+			err := p.checkSingleValue(expr, keywordToken)
+
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	if minArgs < 0 {
 		minArgs = 0
 	}
@@ -1687,6 +1705,11 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	} else {
 		switchExpr, err = p.evaluateExpression(ctx)
 
+		if err != nil {
+			return nil, err
+		}
+		err = p.checkSingleValue(switchExpr, exprToken)
+
 		if err != nil {
 			return nil, err
 		}
@@ -2077,8 +2100,14 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 	// Handle groups.
 	case lexer.OPENING_ROUND_BRACKET:
 		p.eat() // Eat opening bracket.
+		childToken := p.peek()
 		child, err := p.evaluateExpression(ctx)
 
+		if err != nil {
+			return nil, err
+		}
+		err = p.checkSingleValue(child, childToken)
+
 		if err != nil {
 			return nil, err
 		}
@@ -2436,6 +2465,8 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 			if !lastParamType.Equals(lastArgType) {
 				return nil, p.expectedError(fmt.Sprintf("parameter %s (%s) but got %s", lastParamType.String(), param.Name(), lastArgType.String()), argToken)
 			}
+		} else if err = p.checkSingleValue(expr, argToken); err != nil {
+			return nil, err
 		}
 		nextToken = p.peek()
 		tokenType := nextToken.Type()
-- 
2.43.0


From 736129687a84c2d30267e9168d50401fa355a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 13/39] fix: reject break outside of loops

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index c36b0c4..083f4a0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1583,7 +1583,7 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 
 func (p *Parser) evaluateBreak(ctx context) (Statement, error) {
 	breakToken := p.eat()
-	breakScopes := []scope{SCOPE_FOR, SCOPE_SWITCH}
+	breakScopes := []scope{SCOPE_FOR} // TODO: Support break within switch outside of loops.
 	scopeOk := false
 
 	for _, breakScope := range breakScopes {
-- 
2.43.0


From ad2848dc5839d364ac8cac0c2202a204496fe9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 14/39] fix: check type of logical right operands, written
 data, input prompts and slice element values

---
 parser/parser.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 083f4a0..dc32cc8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2404,11 +2404,16 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		}
 		p.eat() // Eat operator token.
 		operatorValue := operatorToken.Value()
+		rightToken := p.peek()
 		rightExpression, errTemp := higherPrioOperation(ctx)
 
 		if errTemp != nil {
 			return nil, errTemp
 		}
+
+		if !rightExpression.ValueType().IsBool() {
+			return nil, p.expectedError("boolean value", rightToken)
+		}
 		leftExpression = LogicalOperation{
 			left:     leftExpression,
 			operator: operatorValue,
@@ -2815,11 +2820,11 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 	if err != nil {
 		return nil, err
 	}
-	variableDataType := variableValueType.DataType()
-	assignedDataType := value.ValueType().DataType()
+	elementValueType := NewValueType(variableValueType.DataType(), false)
+	assignedValueType := value.ValueType()
 
-	if variableDataType != assignedDataType {
-		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", variableDataType, assignedDataType), valueToken)
+	if !elementValueType.Equals(assignedValueType) {
+		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", elementValueType.String(), assignedValueType.String()), valueToken)
 	}
 	return SliceAssignment{
 		Variable: variable,
@@ -2884,6 +2889,10 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 		if len(expressions) > 0 {
 			expr = expressions[0]
+
+			if !expr.ValueType().IsString() {
+				return nil, p.expectedError("prompt string", keywordToken)
+			}
 		}
 		return Input{
 			prompt: expr,
@@ -3011,7 +3020,7 @@ func (p *Parser) evaluateWrite(ctx context) (Expression, error) {
 		}
 		data := expressions[1]
 
-		if !path.ValueType().IsString() {
+		if !data.ValueType().IsString() {
 			return nil, p.expectedError("data string as second parameter", keywordToken)
 		}
 		var append Expression = BooleanLiteral{false}
-- 
2.43.0


From 4e24a40508f351b822c21a428aa9edcf8e02a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 15/39] fix: check the values of every return statement against
 the return types of its function

---
 parser/literals.go       |  1 +
 parser/parser.go         | 65 ++++++++++++++++++++++++++--------------
 transpiler/transpiler.go | 12 ++++++++
 3 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/parser/literals.go b/parser/literals.go
index 8171ee3..f3eebdc 100644
--- a/parser/literals.go
+++ b/parser/literals.go
@@ -34,6 +34,7 @@ func (l IntegerLiteral) Value() int {
 
 type StringLiteral struct {
 	value string
+	isNil bool
 }
 
 func (l StringLiteral) StatementType() StatementType {
diff --git a/parser/parser.go b/parser/parser.go
index dc32cc8..c0859a8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -196,13 +196,14 @@ type importedFile struct {
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
-	tokens    []lexer.Token
-	index     int
-	path      string
-	prefix    string
-	currFunc  string
-	usedFuncs map[string][]string      // Stores which function (key) calls which functions (values).
-	files     map[string]*importedFile // Stores the file path to imported file relation.
+	tokens          []lexer.Token
+	index           int
+	path            string
+	prefix          string
+	currFunc        string
+	currReturnTypes []ValueType
+	usedFuncs       map[string][]string      // Stores which function (key) calls which functions (values).
+	files           map[string]*importedFile // Stores the file path to imported file relation.
 }
 
 func New() Parser {
@@ -1512,6 +1513,7 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 
 	// Make sure sub-statements know in which function they are currently in.
 	p.currFunc = prefixedName
+	p.currReturnTypes = returnTypes
 
 	statements, err := p.evaluateBlock(func(statements []Statement, last bool) error {
 		var errTemp error
@@ -1528,22 +1530,8 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 				// TODO: Add token position to errors to raise clearer error messages.
 				if lastStatement == nil || lastStatement.StatementType() != STATEMENT_TYPE_RETURN {
 					errTemp = fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
-				} else if returnStatement := lastStatement.(Return); len(returnStatement.Values()) != len(returnTypes) {
-					errTemp = fmt.Errorf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(returnStatement.Values()))
-				} else {
-					for i, returnValue := range returnStatement.Values() {
-						returnType := returnTypes[i]
-						returnValueType := returnValue.ValueType()
-
-						if !returnValueType.Equals(returnType) {
-							errTemp = fmt.Errorf(`function "%s" returns %s but expects %s`, name, returnValueType.String(), returnType.String())
-							break
-						}
-					}
 				}
 			}
-		} else if lastStatement != nil && lastStatement.StatementType() == STATEMENT_TYPE_RETURN {
-			errTemp = fmt.Errorf("function %s must not have a return statement", name)
 		}
 		return errTemp
 	}, ctx, SCOPE_FUNCTION)
@@ -1571,11 +1559,42 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 	if returnToken.Type() != lexer.RETURN {
 		return nil, p.expectedKeywordError("return", returnToken)
 	}
+	name := strings.TrimPrefix(p.currFunc, buildPrefixedName(p.prefix, ""))
+	returnTypes := p.currReturnTypes
+
+	if len(returnTypes) == 0 {
+		return nil, fmt.Errorf("function %s must not have a return statement", name)
+	}
 	evaluatedVals, err := p.evaluateValues(ctx)
 
 	if err != nil {
 		return nil, err
 	}
+	valuesTypes := []ValueType{}
+
+	// If it's a multi return function call all its values are returned.
+	if isMultiReturnFuncCall, call := evaluatedVals.isMultiReturnCall(); isMultiReturnFuncCall {
+		valuesTypes = call.ReturnTypes()
+	} else {
+		for i, value := range evaluatedVals.values {
+			// If nil is returned as slice, return an empty slice.
+			if literal, ok := value.(StringLiteral); ok && literal.isNil && i < len(returnTypes) && returnTypes[i].IsSlice() {
+				value = SliceInstantiation{dataType: returnTypes[i].DataType()}
+				evaluatedVals.values[i] = value
+			}
+			valuesTypes = append(valuesTypes, value.ValueType())
+		}
+	}
+
+	if len(valuesTypes) != len(returnTypes) {
+		return nil, fmt.Errorf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(valuesTypes))
+	}
+
+	for i, returnType := range returnTypes {
+		if !valuesTypes[i].Equals(returnType) {
+			return nil, fmt.Errorf(`function "%s" returns %s but expects %s`, name, valuesTypes[i].String(), returnType.String())
+		}
+	}
 	return Return{
 		values: evaluatedVals.values,
 	}, nil
@@ -2089,8 +2108,8 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 			value: integer,
 		}
 	case lexer.NIL_LITERAL:
-		p.eat()                // Eat string token.
-		expr = StringLiteral{} // nil is an empty string literal.
+		p.eat()                           // Eat string token.
+		expr = StringLiteral{isNil: true} // nil is an empty string literal.
 	case lexer.STRING_LITERAL:
 		p.eat() // Eat string token.
 		expr = StringLiteral{
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 6787bb6..dd710b1 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -556,6 +556,18 @@ func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
 		if err != nil {
 			return err
 		}
+		call, isCall := expr.(parser.Call)
+
+		// A multi return function call provides all the values to return.
+		if isCall && len(call.ReturnTypes()) > 1 {
+			for i, returnType := range call.ReturnTypes() {
+				returnValues = append(returnValues, ReturnValue{
+					value:     result.values[i],
+					valueType: returnType,
+				})
+			}
+			continue
+		}
 		returnValues = append(returnValues, ReturnValue{
 			value:     result.firstValue(),
 			valueType: expr.ValueType(),
-- 
2.43.0


From 8ebf75661ea76e1e167122c87453ece8df087695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 16/39] fix: accept chained comparisons and repeated negations
 like Go does

---
 parser/parser.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c0859a8..7990f04 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2204,14 +2204,14 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 // Learnt a lot about priority handling from this video https://www.youtube.com/watch?v=aAvL2BTHf60.
 // Precedence is the same as in Go (https://go.dev/ref/spec#Operator_precedence).
 func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
-	nextToken := p.peek()
-	negate := false
+	negations := 0
+
+	for p.peek().Type() == lexer.UNARY_OPERATOR {
+		nextToken := p.eat()
 
-	if nextToken.Type() == lexer.UNARY_OPERATOR {
 		// Use nested if for possible future unary operators.
 		if nextToken.Value() == UNARY_OPERATOR_NEGATE {
-			negate = true
-			p.eat()
+			negations++
 		}
 	}
 	valueToken := p.peek()
@@ -2221,12 +2221,17 @@ func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 		return nil, err
 	}
 
-	if negate {
+	if negations > 0 {
 		valueType := expr.ValueType()
 
 		if !valueType.IsBool() {
 			return nil, p.expectedError("boolean value", valueToken)
 		}
+
+		// Two negations neutralize each other.
+		if negations%2 == 0 {
+			return expr, nil
+		}
 		return UnaryOperation{
 			expr:      expr,
 			operator:  UNARY_OPERATOR_NEGATE,
@@ -2377,12 +2382,17 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
-	operatorToken := p.peek()
-	operator := operatorToken.Value()
 
-	if operatorToken.Type() == lexer.COMPARE_OPERATOR {
+	// To implement associativity, use for-loop and keep appending comparisons.
+	for {
+		operatorToken := p.peek()
+		operator := operatorToken.Value()
+
+		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
+			break
+		}
 		p.eat() // Eat operator token.
-		rightExpression, err := p.evaluateComparison(ctx)
+		rightExpression, err := p.evaluateAddition(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2398,7 +2408,7 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if !slices.Contains(allowedOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		return NewComparison(leftExpression, operator, rightExpression), nil
+		leftExpression = NewComparison(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
-- 
2.43.0


From 41df7274f0cb9f4a1e8cdf1f25f1134c6cfffdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 17/39] fix: evaluate string, start and end of a subscript once
 and in order

---
 parser/parser.go         | 27 +++++++++++++--------------
 parser/string.go         | 12 ++++++------
 transpiler/transpiler.go | 22 +++++++++++++++++-----
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7990f04..64525e8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2749,18 +2749,15 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	}
 	nextToken = p.peek()
 	endToken := nextToken
-	endIndex := startIndex
+	toEnd := false
+	var endIndex Expression
 
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
-		// If range but no end-index is provided, create one by using Len-expression.
-		if gotRange {
-			endIndex = BinaryOperation{
-				left:     Len{value},
-				operator: BINARY_OPERATOR_SUBTRACTION,
-				right:    IntegerLiteral{1},
-			}
-		}
+		// If range but no end-index is provided, use everything to the end.
+		toEnd = gotRange
 		p.eat() // Eat square bracket.
+	} else if !gotRange {
+		return nil, p.expectedError(`":" or "]"`, nextToken)
 	} else {
 		endIndex, err = p.evaluateExpression(ctx)
 
@@ -2773,6 +2770,12 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			return nil, p.expectedError(`"]"`, nextToken)
 		}
 
+		endIndexValueType := endIndex.ValueType()
+
+		if !endIndexValueType.IsInt() {
+			return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+		}
+
 		// End-index is not included.
 		endIndex = BinaryOperation{
 			left:     endIndex,
@@ -2780,17 +2783,13 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			right:    IntegerLiteral{1},
 		}
 	}
-	endIndexValueType := endIndex.ValueType()
-
-	if !endIndexValueType.IsInt() {
-		return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
-	}
 
 	if !isSlice {
 		return StringSubscript{
 			value:      value,
 			startIndex: startIndex,
 			endIndex:   endIndex,
+			toEnd:      toEnd,
 		}, nil
 	}
 	return SliceEvaluation{
diff --git a/parser/string.go b/parser/string.go
index 0a80b43..7298e18 100644
--- a/parser/string.go
+++ b/parser/string.go
@@ -4,6 +4,7 @@ type StringSubscript struct {
 	value      Expression
 	startIndex Expression
 	endIndex   Expression
+	toEnd      bool
 }
 
 func (s StringSubscript) StatementType() StatementType {
@@ -22,12 +23,11 @@ func (s StringSubscript) StartIndex() Expression {
 	return s.startIndex
 }
 
+// EndIndex returns nil, if just the character at the start index or everything up to the end is evaluated.
 func (s StringSubscript) EndIndex() Expression {
-	endIndex := s.endIndex
+	return s.endIndex
+}
 
-	// Automatically define end-index.
-	if endIndex == nil {
-		endIndex = s.startIndex
-	}
-	return endIndex
+func (s StringSubscript) ToEnd() bool {
+	return s.toEnd
 }
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index dd710b1..358b5af 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -499,23 +499,35 @@ func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation,
 }
 
 func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, valueUsed bool) (expressionResult, error) {
-	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
+	value := subscript.Value()
+	str, err := t.evaluateExpression(value, true)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	endIndexResult, err := t.evaluateIndex(subscript.EndIndex(), true)
+	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	value := subscript.Value()
-	str, err := t.evaluateExpression(value, true)
+	endIndex := startIndexResult.firstValue() // Evaluate a single character by default.
+
+	if subscript.ToEnd() {
+		endIndex, err = t.converter.StringLen(str.firstValue(), true)
+
+		if err == nil {
+			endIndex, err = t.converter.BinaryOperation(endIndex, parser.BINARY_OPERATOR_SUBTRACTION, IntToString(1), parser.NewValueType(parser.DATA_TYPE_INTEGER, false), true)
+		}
+	} else if subscript.EndIndex() != nil {
+		var endIndexResult expressionResult
+		endIndexResult, err = t.evaluateIndex(subscript.EndIndex(), true)
+		endIndex = endIndexResult.firstValue()
+	}
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	s, err := t.converter.StringSubscript(str.firstValue(), startIndexResult.firstValue(), endIndexResult.firstValue(), valueUsed)
+	s, err := t.converter.StringSubscript(str.firstValue(), startIndexResult.firstValue(), endIndex, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From 2f832a37b32e7c786a3647bab9a4c8678262d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 18/39] fix: evaluate the operand of switch and range just once

---
 parser/if.go             |  6 +++++
 parser/parser.go         | 56 ++++++++++++++++++++++++++++------------
 transpiler/transpiler.go |  9 +++++++
 3 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/parser/if.go b/parser/if.go
index d9b0d46..c1f6401 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -22,6 +22,7 @@ func (e Else) Body() []Statement {
 }
 
 type If struct {
+	init         Statement
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
@@ -31,6 +32,11 @@ func (i If) StatementType() StatementType {
 	return STATEMENT_TYPE_IF
 }
 
+// Init returns the statement which has to be executed before the conditions get evaluated (might be nil).
+func (i If) Init() Statement {
+	return i.init
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index 64525e8..51a6b5e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -203,6 +203,7 @@ type Parser struct {
 	currFunc        string
 	currReturnTypes []ValueType
 	usedFuncs       map[string][]string      // Stores which function (key) calls which functions (values).
+	hiddenVars      int                      // Stores the amount of variables which have been defined by the parser itself.
 	files           map[string]*importedFile // Stores the file path to imported file relation.
 }
 
@@ -493,6 +494,14 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+// nextHiddenVariable creates a local variable whose name cannot be used in the source code.
+func (p *Parser) nextHiddenVariable(valueType ValueType) Variable {
+	variable := NewVariable(fmt.Sprintf("_t%d", p.hiddenVars), valueType, false, false)
+	p.hiddenVars++
+
+	return variable
+}
+
 func (p *Parser) skipNewlines() {
 	for p.peek().Type() == lexer.NEWLINE {
 		p.eat()
@@ -1748,7 +1757,13 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.NEWLINE {
 		return nil, p.expectedNewlineError(nextToken)
 	}
+	// Make sure the switch expression is evaluated just once.
+	switchVar := p.nextHiddenVariable(switchExprValueType)
 	fakeIf := If{
+		init: VariableDefinition{
+			variables: []Variable{switchVar},
+			values:    []Expression{switchExpr},
+		},
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
 			body:      []Statement{},
@@ -1798,7 +1813,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 				return nil, p.atError(fmt.Sprintf("%s value cannot be compared with switch's %s value", compareExprValueType.String(), switchExprValueType.String()), compareExprToken)
 			}
 			ifBranch := IfBranch{
-				condition: NewComparison(switchExpr, COMPARE_OPERATOR_EQUAL, compareExpr),
+				condition: NewComparison(VariableEvaluation{switchVar}, COMPARE_OPERATOR_EQUAL, compareExpr),
 				body:      statements,
 			}
 
@@ -1892,22 +1907,31 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		indexVar := NewVariable(indexVarName, NewValueType(DATA_TYPE_INTEGER, false), false, false)
 		var iterableEvaluation Expression
 
+		// Make sure the iterable is evaluated just once and the iteration doesn't depend on the index variable.
+		iterableVar := p.nextHiddenVariable(iterableValueType)
+		countVar := p.nextHiddenVariable(indexVar.ValueType())
+
 		if iterableValueType.IsSlice() {
 			iterableEvaluation = SliceEvaluation{
-				value:    iterableExpression,
-				index:    VariableEvaluation{indexVar},
+				value:    VariableEvaluation{iterableVar},
+				index:    VariableEvaluation{countVar},
 				dataType: iterableValueType.DataType(),
 			}
 		} else if iterableValueType.IsString() {
 			iterableEvaluation = StringSubscript{
-				value:      iterableExpression,
-				startIndex: VariableEvaluation{indexVar},
+				value:      VariableEvaluation{iterableVar},
+				startIndex: VariableEvaluation{countVar},
 			}
 		} else {
 			return nil, p.expectedError("slice or string", nextToken)
 		}
 		iterableValueType.isSlice = false // Make sure the value var is not a slice.
-		forRangeStatements := []Statement{}
+		forRangeStatements := []Statement{
+			VariableAssignment{
+				variables: []Variable{indexVar},
+				values:    []Expression{VariableEvaluation{countVar}},
+			},
+		}
 
 		// Add count variable.
 		ctx.addVariables(p.prefix, false, indexVar)
@@ -1919,24 +1943,22 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			// Add value variable.
 			ctx.addVariables(p.prefix, false, valueVar)
 
-			forRangeStatements = []Statement{
-				VariableAssignment{
-					variables: []Variable{valueVar},
-					values:    []Expression{iterableEvaluation},
-				},
-			}
+			forRangeStatements = append(forRangeStatements, VariableAssignment{
+				variables: []Variable{valueVar},
+				values:    []Expression{iterableEvaluation},
+			})
 		}
 
 		init := VariableAssignment{
-			variables: []Variable{indexVar},
-			values:    []Expression{IntegerLiteral{0}},
+			variables: []Variable{iterableVar, countVar},
+			values:    []Expression{iterableExpression, IntegerLiteral{0}},
 		}
 		condition := Comparison{
-			left:     VariableEvaluation{indexVar},
+			left:     VariableEvaluation{countVar},
 			operator: COMPARE_OPERATOR_LESS,
-			right:    Len{iterableExpression},
+			right:    Len{VariableEvaluation{iterableVar}},
 		}
-		increment := incrementDecrementStatement(indexVar, true)
+		increment := incrementDecrementStatement(countVar, true)
 		statements, err := p.evaluateBlock(nil, ctx, SCOPE_FOR)
 
 		if err != nil {
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 358b5af..f80c346 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -246,6 +246,15 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	conv := t.converter
+	init := ifStatement.Init()
+
+	if init != nil {
+		err := t.evaluate(init)
+
+		if err != nil {
+			return err
+		}
+	}
 	ifBranch := ifStatement.IfBranch()
 	result, err := t.evaluateExpression(ifBranch.Condition(), true)
 
-- 
2.43.0


From ec3644ffcc87eeec73fbf1b8ff0ea7e5f64d23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 19/39] fix: avoid quadratic type evaluation of long operator
 chains

---
 parser/binaryoperation.go | 12 +++++++++++-
 parser/parser.go          | 28 ++++++++--------------------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/parser/binaryoperation.go b/parser/binaryoperation.go
index dbe5eb3..bf876cd 100644
--- a/parser/binaryoperation.go
+++ b/parser/binaryoperation.go
@@ -4,6 +4,16 @@ type BinaryOperation struct {
 	left      Expression
 	operator  BinaryOperator
 	right     Expression
+	valueType ValueType
+}
+
+func newBinaryOperation(left Expression, operator BinaryOperator, right Expression) BinaryOperation {
+	return BinaryOperation{
+		left,
+		operator,
+		right,
+		left.ValueType(), // Store value type because its evaluation takes long if many operations are nested.
+	}
 }
 
 func (b BinaryOperation) StatementType() StatementType {
@@ -11,7 +21,7 @@ func (b BinaryOperation) StatementType() StatementType {
 }
 
 func (b BinaryOperation) ValueType() ValueType {
-	return b.left.ValueType()
+	return b.valueType
 }
 
 func (b BinaryOperation) Left() Expression {
diff --git a/parser/parser.go b/parser/parser.go
index 51a6b5e..a73b274 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -384,13 +384,13 @@ func incrementDecrementStatement(variable Variable, increment bool) Statement {
 	return VariableAssignment{
 		variables: []Variable{variable},
 		values: []Expression{
-			BinaryOperation{
-				left: VariableEvaluation{
+			newBinaryOperation(
+				VariableEvaluation{
 					Variable: variable,
 				},
-				operator: operation,
-				right:    IntegerLiteral{value: 1},
-			},
+				operation,
+				IntegerLiteral{value: 1},
+			),
 		},
 	}
 }
@@ -1307,11 +1307,7 @@ func (p *Parser) evaluateCompoundAssignment(ctx context) (Statement, error) {
 	return VariableAssignment{
 		variables: []Variable{definedVariable},
 		values: []Expression{
-			BinaryOperation{
-				left:     VariableEvaluation{definedVariable},
-				operator: binaryOperator,
-				right:    values[0],
-			},
+			newBinaryOperation(VariableEvaluation{definedVariable}, binaryOperator, values[0]),
 		},
 	}, nil
 }
@@ -2386,11 +2382,7 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 		if !slices.Contains(allowedTypeOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		leftExpression = BinaryOperation{
-			left:     leftExpression,
-			operator: operator,
-			right:    rightExpression,
-		}
+		leftExpression = newBinaryOperation(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
@@ -2799,11 +2791,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 		}
 
 		// End-index is not included.
-		endIndex = BinaryOperation{
-			left:     endIndex,
-			operator: BINARY_OPERATOR_SUBTRACTION,
-			right:    IntegerLiteral{1},
-		}
+		endIndex = newBinaryOperation(endIndex, BINARY_OPERATOR_SUBTRACTION, IntegerLiteral{1})
 	}
 
 	if !isSlice {
-- 
2.43.0


From 6869635ff40a09920bf09bc769bd55afd1a6b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 20/39] fix: reject code which is nested too deep instead of
 overflowing the stack

---
 parser/parser.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a73b274..50c3e6e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -24,6 +24,9 @@ var typeMapping = map[lexer.VarType]DataType{
 
 const BLANK_IDENTIFIER = "_"
 
+// Statements, expressions and operator chains must not be nested deeper than this to keep the stack within bounds.
+const MAX_NESTING = 10000
+
 type scope string
 
 const (
@@ -203,6 +206,7 @@ type Parser struct {
 	currFunc        string
 	currReturnTypes []ValueType
 	usedFuncs       map[string][]string      // Stores which function (key) calls which functions (values).
+	nesting         int                      // Stores how deep the current statement or expression is nested.
 	hiddenVars      int                      // Stores the amount of variables which have been defined by the parser itself.
 	files           map[string]*importedFile // Stores the file path to imported file relation.
 }
@@ -494,6 +498,20 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+// enterNesting must be called before a nested element gets evaluated and leaveNesting afterwards.
+func (p *Parser) enterNesting() error {
+	p.nesting++
+
+	if p.nesting > MAX_NESTING {
+		return p.atError("code is nested too deep", p.peek())
+	}
+	return nil
+}
+
+func (p *Parser) leaveNesting() {
+	p.nesting--
+}
+
 // nextHiddenVariable creates a local variable whose name cannot be used in the source code.
 func (p *Parser) nextHiddenVariable(valueType ValueType) Variable {
 	variable := NewVariable(fmt.Sprintf("_t%d", p.hiddenVars), valueType, false, false)
@@ -2276,12 +2294,23 @@ func (p *Parser) evaluateLogicalOr(ctx context) (Expression, error) {
 }
 
 func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
+	defer p.leaveNesting()
+	err := p.enterNesting()
+
+	if err != nil {
+		return nil, err
+	}
 	return p.evaluateLogicalOr(ctx)
 }
 
 func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
+	defer p.leaveNesting()
+	err := p.enterNesting()
+
+	if err != nil {
+		return nil, err
+	}
 	var stmt Statement
-	var err error
 
 	token := p.peek()
 	tokenType := token.Type()
@@ -2357,6 +2386,8 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 		return nil, err
 	}
 
+	length := 0
+
 	// To implement associativity, use for-loop and keep appending same prio-expressions.
 	for {
 		operatorToken := p.peek()
@@ -2365,6 +2396,11 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 		if operatorToken.Type() != lexer.BINARY_OPERATOR || !slices.Contains(allowedOperators, operator) {
 			break
 		}
+		length++
+
+		if length > MAX_NESTING {
+			return nil, p.atError("operator chain is too long", operatorToken)
+		}
 		p.eat() // Eat operator token.
 		rightExpression, err := higherPrioOperation(ctx)
 
@@ -2396,6 +2432,7 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
+	length := 0
 
 	// To implement associativity, use for-loop and keep appending comparisons.
 	for {
@@ -2405,6 +2442,11 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
 			break
 		}
+		length++
+
+		if length > MAX_NESTING {
+			return nil, p.atError("operator chain is too long", operatorToken)
+		}
 		p.eat() // Eat operator token.
 		rightExpression, err := p.evaluateAddition(ctx)
 
@@ -2434,6 +2476,7 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 	if err != nil {
 		return nil, err
 	}
+	length := 0
 
 	for {
 		operatorToken := p.peek()
@@ -2441,6 +2484,11 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		if operatorToken.Type() != lexer.LOGICAL_OPERATOR || operatorToken.Value() != operator {
 			break
 		}
+		length++
+
+		if length > MAX_NESTING {
+			return nil, p.atError("operator chain is too long", operatorToken)
+		}
 
 		if !leftExpression.ValueType().IsBool() {
 			return nil, p.expectedError("boolean value", conditionToken)
@@ -2603,6 +2651,12 @@ func (p *Parser) evaluateFunctionCall(ctx context) (Call, error) {
 }
 
 func (p *Parser) evaluateAppCall(ctx context) (Call, error) {
+	defer p.leaveNesting()
+	err := p.enterNesting()
+
+	if err != nil {
+		return nil, err
+	}
 	nextToken := p.eat()
 
 	if nextToken.Type() != lexer.AT {
-- 
2.43.0


From 3dac7c681cd10bc3a14efee18a99c7ae09361750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 21/39] fix: map names to target names which cannot collide
 with reserved names

---
 parser/parser.go         |  8 ++++++--
 transpiler/name.go       | 34 ++++++++++++++++++++++++++++++++++
 transpiler/transpiler.go | 20 ++++++++++----------
 3 files changed, 50 insertions(+), 12 deletions(-)
 create mode 100644 transpiler/name.go

diff --git a/parser/parser.go b/parser/parser.go
index 50c3e6e..3c89f90 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -24,6 +24,10 @@ var typeMapping = map[lexer.VarType]DataType{
 
 const BLANK_IDENTIFIER = "_"
 
+// Neither the separator between file prefix and name nor the prefix of hidden names can be part of a source code name.
+const FILE_PREFIX_SEPARATOR = "."
+const HIDDEN_NAME_PREFIX = "#"
+
 // Statements, expressions and operator chains must not be nested deeper than this to keep the stack within bounds.
 const MAX_NESTING = 10000
 
@@ -408,7 +412,7 @@ func isPublic(name string) bool {
 
 func buildPrefixedName(prefix string, funcName string) string {
 	if len(prefix) > 0 {
-		prefix = fmt.Sprintf("%s_", prefix)
+		prefix = fmt.Sprintf("%s%s", prefix, FILE_PREFIX_SEPARATOR)
 
 		// Only prefix if it doesn't already have the prefix.
 		if !strings.HasPrefix(funcName, prefix) {
@@ -514,7 +518,7 @@ func (p *Parser) leaveNesting() {
 
 // nextHiddenVariable creates a local variable whose name cannot be used in the source code.
 func (p *Parser) nextHiddenVariable(valueType ValueType) Variable {
-	variable := NewVariable(fmt.Sprintf("_t%d", p.hiddenVars), valueType, false, false)
+	variable := NewVariable(fmt.Sprintf("%s%d", HIDDEN_NAME_PREFIX, p.hiddenVars), valueType, false, false)
 	p.hiddenVars++
 
 	return variable
diff --git a/transpiler/name.go b/transpiler/name.go
new file mode 100644
index 0000000..486ca32
--- /dev/null
+++ b/transpiler/name.go
@@ -0,0 +1,34 @@
+package transpiler
+
+import (
+	"fmt"
+	"strings"
+	"unicode"
+
+	"github.com/monstermichl/typeshell/parser"
+)
+
+// targetName maps a source code name to the name which is used in the target language. The resulting name neither
+// collides with names which are reserved by the converters or the target's shell, nor with the target name of another
+// source code name (not even if the target doesn't distinguish between upper and lower case).
+func targetName(name string) string {
+	if strings.HasPrefix(name, parser.HIDDEN_NAME_PREFIX) {
+		return fmt.Sprintf("_t%s", strings.TrimPrefix(name, parser.HIDDEN_NAME_PREFIX))
+	}
+	prefix := "v_"
+
+	if i := strings.LastIndex(name, parser.FILE_PREFIX_SEPARATOR); i >= 0 {
+		prefix = fmt.Sprintf("m%s_", name[:i])
+		name = name[i+len(parser.FILE_PREFIX_SEPARATOR):]
+	}
+	builder := strings.Builder{}
+	builder.WriteString(prefix)
+
+	for _, r := range name {
+		if r == '_' || unicode.IsUpper(r) {
+			builder.WriteRune('_')
+		}
+		builder.WriteRune(r)
+	}
+	return builder.String()
+}
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index f80c346..960765f 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -381,7 +381,7 @@ func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition)
 		if err != nil {
 			return err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		err = t.converter.VarDefinition(targetName(variable.Name()), result.firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -406,7 +406,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(targetName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -422,7 +422,7 @@ func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment)
 		if err != nil {
 			return err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		err = t.converter.VarDefinition(targetName(variable.Name()), result.firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -447,7 +447,7 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(targetName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -474,11 +474,11 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(assignment.Name(), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(targetName(assignment.Name()), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
-	s, err := t.converter.VarEvaluation(evaluation.Name(), valueUsed, evaluation.Global())
+	s, err := t.converter.VarEvaluation(targetName(evaluation.Name()), valueUsed, evaluation.Global())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -598,11 +598,11 @@ func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
 }
 
 func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.FunctionDefinition) error {
-	name := functionDefinition.Name()
+	name := targetName(functionDefinition.Name())
 	params := []string{}
 
 	for _, param := range functionDefinition.Params() {
-		params = append(params, param.Name())
+		params = append(params, targetName(param.Name()))
 	}
 	conv := t.converter
 	err := conv.FuncStart(name, params, functionDefinition.ReturnTypes())
@@ -631,7 +631,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		args = append(args, result.firstValue())
 	}
 	returnTypes := functionCall.ReturnTypes()
-	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
+	values, err := t.converter.FuncCall(targetName(name), args, returnTypes, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -721,7 +721,7 @@ func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionR
 		return expressionResult{}, err
 	}
 	destination := copy.Destination()
-	amount, err := t.converter.Copy(destination.Name(), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(targetName(destination.Name()), expr.firstValue(), valueUsed, destination.Global())
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From 90a3db56337f6e0666e7ddb05d1368e1e6f8e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 22/39] fix: accept a multi return function call as the
 arguments of a call

---
 parser/parser.go         | 30 +++++++++++++++++++++++-------
 transpiler/transpiler.go |  7 +++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3c89f90..113142d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2527,6 +2527,7 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 	}
 	nextToken := p.peek()
 	args := []Expression{}
+	argsAmount := 0
 	ignoreParams := params == nil // If params is nil, arguments will not be checked for length or type.
 	paramsLength := 0
 
@@ -2547,9 +2548,28 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 			return nil, err
 		}
 		args = append(args, expr)
+		call, isCall := expr.(Call)
+
+		// A multi return function call as the only argument provides all the arguments.
+		if isCall && !ignoreParams && len(args) == 1 && len(call.ReturnTypes()) > 1 && p.peek().Type() == lexer.CLOSING_ROUND_BRACKET {
+			returnTypes := call.ReturnTypes()
+			argsAmount = len(returnTypes)
+
+			if argsAmount != paramsLength {
+				return nil, argsLengthError(argsAmount)
+			}
+
+			for i, param := range params {
+				if !param.ValueType().Equals(returnTypes[i]) {
+					return nil, p.expectedError(fmt.Sprintf("parameter %s (%s) but got %s", param.ValueType().String(), param.Name(), returnTypes[i].String()), argToken)
+				}
+			}
+			break
+		}
+		argsAmount = len(args)
 
 		if !ignoreParams {
-			argsLength := len(args)
+			argsLength := argsAmount
 
 			// Make sure arguments have not been exceeded.
 			if argsLength > paramsLength {
@@ -2580,12 +2600,8 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 	}
 
 	// Check for the appropriate arguments amount.
-	if !ignoreParams {
-		argsLength := len(args)
-
-		if len(args) != paramsLength {
-			return nil, argsLengthError(argsLength)
-		}
+	if !ignoreParams && argsAmount != paramsLength {
+		return nil, argsLengthError(argsAmount)
 	}
 
 	if err != nil {
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 960765f..0f3551e 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -628,6 +628,13 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		if err != nil {
 			return expressionResult{}, err
 		}
+		call, isCall := arg.(parser.Call)
+
+		// A multi return function call provides all the arguments.
+		if isCall && len(call.ReturnTypes()) > 1 {
+			args = append(args, result.values...)
+			continue
+		}
 		args = append(args, result.firstValue())
 	}
 	returnTypes := functionCall.ReturnTypes()
-- 
2.43.0


From bbb0a079eefed325daefa4e17891a5a68d52b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 23/39] fix: evaluate operands in source order and all values
 before an assignment

---
 transpiler/order.go      | 166 ++++++++++++++++++++++++++++++
 transpiler/transpiler.go | 214 ++++++++++++++++-----------------------
 2 files changed, 253 insertions(+), 127 deletions(-)
 create mode 100644 transpiler/order.go

diff --git a/transpiler/order.go b/transpiler/order.go
new file mode 100644
index 0000000..9c03192
--- /dev/null
+++ b/transpiler/order.go
@@ -0,0 +1,166 @@
+package transpiler
+
+import (
+	"fmt"
+
+	"github.com/monstermichl/typeshell/parser"
+)
+
+// plainVariable returns the variable if the expression's value is nothing more than the current value of a variable.
+func plainVariable(expr parser.Expression) (parser.Variable, bool) {
+	switch expr := expr.(type) {
+	case parser.VariableEvaluation:
+		return expr.Variable, true
+	case parser.Group:
+		return plainVariable(expr.Child())
+	case parser.Itoa:
+		return plainVariable(expr.Value())
+	}
+	return parser.Variable{}, false
+}
+
+// callsFunction returns true if the evaluation of at least one of the expressions calls a function.
+func callsFunction(exprs ...parser.Expression) bool {
+	for _, expr := range exprs {
+		var operands []parser.Expression
+
+		switch expr := expr.(type) {
+		case parser.FunctionCall:
+			return true
+		case parser.AppCall:
+			operands = appCallArgs(expr)
+		case parser.Group:
+			operands = []parser.Expression{expr.Child()}
+		case parser.UnaryOperation:
+			operands = []parser.Expression{expr.Expression()}
+		case parser.Operation:
+			operands = []parser.Expression{expr.Left(), expr.Right()}
+		case parser.SliceInstantiation:
+			operands = expr.Values()
+		case parser.SliceEvaluation:
+			operands = []parser.Expression{expr.Value(), expr.Index()}
+		case parser.StringSubscript:
+			operands = []parser.Expression{expr.Value(), expr.StartIndex(), expr.EndIndex()}
+		case parser.Input:
+			operands = []parser.Expression{expr.Prompt()}
+		case parser.Copy:
+			operands = []parser.Expression{expr.Source()}
+		case parser.Itoa:
+			operands = []parser.Expression{expr.Value()}
+		case parser.Exists:
+			operands = []parser.Expression{expr.Path()}
+		case parser.Len:
+			operands = []parser.Expression{expr.Expression()}
+		case parser.Read:
+			operands = []parser.Expression{expr.Path()}
+		}
+
+		if callsFunction(operands...) {
+			return true
+		}
+	}
+	return false
+}
+
+func appCallArgs(call parser.AppCall) []parser.Expression {
+	args := []parser.Expression{}
+
+	for nextCall := &call; nextCall != nil; nextCall = nextCall.Next() {
+		args = append(args, nextCall.Args()...)
+	}
+	return args
+}
+
+// pin makes sure that the passed value doesn't change anymore, even if the variable it has been read from does.
+func (t *transpiler) pin(value string) (string, error) {
+	name := fmt.Sprintf("_p%d", t.pinCounter)
+	t.pinCounter++
+	err := t.converter.VarDefinition(name, value, false)
+
+	if err != nil {
+		return "", err
+	}
+	return t.converter.VarEvaluation(name, true, false)
+}
+
+// evaluateInOrder evaluates the expressions from left to right. Functions might modify global variables, therefore
+// a global variable which is followed by a function call must be evaluated before the function is called.
+func (t *transpiler) evaluateInOrder(exprs ...parser.Expression) ([]expressionResult, error) {
+	results := []expressionResult{}
+
+	for i, expr := range exprs {
+		result, err := t.evaluateExpression(expr, true)
+
+		if err != nil {
+			return nil, err
+		}
+
+		if variable, ok := plainVariable(expr); ok && variable.Global() && callsFunction(exprs[i+1:]...) {
+			value, err := t.pin(result.firstValue())
+
+			if err != nil {
+				return nil, err
+			}
+			result = newExpressionResult(value)
+		}
+		results = append(results, result)
+	}
+	return results, nil
+}
+
+// evaluateHandle evaluates a slice variable which gets modified after the provided expressions have been evaluated.
+func (t *transpiler) evaluateHandle(variable parser.Variable, exprs ...parser.Expression) (name string, global bool, err error) {
+	name = targetName(variable.Name())
+	global = variable.Global()
+
+	if global && callsFunction(exprs...) {
+		value, err := t.converter.VarEvaluation(name, true, global)
+
+		if err != nil {
+			return "", false, err
+		}
+		name = fmt.Sprintf("_p%d", t.pinCounter)
+		_, err = t.pin(value)
+
+		return name, false, err
+	}
+	return name, global, nil
+}
+
+// assign assigns the values after all of them have been evaluated.
+func (t *transpiler) assign(variables []parser.Variable, values []parser.Expression) error {
+	results, err := t.evaluateInOrder(values...)
+
+	if err != nil {
+		return err
+	}
+	strings := []string{}
+
+	for i, result := range results {
+		value := result.firstValue()
+
+		// If the value is read from a variable which is overwritten by one of the former assignments, keep the old value.
+		if variable, ok := plainVariable(values[i]); ok {
+			for _, assigned := range variables[:i] {
+				if assigned.Name() == variable.Name() {
+					value, err = t.pin(value)
+
+					if err != nil {
+						return err
+					}
+					break
+				}
+			}
+		}
+		strings = append(strings, value)
+	}
+
+	for i, variable := range variables {
+		err = t.converter.VarDefinition(targetName(variable.Name()), strings[i], variable.Global())
+
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 0f3551e..f01803a 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -44,7 +44,8 @@ func IntToString(i int) string {
 }
 
 type transpiler struct {
-	converter Converter
+	converter  Converter
+	pinCounter int // Stores the amount of variables which have been defined to keep a value.
 }
 
 func New() transpiler {
@@ -59,6 +60,7 @@ func (t *transpiler) Transpile(path string, converter Converter) (string, error)
 		return "", err
 	}
 	t.converter = converter
+	t.pinCounter = 0
 	err = t.evaluate(ast)
 
 	if err != nil {
@@ -84,10 +86,6 @@ func (t *transpiler) evaluateValueTypeDefaultValue(valueType parser.ValueType) (
 	return defaultValue, nil
 }
 
-func (t *transpiler) evaluateIndex(index parser.Expression, valueUsed bool) (expressionResult, error) {
-	return t.evaluateExpression(index, true)
-}
-
 func (t *transpiler) evaluateProgram(program parser.Program) error {
 	var err error
 	t.converter.ProgramStart()
@@ -123,17 +121,12 @@ func (t *transpiler) evaluateOperation(
 	callout func(left string, operator string, right string, valueType parser.ValueType, valueUsed bool) (string, error),
 	valueUsed bool,
 ) (expressionResult, error) {
-	left, err := t.evaluateExpression(operation.Left(), true)
+	results, err := t.evaluateInOrder(operation.Left(), operation.Right())
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	right, err := t.evaluateExpression(operation.Right(), true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	s, err := callout(left.firstValue(), operation.Operator(), right.firstValue(), operation.Left().ValueType(), valueUsed)
+	s, err := callout(results[0].firstValue(), operation.Operator(), results[1].firstValue(), operation.Left().ValueType(), valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -178,13 +171,13 @@ func (t *transpiler) evaluateContinue() error {
 
 func (t *transpiler) evaluatePrint(print parser.Print) error {
 	values := []string{}
+	results, err := t.evaluateInOrder(print.Expressions()...)
 
-	for _, expr := range print.Expressions() {
-		result, err := t.evaluateExpression(expr, true)
+	if err != nil {
+		return err
+	}
 
-		if err != nil {
-			return err
-		}
+	for _, result := range results {
 		values = append(values, result.values...)
 	}
 	return t.converter.Print(values)
@@ -206,42 +199,35 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as read path", valueType.String())
 	}
-	result, err := t.evaluateExpression(path, true)
-
-	if err != nil {
-		return err
-	}
-	pathString := result.firstValue()
+	exprs := []parser.Expression{path}
 	data := write.Data()
 	valueType = data.ValueType()
 
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as data", valueType.String())
 	}
-	result, err = t.evaluateExpression(data, true)
-
-	if err != nil {
-		return err
-	}
-	dataString := result.firstValue()
+	exprs = append(exprs, data)
 	appendExpr := write.Append()
 	appendString := BoolToString(false)
 
 	if appendExpr != nil {
-		append := write.Append()
-		valueType = append.ValueType()
+		valueType = appendExpr.ValueType()
 
 		if !valueType.IsBool() {
 			return fmt.Errorf("expected bool but got %s as append flag", valueType.String())
 		}
-		result, err = t.evaluateExpression(append, true)
+		exprs = append(exprs, appendExpr)
+	}
+	results, err := t.evaluateInOrder(exprs...)
 
-		if err != nil {
-			return err
-		}
-		appendString = result.firstValue()
+	if err != nil {
+		return err
+	}
+
+	if appendExpr != nil {
+		appendString = results[2].firstValue()
 	}
-	return t.converter.WriteFile(pathString, dataString, appendString)
+	return t.converter.WriteFile(results[0].firstValue(), results[1].firstValue(), appendString)
 }
 
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
@@ -256,23 +242,19 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 		}
 	}
 	ifBranch := ifStatement.IfBranch()
-	result, err := t.evaluateExpression(ifBranch.Condition(), true)
+	conditions := []parser.Expression{ifBranch.Condition()}
 
-	if err != nil {
-		return err
+	for _, branch := range ifStatement.ElseIfBranches() {
+		conditions = append(conditions, branch.Condition())
 	}
-	elifConditions := []string{}
 
 	// Evaluate all conditions first to make sure they are added in front of the first if.
-	for _, branch := range ifStatement.ElseIfBranches() {
-		result, err := t.evaluateExpression(branch.Condition(), true)
+	results, err := t.evaluateInOrder(conditions...)
 
-		if err != nil {
-			return err
-		}
-		elifConditions = append(elifConditions, result.firstValue())
+	if err != nil {
+		return err
 	}
-	err = conv.IfStart(result.firstValue())
+	err = conv.IfStart(results[0].firstValue())
 
 	if err != nil {
 		return err
@@ -284,7 +266,7 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	}
 
 	for i, branch := range ifStatement.ElseIfBranches() {
-		err = conv.ElseIfStart(elifConditions[i])
+		err = conv.ElseIfStart(results[i+1].firstValue())
 
 		if err != nil {
 			return err
@@ -375,19 +357,7 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 }
 
 func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
-	for i, variable := range definition.Variables() {
-		result, err := t.evaluateExpression(definition.Values()[i], true)
-
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(targetName(variable.Name()), result.firstValue(), variable.Global())
-
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return t.assign(definition.Variables(), definition.Values())
 }
 
 func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.VariableDefinitionCallAssignment) error {
@@ -416,19 +386,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 }
 
 func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment) error {
-	for i, variable := range assignment.Variables() {
-		result, err := t.evaluateExpression(assignment.Values()[i], true)
-
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(targetName(variable.Name()), result.firstValue(), variable.Global())
-
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return t.assign(assignment.Variables(), assignment.Values())
 }
 
 func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.VariableAssignmentCallAssignment) error {
@@ -457,24 +415,24 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 }
 
 func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment) error {
-	indexResult, err := t.evaluateIndex(assignment.Index(), true)
+	index := assignment.Index()
+	value := assignment.Value()
+	name, global, err := t.evaluateHandle(assignment.Variable, index, value)
 
 	if err != nil {
 		return err
 	}
-	value := assignment.Value()
-	valueResult, err := t.evaluateExpression(value, true)
+	results, err := t.evaluateInOrder(index, value)
 
 	if err != nil {
 		return err
 	}
-	valueType := value.ValueType()
-	defaultValue, err := t.evaluateValueTypeDefaultValue(valueType)
+	defaultValue, err := t.evaluateValueTypeDefaultValue(value.ValueType())
 
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(targetName(assignment.Name()), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(name, results[0].firstValue(), results[1].firstValue(), defaultValue, global)
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
@@ -487,19 +445,12 @@ func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation,
 }
 
 func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation, valueUsed bool) (expressionResult, error) {
-	value := evaluation.Value()
-	result, err := t.evaluateExpression(value, true)
+	results, err := t.evaluateInOrder(evaluation.Value(), evaluation.Index())
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	valueString := result.firstValue()
-	result, err = t.evaluateIndex(evaluation.Index(), true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	s, err := t.converter.SliceEvaluation(valueString, result.firstValue(), valueUsed)
+	s, err := t.converter.SliceEvaluation(results[0].firstValue(), results[1].firstValue(), valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -508,35 +459,35 @@ func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation,
 }
 
 func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, valueUsed bool) (expressionResult, error) {
-	value := subscript.Value()
-	str, err := t.evaluateExpression(value, true)
+	exprs := []parser.Expression{subscript.Value(), subscript.StartIndex()}
+	hasEndIndex := !subscript.ToEnd() && subscript.EndIndex() != nil
 
-	if err != nil {
-		return expressionResult{}, err
+	if hasEndIndex {
+		exprs = append(exprs, subscript.EndIndex())
 	}
-	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
+	results, err := t.evaluateInOrder(exprs...)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	endIndex := startIndexResult.firstValue() // Evaluate a single character by default.
+	str := results[0].firstValue()
+	startIndex := results[1].firstValue()
+	endIndex := startIndex // Evaluate a single character by default.
 
-	if subscript.ToEnd() {
-		endIndex, err = t.converter.StringLen(str.firstValue(), true)
+	if hasEndIndex {
+		endIndex = results[2].firstValue()
+	} else if subscript.ToEnd() {
+		endIndex, err = t.converter.StringLen(str, true)
 
 		if err == nil {
 			endIndex, err = t.converter.BinaryOperation(endIndex, parser.BINARY_OPERATOR_SUBTRACTION, IntToString(1), parser.NewValueType(parser.DATA_TYPE_INTEGER, false), true)
 		}
-	} else if subscript.EndIndex() != nil {
-		var endIndexResult expressionResult
-		endIndexResult, err = t.evaluateIndex(subscript.EndIndex(), true)
-		endIndex = endIndexResult.firstValue()
 	}
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	s, err := t.converter.StringSubscript(str.firstValue(), startIndexResult.firstValue(), endIndex, valueUsed)
+	s, err := t.converter.StringSubscript(str, startIndex, endIndex, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -571,12 +522,14 @@ func (t *transpiler) evaluateBlock(block parser.Block) error {
 func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
 	returnValues := []ReturnValue{}
 
-	for _, expr := range returnStatement.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	results, err := t.evaluateInOrder(returnStatement.Values()...)
 
-		if err != nil {
-			return err
-		}
+	if err != nil {
+		return err
+	}
+
+	for i, expr := range returnStatement.Values() {
+		result := results[i]
 		call, isCall := expr.(parser.Call)
 
 		// A multi return function call provides all the values to return.
@@ -622,12 +575,14 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 	name := functionCall.Name()
 	args := []string{}
 
-	for _, arg := range functionCall.Args() {
-		result, err := t.evaluateExpression(arg, true)
+	results, err := t.evaluateInOrder(functionCall.Args()...)
 
-		if err != nil {
-			return expressionResult{}, err
-		}
+	if err != nil {
+		return expressionResult{}, err
+	}
+
+	for i, arg := range functionCall.Args() {
+		result := results[i]
 		call, isCall := arg.(parser.Call)
 
 		// A multi return function call provides all the arguments.
@@ -654,19 +609,20 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 
 func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expressionResult, error) {
 	convertedCalls := []AppCall{}
+	results, err := t.evaluateInOrder(appCallArgs(call)...)
+
+	if err != nil {
+		return expressionResult{}, err
+	}
 	nextCall := &call
 
 	for nextCall != nil {
 		name := nextCall.Name()
 		args := []string{}
 
-		for _, arg := range nextCall.Args() {
-			result, err := t.evaluateExpression(arg, true)
-
-			if err != nil {
-				return expressionResult{}, err
-			}
-			args = append(args, result.firstValue())
+		for range nextCall.Args() {
+			args = append(args, results[0].firstValue())
+			results = results[1:]
 		}
 		convertedCalls = append(convertedCalls, AppCall{
 			name: name,
@@ -684,13 +640,13 @@ func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expre
 
 func (t *transpiler) evaluateSliceInstantiation(instantiation parser.SliceInstantiation, valueUsed bool) (expressionResult, error) {
 	values := []string{}
+	results, err := t.evaluateInOrder(instantiation.Values()...)
 
-	for _, expr := range instantiation.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	if err != nil {
+		return expressionResult{}, err
+	}
 
-		if err != nil {
-			return expressionResult{}, err
-		}
+	for _, result := range results {
 		values = append(values, result.firstValue())
 	}
 	s, err := t.converter.SliceInstantiation(values, valueUsed)
@@ -722,13 +678,17 @@ func (t *transpiler) evaluateInput(input parser.Input, valueUsed bool) (expressi
 }
 
 func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionResult, error) {
+	name, global, err := t.evaluateHandle(copy.Destination(), copy.Source())
+
+	if err != nil {
+		return expressionResult{}, err
+	}
 	expr, err := t.evaluateExpression(copy.Source(), true)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	destination := copy.Destination()
-	amount, err := t.converter.Copy(targetName(destination.Name()), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(name, expr.firstValue(), valueUsed, global)
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From 683464f5b6ff957a15682415e6531324a857da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 24/39] fix: treat strings as opaque data in Bash scripts

---
 converters/bash/converter.go | 95 +++++++++++++++---------------------
 std/os.tsh                   |  2 +-
 2 files changed, 39 insertions(+), 58 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c388c71..c081178 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -33,8 +33,11 @@ func New() *converter {
 	}
 }
 
+// Escapes all characters which have a special meaning within double quotes.
+var stringReplacer = strings.NewReplacer("\\", "\\\\", `"`, `\"`, "$", `\$`, "`", "\\`")
+
 func (c *converter) StringToString(value string) string {
-	return value
+	return stringReplacer.Replace(value)
 }
 
 func (c *converter) Dump() (string, error) {
@@ -64,22 +67,26 @@ func (c *converter) ProgramEnd() error {
 		// $4: Default value
 		c.addHelper("slice assignment", "_sah",
 			"local _i=${2}",
-			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${1}")),
+			"local _l",
+			c.sliceLenString("_l", "${1}"),
 			`for ((_c=${_l};_c<${_i};_c++)); do`,
-			c.sliceAssignmentString("${1}", "${_c}", "${4}", false),
+			c.sliceAssignmentString("${1}", "${_c}", "${4}"),
 			`done`,
-			c.sliceAssignmentString("${1}", "${_i}", "${3}", false),
+			c.sliceAssignmentString("${1}", "${_i}", "${3}"),
 		)
 	}
 
 	if c.sliceCopyHelperRequired {
+		// $1: Destination slice
+		// $2: Source slice
 		c.addHelper("slice copy", "_sch",
 			"local _i=0",
-			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${2}")),
-			"local _n=$(eval \"echo \\${${1}}\")",
+			"local _l",
+			"local _v",
+			c.sliceLenString("_l", "${2}"),
 			"while [ ${_i} -lt ${_l} ]; do",
-			fmt.Sprintf("local _v=%s", c.sliceEvaluationString("${2}", "${_i}")),
-			c.sliceAssignmentString("${_n}", "${_i}", "${_v}", false),
+			c.sliceEvaluationString("_v", "${2}", "${_i}"),
+			c.sliceAssignmentString("${1}", "${_i}", "${_v}"),
 			"_i=$((${_i}+1))",
 			"done",
 		)
@@ -118,7 +125,7 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 	c.addLine(fmt.Sprintf("%s() {", name))
 
 	for i, param := range params {
-		s := c.varAssignmentString(param, fmt.Sprintf("$%d", i+1), false)
+		s := c.varAssignmentString(param, fmt.Sprintf("${%d}", i+1), false)
 		c.addLine(fmt.Sprintf("local %s", s))
 	}
 	return nil
@@ -206,12 +213,12 @@ func (c *converter) Continue() error {
 }
 
 func (c *converter) Print(values []string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", strings.Join(values, " ")))
+	c.addLine(c.printString(strings.Join(values, " ")))
 	return nil
 }
 
 func (c *converter) Panic(value string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", value))
+	c.addLine(c.printString(value))
 	c.addLine("exit 1")
 	return nil
 }
@@ -275,7 +282,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-			c.VarAssignment(helper, fmt.Sprintf("\"%s%s\"", left, right), false)
+			c.VarAssignment(helper, fmt.Sprintf("%s%s", left, right), false)
 		default:
 			return notAllowedError()
 		}
@@ -380,30 +387,21 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, fmt.Sprintf(`_dv%s`, c.varEvaluationString("_dvc", true)), false)
 
-	if len(values) > 0 {
-		vals := ""
-
-		for _, value := range values {
-			vals = fmt.Sprintf(`%s \"%s\"`, vals, value)
-		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), strings.TrimSpace(vals)))
+	for i, value := range values {
+		c.addLine(c.sliceAssignmentString(c.varEvaluationString(helper, false), transpiler.IntToString(i), value))
 	}
 	return c.varEvaluationString(helper, false), nil
 }
 
 func (c *converter) SliceEvaluation(name string, index string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(
-		helper,
-		c.sliceEvaluationString(name, index),
-		false,
-	)
+	c.addLine(c.sliceEvaluationString(c.varName(helper, false), name, index))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) SliceLen(name string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(name), false)
+	c.addLine(c.sliceLenString(c.varName(helper, false), name))
 
 	return c.VarEvaluation(helper, valueUsed, false)
 }
@@ -465,18 +463,14 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		argsCopy := call.Args()
 
 		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "$") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf("\"%s\"", arg)
-			}
-			argsCopy[j] = arg
+			argsCopy[j] = fmt.Sprintf(`"%s"`, arg)
 		}
 		space := ""
 
 		if len(argsCopy) > 0 {
 			space = " "
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, fmt.Sprintf(`"%s"%s%s`, c.StringToString(call.Name()), space, strings.Join(argsCopy, " ")))
 	}
 	callString := strings.Join(callStrings, " | ")
 
@@ -509,16 +503,10 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) Copy(destination string, source string, valueUsed bool, global bool) (string, error) {
-	destination = c.varName(destination, global)
-
-	c.addLine(fmt.Sprintf("_sch %s %s", destination, source))
-	c.sliceAssignmentHelperRequired = true
+	c.addLine(fmt.Sprintf("_sch %s %s", c.varEvaluationString(destination, global), source))
 	c.sliceCopyHelperRequired = true
 
-	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(c.varEvaluationString(destination, true)), false)
-
-	return c.varEvaluationString(helper, false), nil
+	return c.SliceLen(source, valueUsed) // All values of the source are copied.
 }
 
 func (c *converter) Exists(path string, valueUsed bool) (string, error) {
@@ -553,34 +541,27 @@ func (c *converter) varName(name string, global bool) string {
 }
 
 func (c *converter) varAssignmentString(name string, value string, global bool) string {
-	length := len(value)
-
-	if length > 0 {
-		if string(value[length-1]) != `"` {
-			value = fmt.Sprintf(`%s"`, value)
-		}
-		if string(value[0]) != `"` {
-			value = fmt.Sprintf(`"%s`, value)
-		}
-	}
-	return fmt.Sprintf("%s=%s", c.varName(name, global), value)
+	return fmt.Sprintf(`%s="%s"`, c.varName(name, global), value)
 }
 
 func (c *converter) varEvaluationString(name string, global bool) string {
 	return fmt.Sprintf("${%s}", c.varName(name, global))
 }
 
-func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
-	c.sliceAssignmentHelperRequired = true
-	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
+func (c *converter) sliceAssignmentString(name string, index string, value string) string {
+	return fmt.Sprintf(`printf -v "%s[%s]" '%%s' "%s"`, name, index, value)
+}
+
+func (c *converter) sliceEvaluationString(resultName string, name string, index string) string {
+	return fmt.Sprintf(`eval "%s=\"\${%s[%s]}\""`, resultName, name, index)
 }
 
-func (c *converter) sliceEvaluationString(name string, index string) string {
-	return fmt.Sprintf(`$(eval "echo \${%s[%s]}")`, name, index)
+func (c *converter) sliceLenString(resultName string, name string) string {
+	return fmt.Sprintf(`eval "%s=\${#%s[@]}"`, resultName, name)
 }
 
-func (c *converter) sliceLenString(name string) string {
-	return fmt.Sprintf(`$(eval "echo \${#%s[@]}")`, name)
+func (c *converter) printString(value string) string {
+	return fmt.Sprintf(`printf '%%s\n' "%s"`, value)
 }
 
 func (c *converter) ifStart(condition string, startWord string) error {
diff --git a/std/os.tsh b/std/os.tsh
index de27e0d..d01c2cc 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -5,7 +5,7 @@ func Shell() string {
 	if win[:3] == "Win" {
 		shell = "batch"
 	} else {
-		stdout, stderr, code := @ps("-p", "$$", "-o", "args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", `"[0-9a-zA-Z][0-9a-zA-Z]*$"`)
+		stdout, stderr, code := @sh("-c", "ps -p $PPID -o args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", "[0-9a-zA-Z][0-9a-zA-Z]*$")
 		shell = stdout
 	}
 	return shell
-- 
2.43.0


From aaa14c4812c6d5ad1a2ca7d1852e62435a575ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 25/39] fix: write and read files without interpreting path and
 content

---
 converters/bash/converter.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c081178..5e50bcd 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -224,10 +224,13 @@ func (c *converter) Panic(value string) error {
 }
 
 func (c *converter) WriteFile(path string, content string, append string) error {
-	helper := c.nextHelperVar()
+	line := c.printString(content)
 
-	c.VarAssignment(helper, fmt.Sprintf(`$(if [ "%s" -eq "%s" ]; then echo ">>"; else echo ">"; fi)`, append, transpiler.BoolToString(true)), false)
-	c.addLine(fmt.Sprintf(`eval "echo \"%s\" %s %s"`, content, c.varEvaluationString(helper, false), path))
+	c.addLine(fmt.Sprintf(`if [ "%s" -eq "%s" ]; then`, append, transpiler.BoolToString(true)))
+	c.addLine(fmt.Sprintf(`%s >> "%s"`, line, path))
+	c.addLine("else")
+	c.addLine(fmt.Sprintf(`%s > "%s"`, line, path))
+	c.addLine("fi")
 	return nil
 }
 
@@ -525,7 +528,8 @@ func (c *converter) Exists(path string, valueUsed bool) (string, error) {
 
 func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, fmt.Sprintf("$(cat \"%s\")", path), false)
+	c.VarAssignment(helper, fmt.Sprintf(`$(cat < "%s"; printf x)`, path), false)
+	c.removeCaptureEnd(helper)
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -560,6 +564,15 @@ func (c *converter) sliceLenString(resultName string, name string) string {
 	return fmt.Sprintf(`eval "%s=\${#%s[@]}"`, resultName, name)
 }
 
+// removeCaptureEnd removes the "x" which marks the end of a captured text and the line break in front of it. The mark is
+// necessary because Bash would remove all the line breaks at the end of the text otherwise.
+func (c *converter) removeCaptureEnd(helper string) {
+	name := c.varName(helper, false)
+
+	c.VarAssignment(helper, fmt.Sprintf("${%s%%x}", name), false)
+	c.VarAssignment(helper, fmt.Sprintf(`${%s%%$'\n'}`, name), false)
+}
+
 func (c *converter) printString(value string) string {
 	return fmt.Sprintf(`printf '%%s\n' "%s"`, value)
 }
-- 
2.43.0


From f32c8098c1d18478584349f659223d4c82c2b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 26/39] fix: only remove the trailing line break of captured
 output

---
 converters/bash/converter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 5e50bcd..0d48685 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -478,7 +478,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	callString := strings.Join(callStrings, " | ")
 
 	if valueUsed {
-		callString = fmt.Sprintf("$(%s)", callString)
+		callString = fmt.Sprintf("$(%s; _s=$?; printf x; exit ${_s})", callString)
 		helper1 := c.nextHelperVar()
 		helper2 := c.nextHelperVar()
 
@@ -489,6 +489,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 			return nil, err
 		}
 		c.VarDefinition(helper2, "$?", false)
+		c.removeCaptureEnd(helper1)
 		return []string{eval, "", c.varEvaluationString(helper2, false)}, nil // TODO: Return stderr (https://github.com/monstermichl/TypeShell/issues/28).
 	}
 	c.addLine(callString)
-- 
2.43.0


From c1eac0364f049697372a4bda11182ea6230a0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 27/39] fix: return unmodified input, also within functions

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 0d48685..446fe24 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -502,7 +502,7 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	if len(prompt) > 0 {
 		prompt = fmt.Sprintf(" -p \"%s\"", prompt)
 	}
-	c.addLine(fmt.Sprintf("read%s %s", prompt, helper))
+	c.addLine(fmt.Sprintf("IFS= read -r%s %s", prompt, c.varName(helper, false)))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From 85a5dd730cf5484354688803685671c140a73769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 28/39] fix: use an own flag for each of the nested Bash loops

---
 converters/bash/converter.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 446fe24..90020cb 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -13,12 +13,17 @@ type funcInfo struct {
 	name string
 }
 
+type forInfo struct {
+	flag string // Flag which is set after the first iteration.
+}
+
 type converter struct {
 	interpreter                   string
 	startCode                     []string
 	code                          []string
 	varCounter                    int
 	forCounter                    int
+	fors                          []forInfo
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -174,6 +179,10 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	c.fors = append(c.fors, forInfo{
+		flag: fmt.Sprintf("_fv%d", c.forCounter),
+	})
+	c.forCounter++
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.addLine("while true; do")
 	return nil
@@ -197,8 +206,9 @@ func (c *converter) ForCondition(condition string) error {
 
 func (c *converter) ForEnd() error {
 	c.addLine("done")
-	c.forCounter++
 
+	lastIndex := len(c.fors) - 1
+	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
 	return nil
 }
 
@@ -535,7 +545,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter)
+	return c.fors[len(c.fors)-1].flag
 }
 
 func (c *converter) varName(name string, global bool) string {
-- 
2.43.0


From e1ecec0401dafcd2617807dc595c478e38bd0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 29/39] fix: use own labels and an own flag for each of the
 Batch loops

---
 converters/batch/converter.go | 73 ++++++++++-------------------------
 1 file changed, 21 insertions(+), 52 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2d11ebc..873c47f 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -31,7 +31,9 @@ type funcInfo struct {
 }
 
 type forInfo struct {
-	label string
+	label    string
+	endLabel string
+	flag     string // Flag which is set after the first iteration.
 }
 
 type ifInfo struct {
@@ -48,7 +50,6 @@ type converter struct {
 	varCounter                    int
 	ifCounter                     int
 	forCounter                    int
-	endLabels                     []string
 	funcs                         []funcInfo
 	funcCounter                   int
 	fors                          []forInfo
@@ -78,10 +79,6 @@ func funcArgVar(subscript int) string {
 	return fmt.Sprintf("_fa%d", subscript)
 }
 
-func forLabel(count int) string {
-	return fmt.Sprintf(":_f%d", count)
-}
-
 func (c *converter) StringToString(value string) string {
 	c.addLf()
 
@@ -341,24 +338,26 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
-	label := c.nextForLabel()
-	c.nextEndLabel()
-	c.fors = append(c.fors, forInfo{
-		label: label,
-	})
-	c.addLine(fmt.Sprintf(`set "%s="`, c.mustCurrentForVar()))
-	c.addLine(label)
+	info := forInfo{
+		label:    fmt.Sprintf(":_f%d", c.forCounter),
+		endLabel: fmt.Sprintf(":_e%d", c.forCounter),
+		flag:     fmt.Sprintf("_fv%d", c.forCounter),
+	}
+	c.forCounter++
+	c.fors = append(c.fors, info)
+	c.addLine(fmt.Sprintf(`set "%s="`, info.flag))
+	c.addLine(info.label)
 	return nil
 }
 
 func (c *converter) ForIncrementStart() error {
-	c.addLine(fmt.Sprintf(`if defined %s (`, c.mustCurrentForVar()))
+	c.addLine(fmt.Sprintf(`if defined %s (`, c.mustCurrentForInfo().flag))
 	return nil
 }
 
 func (c *converter) ForIncrementEnd() error {
 	c.addLine(")")
-	c.addLine(fmt.Sprintf(`set "%s=1"`, c.mustCurrentForVar()))
+	c.addLine(fmt.Sprintf(`set "%s=1"`, c.mustCurrentForInfo().flag))
 	return nil
 }
 
@@ -368,27 +367,25 @@ func (c *converter) ForCondition(condition string) error {
 }
 
 func (c *converter) ForEnd() error {
-	w := c.fors[len(c.fors)-1]
+	info := c.mustCurrentForInfo()
 
-	c.addLine(fmt.Sprintf("goto %s", w.label))
+	c.addLine(fmt.Sprintf("goto %s", info.label))
 	c.addLine(")")
+	c.addLine(info.endLabel)
 
-	endLabel := c.popEndLabel()
 	lastIndex := len(c.fors) - 1
 	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
 
-	c.addLine(endLabel)
-
 	return nil
 }
 
 func (c *converter) Break() error {
-	c.addLine(fmt.Sprintf("goto %s", c.mustCurrentEndLabel()))
+	c.addLine(fmt.Sprintf("goto %s", c.mustCurrentForInfo().endLabel))
 	return nil
 }
 
 func (c *converter) Continue() error {
-	c.addLine(fmt.Sprintf("goto %s", c.mustCurrentForLabel()))
+	c.addLine(fmt.Sprintf("goto %s", c.mustCurrentForInfo().label))
 	return nil
 }
 
@@ -817,21 +814,6 @@ func (c *converter) addEndLine(line string) {
 	c.endCode = append(c.endCode, line)
 }
 
-func (c *converter) mustCurrentForLabel() string {
-	return forLabel(c.forCounter - 1)
-}
-
-func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter-1)
-}
-
-func (c *converter) nextForLabel() string {
-	label := forLabel(c.forCounter)
-	c.forCounter++
-
-	return label
-}
-
 func (c *converter) nextIfLabel() string {
 	label := fmt.Sprintf(":_i%d", c.ifCounter)
 	c.ifCounter++
@@ -867,21 +849,8 @@ func (c *converter) mustCurrentIfInfo() ifInfo {
 	return c.ifs[len(c.ifs)-1]
 }
 
-func (c *converter) mustCurrentEndLabel() string {
-	return c.endLabels[len(c.endLabels)-1]
-}
-
-func (c *converter) popEndLabel() string {
-	lastIndex := len(c.endLabels) - 1
-	label := c.mustCurrentEndLabel()
-	c.endLabels = slices.Delete(c.endLabels, lastIndex, lastIndex+1)
-
-	return label
-}
-
-func (c *converter) nextEndLabel() string {
-	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", len(c.endLabels)))
-	return c.mustCurrentEndLabel()
+func (c *converter) mustCurrentForInfo() forInfo {
+	return c.fors[len(c.fors)-1]
 }
 
 func (c *converter) nextHelperVar() string {
-- 
2.43.0


From efd7c17d90ccfa5f73194245d14a38648fe42de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 30/39] fix: handle length of slices in Batch

---
 converters/batch/converter.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 873c47f..539793c 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -160,28 +160,30 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceCopyHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Destination slice
 		// %2: Source slice
 		c.addHelper("slice copy", sliceCopyHelper,
 			`set "_i=0"`,
 			c.callFuncString(sliceLenGetHelper, []string{}, "%2"),
+			`set "_n=!_len!"`, // Amount of copied values.
 			":_sch_loop",
-			`if "!_i!" lss "!_len!" (`,
+			`if !_i! lss !_n! (`,
 			`for /f "delims=" %%i in ("%2_!_i!") do set "_v=!%%i!"`,
 			c.sliceAssignmentString("!%1!", "!_i!", "!_v!", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sch_loop",
 			")",
-			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!"),
+			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"),
+			`if !_n! gtr !_len! (`,
+			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_n!"),
+			")",
 		)
 	}
 
 	if c.sliceAssignmentHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Slice name
 		// %2: Assigned index
@@ -191,11 +193,12 @@ func (c *converter) ProgramEnd() error {
 			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"), // Get current slice length.
 			`set "_i=!_len!"`,
 			":_sah_loop",
-			`if "!_i!" lss "%2" (`,
+			`if !_i! lss %2 (`,
 			c.sliceAssignmentString("!%1!", "!_i!", "%3", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sah_loop",
-			") else (",
+			")",
+			`if %2 geq !_len! (`,
 			`set /A "_len=%2+1"`,
 			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_len!"),
 			")",
@@ -580,7 +583,7 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, "_dv!_dvc!", false)
 
-	c.sliceAssignmentHelperRequired = true
+	c.sliceLenSetHelperRequired = true
 	c.callFunc(sliceLenSetHelper, []string{}, c.varEvaluationString(helper, false), strconv.Itoa(len(values)))
 
 	// Init slice values.
@@ -723,8 +726,10 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 	c.callFunc(sliceCopyHelper, []string{}, c.varName(destination, global), source)
 
-	c.callFunc(sliceLenGetHelper, []string{}, c.varEvaluationString(destination, global))
-	return c.varEvaluationString("_len", true), nil
+	helper := c.nextHelperVar()
+	c.VarAssignment(helper, c.varEvaluationString("_n", true), false)
+
+	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) Exists(path string, valueUsed bool) (string, error) {
-- 
2.43.0


From 001757d7a5ff8545b0533ea422886ab1c157ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 31/39] fix: terminate Batch program if a function panics

---
 converters/batch/converter.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 539793c..8ee7de2 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -30,6 +30,10 @@ type funcInfo struct {
 	name string
 }
 
+func (i funcInfo) returnLabel() string {
+	return fmt.Sprintf(":_ret_%s", i.name)
+}
+
 type forInfo struct {
 	label    string
 	endLabel string
@@ -279,9 +283,10 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 }
 
 func (c *converter) FuncEnd() error {
-	name := c.mustCurrentFuncInfo().name
+	info := c.mustCurrentFuncInfo()
+	name := info.name
 
-	c.addLine(fmt.Sprintf(":_ret_%s", name))
+	c.addLine(info.returnLabel())
 	c.addLine("exit /B")
 	c.addLine(fmt.Sprintf(":_eo_%s", name))
 	c.addLine(fmt.Sprintf(":: %s function end", name))
@@ -297,7 +302,7 @@ func (c *converter) Return(values []transpiler.ReturnValue) error {
 	for i, value := range values {
 		c.VarDefinition(returnValVar(i), value.Value(), true)
 	}
-	c.addLine(fmt.Sprintf("goto :_ret_%s", currFunc.name))
+	c.addLine(fmt.Sprintf("goto %s", currFunc.returnLabel()))
 	return nil
 }
 
@@ -400,7 +405,7 @@ func (c *converter) Print(values []string) error {
 func (c *converter) Panic(value string) error {
 	c.callEchoFunc(value)
 	c.addLine(`set "_e=1"`)
-	c.addLine("goto :end")
+	c.addLine(fmt.Sprintf("goto %s", c.terminationLabel()))
 	return nil
 }
 
@@ -656,6 +661,7 @@ func (c *converter) Group(value string, valueUsed bool) (string, error) {
 func (c *converter) FuncCall(name string, args []string, returnTypes []parser.ValueType, valueUsed bool) ([]string, error) {
 	returnValues := []string{}
 	c.callFunc(name, args)
+	c.addLine(fmt.Sprintf(`if "%s" neq "0" goto %s`, c.varEvaluationString("_e", true), c.terminationLabel())) // The function might have panicked.
 
 	if valueUsed {
 		for i := range returnTypes {
@@ -846,6 +852,15 @@ func (c *converter) inFunction() bool {
 	return len(c.funcs) > 0
 }
 
+// terminationLabel returns the label to jump to if the program shall be terminated. Functions must return to their
+// caller first.
+func (c *converter) terminationLabel() string {
+	if c.inFunction() {
+		return c.mustCurrentFuncInfo().returnLabel()
+	}
+	return ":end"
+}
+
 func (c *converter) mustCurrentFuncInfo() funcInfo {
 	return c.funcs[len(c.funcs)-1]
 }
-- 
2.43.0


From e07c693accfa3cf21aafc13d060b0903d004091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 32/39] fix: handle empty, blank and special values in Batch

---
 converters/batch/converter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 8ee7de2..165fa44 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -225,7 +225,8 @@ func (c *converter) ProgramEnd() error {
 	if c.stringSubscriptHelperRequired {
 		c.addHelper("string subscript", stringSubscriptHelper,
 			`set /A "_sh=(%2-%1)+1"`,
-			fmt.Sprintf(`set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0)), // https://stackoverflow.com/a/636391
+			`set "_sub="`,
+			fmt.Sprintf(`if defined %s set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0), funcArgVar(0)), // https://stackoverflow.com/a/636391
 		)
 	}
 
@@ -243,7 +244,7 @@ func (c *converter) ProgramEnd() error {
 	if c.echoHelperRequired {
 		v := c.varEvaluationString(funcArgVar(0), true)
 		c.addHelper("echo", echoHelper,
-			fmt.Sprintf(`if "%s" neq "" (echo %s) else echo.`, v, v), // echo. could be problematic (see discussion: https://stackoverflow.com/a/20691061).
+			fmt.Sprintf(`echo(%s`, v), // Also handles empty and blank values and values like "on" and "off" (see discussion: https://stackoverflow.com/a/20691061).
 		)
 	}
 	c.addEndLine(":end")
@@ -724,7 +725,8 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 
 func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, helper, prompt))
+	c.addLine(c.varAssignmentString(helper, "", false)) // Variable is not touched if nothing is entered.
+	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, c.varName(helper, false), prompt))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From dae14967d2da0222f7306602b5299d59dce78923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 33/39] fix: use a new converter for each output

---
 tsh.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tsh.go b/tsh.go
index 92bab69..fb9a65c 100644
--- a/tsh.go
+++ b/tsh.go
@@ -16,15 +16,18 @@ const (
 	typeBash  string = "bash"
 )
 
-var convMapping = map[string]transpiler.Converter{
-	typeBatch: batch.New(),
-	typeBash:  bash.New(),
+type newConverter func() transpiler.Converter
+
+// Converters keep track of their code, therefore a new one is required for each output.
+var convMapping = map[string]newConverter{
+	typeBatch: func() transpiler.Converter { return batch.New() },
+	typeBash:  func() transpiler.Converter { return bash.New() },
 }
 
 type options struct {
 	in         string
 	out        string
-	converters []transpiler.Converter
+	converters []newConverter
 }
 
 func parseOptions() options {
@@ -83,7 +86,8 @@ func main() {
 	options := parseOptions()
 	t := transpiler.New()
 
-	for _, conv := range options.converters {
+	for _, newConv := range options.converters {
+		conv := newConv()
 		in := options.in
 		dump, err := t.Transpile(in, conv)
 
-- 
2.43.0


From 918c253fba710ed31675676e3c4cf7d7deab28d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 34/39] fix: report incomplete options and outputs which cannot
 be written

---
 tsh.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tsh.go b/tsh.go
index fb9a65c..521484d 100644
--- a/tsh.go
+++ b/tsh.go
@@ -39,8 +39,12 @@ func parseOptions() options {
 		types = append(types, k)
 	}
 
-	for i := 1; i < (len(args) - 1); i += 2 {
+	for i := 1; i < len(args); i += 2 {
 		cSwitch := args[i]
+
+		if i == len(args)-1 {
+			panic(fmt.Errorf("no value provided for option %s", cSwitch))
+		}
 		cValue := args[i+1]
 
 		switch cSwitch {
@@ -82,6 +86,13 @@ func parseOptions() options {
 	return options
 }
 
+func isSameFile(path1 string, path2 string) bool {
+	stat1, err1 := os.Stat(path1)
+	stat2, err2 := os.Stat(path2)
+
+	return err1 == nil && err2 == nil && os.SameFile(stat1, stat2)
+}
+
 func main() {
 	options := parseOptions()
 	t := transpiler.New()
@@ -97,6 +108,15 @@ func main() {
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
 
-		os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		out := filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension()))
+
+		// Make sure the input file is not overwritten.
+		if isSameFile(in, out) {
+			panic(fmt.Errorf("output %s is the input file", out))
+		}
+
+		if err := os.WriteFile(out, []byte(dump), 0777); err != nil {
+			panic(err)
+		}
 	}
 }
-- 
2.43.0


From 62e35912d74f4e80827f973bbdeb46e0b3b215c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 35/39] fix: std/strings agrees with Go for empty operands,
 overlaps and zero counts

---
 std/strings.tsh | 73 +++++++++++++++----------------------------------
 1 file changed, 22 insertions(+), 51 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index e9426f9..eb8cae2 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -2,19 +2,8 @@ func Index(s string, substr string) int {
 	sul := len(substr)
 	ind := -1
 
-	for i := 0; i < len(s); i++ {
-		j := 0
-
-		for ; j < sul; j++ {
-			si := i + j
-			char := s[si]
-
-			if s[i+j] != substr[j] {
-				break
-			}
-		}
-
-		if j == sul {
+	for i := 0; i+sul <= len(s); i++ {
+		if s[i:i+sul] == substr {
 			ind = i
 			break
 		}
@@ -53,8 +42,7 @@ func HasSuffix(s string, suffix string) bool {
 	l := len(suffix)
 
 	if len(s) >= l {
-		l *= -1
-		return s[l:] == suffix
+		return s[len(s)-l:] == suffix
 	}
 	return false
 }
@@ -84,48 +72,35 @@ func Split(s string, sep string) []string {
 	sepLen := len(sep)
 	elems := []string{}
 
-	// If s and sep are empty, slice will be empty.
-	if sLen > 0 || sepLen > 0 {
+	if sepLen == 0 {
+		// If sep is empty, split after every char.
+		for i := 0; i < sLen; i++ {
+			elems[i] = s[i]
+		}
+	} else {
 		startI := 0
 		endI := 0
-		elIndex := 0
-		boundary := len(s)
-
-		if sLen > 0 {
-			boundary -= sepLen
-		}
 
-		for endI <= boundary {
+		for endI+sepLen <= sLen {
 			if s[endI:endI+sepLen] == sep {
-				sepEmpty := sepLen == 0
-
-				// If sep is empty, split after every char.
-				if sepEmpty {
-					endI++
-				}
-
-				if !sepEmpty || endI <= boundary {
-					elems[elIndex] = s[startI:endI]
-					endI += sepLen
-					startI = endI
-				}
-				elIndex++
-			} else if endI == boundary {
-				// Add last element to slice.
-				elems[elIndex] = s[startI:]
-				break
+				elems[len(elems)] = s[startI:endI]
+				endI += sepLen
+				startI = endI
 			} else {
 				endI++
 			}
 		}
+
+		// Add last element to slice.
+		elems[len(elems)] = s[startI:]
 	}
 	return elems
 }
 
 func Repeat(s string, count int) string {
-	new := s
+	new := ""
 
-	for i := 1; i < count; i++ {
+	for i := 0; i < count; i++ {
 		new += s
 	}
 	return new
@@ -138,7 +113,7 @@ func Replace(s string, old string, new string, n int) string {
 	lenOld := len(old)
 	lenNew := len(new)
 
-	if lenOld == 0 {
+	if lenOld == 0 && n != 0 {
 		res = new
 		rep++
 	}
@@ -181,14 +156,10 @@ func CutSuffix(s string, suffix string) (string, bool) {
 }
 
 func Cut(s string, sep string) (string, string, bool) {
-	lenS := len(s)
+	i := Index(s, sep)
 
-	if lenS > 0 {
-		i := Index(s, sep)
-
-		if i >= 0 {
-			return s[0:i], s[i+len(sep):], true
-		}
+	if i >= 0 {
+		return s[0:i], s[i+len(sep):], true
 	}
 	return s, "", false
 }
-- 
2.43.0


From 61a4281521076c56877617051aa594dd6e1c5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 36/39] fix: the blank identifier can be defined in nested
 scopes

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 113142d..0011325 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -541,7 +541,7 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 	name := token.Value()
 	_, exists := ctx.findVariable(name, p.prefix)
 
-	if exists {
+	if exists && name != BLANK_IDENTIFIER {
 		return p.atError(fmt.Sprintf("variable %s has already been defined", name), token)
 	}
 	return nil
-- 
2.43.0


From 59933ede45ccbe54c404b78fd20ed46f7766a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 37/39] fix: blocks with nothing but values get a no-op

---
 transpiler/transpiler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index f01803a..115b3cf 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -808,7 +808,16 @@ func (t *transpiler) evaluate(statement parser.Statement) error {
 			return fmt.Errorf("statement is not an expression (%v)", statement)
 		}
 		_, err := t.evaluateExpression(expression, false)
-		return err
+
+		if err != nil {
+			return err
+		}
+
+		// The evaluation of a value does not necessarily result in code but blocks must not be empty.
+		if _, isCall := expression.(parser.Call); !isCall {
+			return t.converter.Nop()
+		}
+		return nil
 	}
 }
 
-- 
2.43.0


From 57fe04dcd345bf931c67c52b654e09ef889bc847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 38/39] fix: the blank identifier takes values of every type

---
 parser/parser.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0011325..e64a497 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1161,13 +1161,16 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		variable, exists := ctx.findVariable(name, prefix)
 		variableValueType := variable.ValueType()
 
+		// The blank identifier takes values of every type.
+		exists = exists && name != BLANK_IDENTIFIER
+
 		// If the variable already exists, make sure it has the same type as the specified type.
 		if exists && specifiedType.DataType() != DATA_TYPE_UNKNOWN && !specifiedType.Equals(variableValueType) {
 			return nil, p.atError(fmt.Sprintf(`variable "%s" already exists but has type %s`, name, variableValueType.String()), nextToken)
 		}
 
 		// If a variable is re-defined, keep using it. Globals are not re-defined by functions.
-		if exists && name != BLANK_IDENTIFIER && !(variable.Global() && ctx.findScope(SCOPE_FUNCTION)) {
+		if exists && !(variable.Global() && ctx.findScope(SCOPE_FUNCTION)) {
 			variables = append(variables, variable)
 			continue
 		}
@@ -1377,11 +1380,23 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 
 		// Make sure variable has been defined.
 		definedVariable, exists := ctx.findVariable(name, p.prefix)
+		valueType := valuesTypes[i]
+
+		// The blank identifier needs no definition and takes values of every type.
+		if name == BLANK_IDENTIFIER {
+			global := ctx.global()
+			storedName := name
+
+			if global {
+				storedName = buildPrefixedName(p.prefix, name)
+			}
+			definedVariable = NewVariable(storedName, valueType, global, false)
+			exists = true
+		}
 
 		if !exists {
 			return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
 		}
-		valueType := valuesTypes[i]
 		expectedValueType := definedVariable.ValueType()
 
 		if valueType != expectedValueType {
@@ -1423,7 +1438,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		nameTokens = append(nameTokens, nameToken)
 		_, exists := ctx.findVariable(name, p.prefix)
 
-		if exists {
+		if exists && name != BLANK_IDENTIFIER {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
 		}
 		valueType, err := p.evaluateValueType()
-- 
2.43.0


From 593dcc5ff316d100051f36ee620f937ec5ed21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 39/39] fix: the layout of an imported file influenced the
 names in the script

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e64a497..b9637fd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -261,10 +261,15 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	p.path = path
 	p.prefix = ""
 
-	// If it's an imported file, use source hash as prefix.
+	// If it's an imported file, use the hash of its tokens as prefix (the layout of a file must not influence the script).
 	if imported {
 		h := sha256.New()
-		h.Write(source)
+
+		for _, token := range tokens {
+			if token.Type() != lexer.NEWLINE {
+				fmt.Fprintf(h, "%d %q\n", token.Type(), token.Value())
+			}
+		}
 
 		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
 		p.prefix = p.uniquePrefix(p.prefix)
-- 
2.43.0

