From 46c719f2cef015a7b90f28ab18c600f45c2a858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 01/14] fix: build a script for the program with no
 instructions

acc.Build indexed the last of zero statements and panicked for the chain {1}
(addchain search 1, addchain fmt -b on 'return 1').
---
 acc/build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acc/build.go b/acc/build.go
index 38adda3..2bc1070 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -51,6 +51,15 @@ func newbuilder(p *ir.Program) *builder {
 func (b *builder) process() error {
 	insts := b.prog.Instructions
 	n := len(insts)
+
+	// A program with no instructions computes the chain consisting of just 1.
+	if n == 0 {
+		b.chain.Statements = append(b.chain.Statements, ast.Statement{
+			Expr: ast.Operand(0),
+		})
+		return nil
+	}
+
 	complexity := 0
 	for i := 0; i < n; i++ {
 		complexity++
-- 
2.43.0


From 15935d775b49d36166d6c144910d0f54169680d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 02/14] fix: report an error when allocating a program with no
 instructions

The allocator pass panicked looking for the output of the last instruction
(addchain gen on 'return 1').
---
 acc/pass/alloc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 812df5a..ce47a8b 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -1,6 +1,7 @@
 package pass
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ir"
@@ -24,6 +25,11 @@ type Allocator struct {
 
 // Execute performs temporary variable allocation.
 func (a Allocator) Execute(p *ir.Program) error {
+	// There's no output to allocate without at least one instruction.
+	if len(p.Instructions) == 0 {
+		return errors.New("cannot allocate variables: program has no instructions")
+	}
+
 	// Canonicalize operands, collect unique indexes, and delete all names.
 	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
 		return err
-- 
2.43.0


From a796b032a09f707ae7b8f832d5df73c36fc30614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 03/14] fix: parenthesize printed expressions as the grammar
 requires

Nested right operands of addition, and operators under shift or double, were
printed without parentheses: 'return 1 + (1 + 1)' was reformatted to a script
for a different tree, and 'return 2*(2*1)', '(1 << 2) << 3' and '(2*1) << 2'
to text that does not parse.
---
 acc/printer/printer.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 96e8baa..77ddd3b 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -61,7 +61,7 @@ func (p *printer) node(n interface{}) {
 	case ast.Statement:
 		p.statement(n)
 	case ast.Expr:
-		p.expr(n, nil)
+		p.expr(n, ast.LowestPrec)
 	default:
 		p.SetError(errutil.UnexpectedType(n))
 	}
@@ -73,15 +73,17 @@ func (p *printer) statement(stmt ast.Statement) {
 	} else {
 		p.Printf("return\t\t")
 	}
-	p.expr(stmt.Expr, nil)
+	p.expr(stmt.Expr, ast.LowestPrec)
 	p.NL()
 }
 
-func (p *printer) expr(e, parent ast.Expr) {
-	// Parens required if the precence of this operator is less than its parent.
-	if parent != nil && e.Precedence() < parent.Precedence() {
+// expr prints e in a position that admits expressions of at least the given
+// precedence.
+func (p *printer) expr(e ast.Expr, prec int) {
+	// Parens required if the precence of this operator is less than allowed here.
+	if e.Precedence() < prec {
 		p.Printf("(")
-		p.expr(e, nil)
+		p.expr(e, ast.LowestPrec)
 		p.Printf(")")
 		return
 	}
@@ -103,18 +105,21 @@ func (p *printer) expr(e, parent ast.Expr) {
 }
 
 func (p *printer) add(a ast.Add) {
-	p.expr(a.X, a)
+	// Addition is left associative, so a sum on the right needs parens.
+	p.expr(a.X, a.Precedence())
 	p.Printf(" + ")
-	p.expr(a.Y, a)
+	p.expr(a.Y, a.Precedence()+1)
 }
 
 func (p *printer) double(d ast.Double) {
 	p.Printf("2*")
-	p.expr(d.X, d)
+	// The grammar only allows operands and parenthesized expressions here.
+	p.expr(d.X, ast.HighestPrec)
 }
 
 func (p *printer) shift(s ast.Shift) {
-	p.expr(s.X, s)
+	// The grammar only allows operands and parenthesized expressions here.
+	p.expr(s.X, ast.HighestPrec)
 	p.Printf(" << %d", s.S)
 }
 
-- 
2.43.0


From 226052c430ea0b5d0165e90049134984f2ac17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 04/14] fix: refuse to generate code for programs with dangling
 inputs

A script that reads an intermediate of a shift by index (for example
'a = 1 << 2', 'return a + [1]') was given a temporary that is never written.
---
 internal/gen/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 46a7775..4a20722 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -56,9 +56,10 @@ func PrepareData(cfg Config, s *ast.Chain) (*Data, error) {
 		return nil, err
 	}
 
-	// Apply processing passes: temporary variable allocation, and computing the
-	// full addition chain sequence and operations.
-	if err := pass.Exec(p, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
+	// Apply processing passes: ensure every input is output by some instruction,
+	// temporary variable allocation, and computing the full addition chain
+	// sequence and operations.
+	if err := pass.Exec(p, pass.Validate, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From ec8270d267615dd33783952e592b064a4b27e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 05/14] fix: bound the number of tokens used by the parallel
 executor

A concurrency limit of zero deadlocked, a negative limit panicked, and a huge
limit spent forever acquiring tokens.
---
 alg/exec/exec.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/alg/exec/exec.go b/alg/exec/exec.go
index 54935e7..b38ab6b 100644
--- a/alg/exec/exec.go
+++ b/alg/exec/exec.go
@@ -76,9 +76,19 @@ func (p *Parallel) SetLogger(l *log.Logger) {
 func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	rs := make([]Result, len(as))
 
+	// At least one algorithm must be allowed to run, and there's no use for more
+	// tokens than algorithms.
+	limit := p.limit
+	if limit > len(as) {
+		limit = len(as)
+	}
+	if limit < 1 {
+		limit = 1
+	}
+
 	// Use buffered channel to limit concurrency.
 	type token struct{}
-	sem := make(chan token, p.limit)
+	sem := make(chan token, limit)
 
 	for i, a := range as {
 		sem <- token{}
@@ -91,7 +101,7 @@ func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	}
 
 	// Wait for completion.
-	for i := 0; i < p.limit; i++ {
+	for i := 0; i < limit; i++ {
 		sem <- token{}
 	}
 
-- 
2.43.0


From b0addaffd65f18d91dce4f7b2bc03ef92cb0e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 06/14] fix: report errors for division by zero and excessive
 powers in expressions

Both crashed the evaluator.
---
 internal/calc/calc.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 71eed0c..1fd81c7 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -21,17 +21,42 @@ type operator struct {
 	precedence    int
 	associativity associativity
 	apply         func(*big.Int, *big.Int, *big.Int) *big.Int
+	check         func(*big.Int, *big.Int) error // optional operand check
 }
 
 // operators supported by the calculator.
 var operators = map[byte]operator{
-	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }},
+	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }, check: checkexp},
 	'*': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Mul},
-	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div},
+	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div, check: checkdiv},
 	'+': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Add},
 	'-': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Sub},
 }
 
+// maxexpbits is the largest size of exponentiation result allowed, in bits.
+const maxexpbits = 1 << 26
+
+// checkexp returns an error if x^y is too large to compute.
+func checkexp(x, y *big.Int) error {
+	// Powers of 0, 1 and -1 are always small, as are non-positive exponents.
+	if x.BitLen() <= 1 || y.Sign() <= 0 {
+		return nil
+	}
+	// Note |x| >= 2, therefore x^y has at least (x.BitLen()-1)*y bits.
+	if !y.IsInt64() || y.Int64() > maxexpbits/int64(x.BitLen()-1) {
+		return errors.New("exponentiation result too large")
+	}
+	return nil
+}
+
+// checkdiv returns an error if y is zero.
+func checkdiv(_, y *big.Int) error {
+	if y.Sign() == 0 {
+		return errors.New("division by zero")
+	}
+	return nil
+}
+
 // yard implements the "shunting yard" algorithm.
 type yard struct {
 	operands  []*big.Int
@@ -70,8 +95,15 @@ func (y *yard) apply(op operator) error {
 		return errors.New("too few operands")
 	}
 
+	x, w := y.operands[n-2], y.operands[n-1]
+	if op.check != nil {
+		if err := op.check(x, w); err != nil {
+			return err
+		}
+	}
+
 	z := new(big.Int)
-	op.apply(z, y.operands[n-2], y.operands[n-1])
+	op.apply(z, x, w)
 	y.operands = append(y.operands[:n-2], z)
 
 	return nil
-- 
2.43.0


From e5faaa9c4482226c193fa4e1807e548d0b47c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 07/14] fix: refuse to search for chains for non-positive
 targets

Zero and negative targets crashed search algorithms.
---
 cmd/addchain/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index 434e484..ef8d7d9 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -69,6 +69,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	cmd.Log.Printf("hex: %x", n)
 	cmd.Log.Printf("dec: %s", n)
 
+	if n.Sign() <= 0 {
+		return cmd.Fail("target must be positive")
+	}
+
 	// Execute an ensemble of algorithms.
 	ex := exec.NewParallel()
 	if cmd.verbose {
-- 
2.43.0


From 3ad84093dbc4f17b3d54b0a0f105adcb383563ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 08/14] fix: reject operand indexes that overflow when parsing

The index wrapped to a negative operand, which prints to text that does not parse.
---
 acc/parse/acc.peg                    |  2 +-
 acc/parse/internal/parser/operand.go | 16 ++++++
 acc/parse/internal/parser/zparser.go | 84 ++++++++++++++--------------
 3 files changed, 59 insertions(+), 43 deletions(-)
 create mode 100644 acc/parse/internal/parser/operand.go

diff --git a/acc/parse/acc.peg b/acc/parse/acc.peg
index bd80d7e..2a97ae2 100644
--- a/acc/parse/acc.peg
+++ b/acc/parse/acc.peg
@@ -96,7 +96,7 @@ One <- '1' {
 }
 
 Index <- '[' _ idx:UintLiteral _ ']' {
-    return ast.Operand(idx.(uint)), nil
+    return operand(idx.(uint))
 }
 
 // Identifiers
diff --git a/acc/parse/internal/parser/operand.go b/acc/parse/internal/parser/operand.go
new file mode 100644
index 0000000..f2c160f
--- /dev/null
+++ b/acc/parse/internal/parser/operand.go
@@ -0,0 +1,16 @@
+package parser
+
+import (
+	"fmt"
+
+	"github.com/mmcloughlin/addchain/acc/ast"
+)
+
+// operand builds the operand expression for the given chain index.
+func operand(idx uint) (ast.Expr, error) {
+	op := ast.Operand(idx)
+	if op < 0 || uint(op) != idx {
+		return op, fmt.Errorf("index %d out of range", idx)
+	}
+	return op, nil
+}
diff --git a/acc/parse/internal/parser/zparser.go b/acc/parse/internal/parser/zparser.go
index 0472dae..41011ea 100644
--- a/acc/parse/internal/parser/zparser.go
+++ b/acc/parse/internal/parser/zparser.go
@@ -564,15 +564,15 @@ var g = &grammar{
 		},
 		{
 			name: "Identifier",
-			pos:  position{line: 104, col: 1, offset: 1807},
+			pos:  position{line: 104, col: 1, offset: 1798},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 15, offset: 1821},
+				pos: position{line: 104, col: 15, offset: 1812},
 				run: (*parser).callonIdentifier1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 15, offset: 1821},
+					pos: position{line: 104, col: 15, offset: 1812},
 					exprs: []interface{}{
 						&charClassMatcher{
-							pos:        position{line: 104, col: 15, offset: 1821},
+							pos:        position{line: 104, col: 15, offset: 1812},
 							val:        "[a-zA-Z_]",
 							chars:      []rune{'_'},
 							ranges:     []rune{'a', 'z', 'A', 'Z'},
@@ -580,9 +580,9 @@ var g = &grammar{
 							inverted:   false,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 25, offset: 1831},
+							pos: position{line: 104, col: 25, offset: 1822},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 25, offset: 1831},
+								pos:        position{line: 104, col: 25, offset: 1822},
 								val:        "[a-zA-Z0-9_]",
 								chars:      []rune{'_'},
 								ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -596,15 +596,15 @@ var g = &grammar{
 		},
 		{
 			name: "UintLiteral",
-			pos:  position{line: 110, col: 1, offset: 1904},
+			pos:  position{line: 110, col: 1, offset: 1895},
 			expr: &actionExpr{
-				pos: position{line: 110, col: 16, offset: 1919},
+				pos: position{line: 110, col: 16, offset: 1910},
 				run: (*parser).callonUintLiteral1,
 				expr: &labeledExpr{
-					pos:   position{line: 110, col: 16, offset: 1919},
+					pos:   position{line: 110, col: 16, offset: 1910},
 					label: "u64",
 					expr: &ruleRefExpr{
-						pos:  position{line: 110, col: 20, offset: 1923},
+						pos:  position{line: 110, col: 20, offset: 1914},
 						name: "Uint64Literal",
 					},
 				},
@@ -612,23 +612,23 @@ var g = &grammar{
 		},
 		{
 			name: "Uint64Literal",
-			pos:  position{line: 114, col: 1, offset: 1977},
+			pos:  position{line: 114, col: 1, offset: 1968},
 			expr: &actionExpr{
-				pos: position{line: 114, col: 18, offset: 1994},
+				pos: position{line: 114, col: 18, offset: 1985},
 				run: (*parser).callonUint64Literal1,
 				expr: &choiceExpr{
-					pos: position{line: 114, col: 19, offset: 1995},
+					pos: position{line: 114, col: 19, offset: 1986},
 					alternatives: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 114, col: 19, offset: 1995},
+							pos:  position{line: 114, col: 19, offset: 1986},
 							name: "HexUintLiteral",
 						},
 						&ruleRefExpr{
-							pos:  position{line: 114, col: 36, offset: 2012},
+							pos:  position{line: 114, col: 36, offset: 2003},
 							name: "OctalUintLiteral",
 						},
 						&ruleRefExpr{
-							pos:  position{line: 114, col: 55, offset: 2031},
+							pos:  position{line: 114, col: 55, offset: 2022},
 							name: "DecimalUintLiteral",
 						},
 					},
@@ -637,11 +637,11 @@ var g = &grammar{
 		},
 		{
 			name: "DecimalUintLiteral",
-			pos:  position{line: 118, col: 1, offset: 2108},
+			pos:  position{line: 118, col: 1, offset: 2099},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 118, col: 23, offset: 2130},
+				pos: position{line: 118, col: 23, offset: 2121},
 				expr: &charClassMatcher{
-					pos:        position{line: 118, col: 23, offset: 2130},
+					pos:        position{line: 118, col: 23, offset: 2121},
 					val:        "[0-9]",
 					ranges:     []rune{'0', '9'},
 					ignoreCase: false,
@@ -651,20 +651,20 @@ var g = &grammar{
 		},
 		{
 			name: "HexUintLiteral",
-			pos:  position{line: 120, col: 1, offset: 2138},
+			pos:  position{line: 120, col: 1, offset: 2129},
 			expr: &seqExpr{
-				pos: position{line: 120, col: 19, offset: 2156},
+				pos: position{line: 120, col: 19, offset: 2147},
 				exprs: []interface{}{
 					&litMatcher{
-						pos:        position{line: 120, col: 19, offset: 2156},
+						pos:        position{line: 120, col: 19, offset: 2147},
 						val:        "0x",
 						ignoreCase: false,
 						want:       "\"0x\"",
 					},
 					&oneOrMoreExpr{
-						pos: position{line: 120, col: 24, offset: 2161},
+						pos: position{line: 120, col: 24, offset: 2152},
 						expr: &charClassMatcher{
-							pos:        position{line: 120, col: 24, offset: 2161},
+							pos:        position{line: 120, col: 24, offset: 2152},
 							val:        "[0-9a-fA-F]",
 							ranges:     []rune{'0', '9', 'a', 'f', 'A', 'F'},
 							ignoreCase: false,
@@ -676,20 +676,20 @@ var g = &grammar{
 		},
 		{
 			name: "OctalUintLiteral",
-			pos:  position{line: 122, col: 1, offset: 2175},
+			pos:  position{line: 122, col: 1, offset: 2166},
 			expr: &seqExpr{
-				pos: position{line: 122, col: 21, offset: 2195},
+				pos: position{line: 122, col: 21, offset: 2186},
 				exprs: []interface{}{
 					&litMatcher{
-						pos:        position{line: 122, col: 21, offset: 2195},
+						pos:        position{line: 122, col: 21, offset: 2186},
 						val:        "0",
 						ignoreCase: false,
 						want:       "\"0\"",
 					},
 					&oneOrMoreExpr{
-						pos: position{line: 122, col: 25, offset: 2199},
+						pos: position{line: 122, col: 25, offset: 2190},
 						expr: &charClassMatcher{
-							pos:        position{line: 122, col: 25, offset: 2199},
+							pos:        position{line: 122, col: 25, offset: 2190},
 							val:        "[0-7]",
 							ranges:     []rune{'0', '7'},
 							ignoreCase: false,
@@ -701,31 +701,31 @@ var g = &grammar{
 		},
 		{
 			name: "__",
-			pos:  position{line: 126, col: 1, offset: 2229},
+			pos:  position{line: 126, col: 1, offset: 2220},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 126, col: 7, offset: 2235},
+				pos: position{line: 126, col: 7, offset: 2226},
 				expr: &ruleRefExpr{
-					pos:  position{line: 126, col: 7, offset: 2235},
+					pos:  position{line: 126, col: 7, offset: 2226},
 					name: "Whitespace",
 				},
 			},
 		},
 		{
 			name: "_",
-			pos:  position{line: 127, col: 1, offset: 2247},
+			pos:  position{line: 127, col: 1, offset: 2238},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 127, col: 6, offset: 2252},
+				pos: position{line: 127, col: 6, offset: 2243},
 				expr: &ruleRefExpr{
-					pos:  position{line: 127, col: 6, offset: 2252},
+					pos:  position{line: 127, col: 6, offset: 2243},
 					name: "Whitespace",
 				},
 			},
 		},
 		{
 			name: "Whitespace",
-			pos:  position{line: 129, col: 1, offset: 2265},
+			pos:  position{line: 129, col: 1, offset: 2256},
 			expr: &charClassMatcher{
-				pos:        position{line: 129, col: 15, offset: 2279},
+				pos:        position{line: 129, col: 15, offset: 2270},
 				val:        "[ \\t\\r]",
 				chars:      []rune{' ', '\t', '\r'},
 				ignoreCase: false,
@@ -734,9 +734,9 @@ var g = &grammar{
 		},
 		{
 			name: "EOL",
-			pos:  position{line: 130, col: 1, offset: 2287},
+			pos:  position{line: 130, col: 1, offset: 2278},
 			expr: &litMatcher{
-				pos:        position{line: 130, col: 8, offset: 2294},
+				pos:        position{line: 130, col: 8, offset: 2285},
 				val:        "\n",
 				ignoreCase: false,
 				want:       "\"\\n\"",
@@ -744,9 +744,9 @@ var g = &grammar{
 		},
 		{
 			name: "EOF",
-			pos:  position{line: 131, col: 1, offset: 2299},
+			pos:  position{line: 131, col: 1, offset: 2290},
 			expr: &notExpr{
-				pos: position{line: 131, col: 8, offset: 2306},
+				pos: position{line: 131, col: 8, offset: 2297},
 				expr: &anyMatcher{
 					line: 131, col: 9, offset: 2307,
 				},
@@ -880,7 +880,7 @@ func (p *parser) callonOne1() (interface{}, error) {
 }
 
 func (c *current) onIndex1(idx interface{}) (interface{}, error) {
-	return ast.Operand(idx.(uint)), nil
+	return operand(idx.(uint))
 }
 
 func (p *parser) callonIndex1() (interface{}, error) {
-- 
2.43.0


From 72f0e6c9009af5cbd8590144b9e8cd6e96dc527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 09/14] fix: translate shift by zero to the identity

Previously a shift by zero gave an instruction whose output was the last
element, regardless of its input.
---
 acc/translate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acc/translate.go b/acc/translate.go
index 91bfcf1..ff38992 100644
--- a/acc/translate.go
+++ b/acc/translate.go
@@ -110,6 +110,11 @@ func (s *state) shift(sh ast.Shift) (*ir.Operand, error) {
 		return nil, err
 	}
 
+	// Shift by zero is the identity.
+	if sh.S == 0 {
+		return x, nil
+	}
+
 	s.n += int(sh.S)
 	out := ir.Index(s.n - 1)
 	inst := &ir.Instruction{
-- 
2.43.0


From 0de0b5f6b6efb580ffa372b2d8e3c29c2fea17fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 10/14] fix: refuse oversized lengths before constructing any
 runs

The last length was never checked, and runs of enormous intermediate lengths
exhausted memory before the oversized length was reached.
---
 alg/dict/runs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/alg/dict/runs.go b/alg/dict/runs.go
index 5277be4..50597af 100644
--- a/alg/dict/runs.go
+++ b/alg/dict/runs.go
@@ -84,6 +84,13 @@ func RunsChain(lc addchain.Chain) (addchain.Chain, error) {
 		return nil, err
 	}
 
+	// Refuse before building any (huge) runs, and include the last element.
+	for _, l := range lc {
+		if !l.IsUint64() {
+			return nil, errors.New("values in lengths chain are far too large")
+		}
+	}
+
 	c := addchain.New()
 	s := map[uint]uint{} // current largest shift of each run length
 	for _, op := range p {
-- 
2.43.0


From f50836eda3183dfced8d106edb1973b119fd0b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 11/14] fix: parse nested parentheses in bounded time and stack

Parsing took time exponential in the nesting depth, and very deep nesting
overflowed the stack.
---
 acc/parse/parse.go | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 8523e14..8bb3fa2 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -2,7 +2,9 @@
 package parse
 
 import (
+	"fmt"
 	"io"
+	"os"
 	"strings"
 
 	"github.com/mmcloughlin/addchain/acc/ast"
@@ -11,15 +13,52 @@ import (
 
 //go:generate pigeon -o internal/parser/zparser.go acc.peg
 
+// maxdepth is the maximum supported nesting of parentheses.
+const maxdepth = 10000
+
 // File parses filename.
-func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename))
+func File(filename string) (_ *ast.Chain, err error) {
+	f, err := os.Open(filename)
+	if err != nil {
+		return nil, err
+	}
+	defer func() {
+		if errc := f.Close(); errc != nil && err == nil {
+			err = errc
+		}
+	}()
+	return Reader(filename, f)
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r))
+	b, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	if depth(b) > maxdepth {
+		return nil, fmt.Errorf("%s: parentheses nested too deeply", filename)
+	}
+	// Memoization avoids time exponential in the nesting of parentheses.
+	return cast(parser.Parse(filename, b, parser.Memoize(true)))
+}
+
+// depth returns the maximum nesting of parentheses in b.
+func depth(b []byte) int {
+	d, max := 0, 0
+	for _, c := range b {
+		switch c {
+		case '(':
+			d++
+		case ')':
+			d--
+		}
+		if d > max {
+			max = d
+		}
+	}
+	return max
 }
 
 // String parses s.
-- 
2.43.0


From ddce7d6d44cab16d0b066505e748466d4dc21e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 12/14] fix: support window sizes that overflow an int

Window decomposition never terminated.
---
 alg/dict/dict.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/alg/dict/dict.go b/alg/dict/dict.go
index 08a1fa0..1a26827 100644
--- a/alg/dict/dict.go
+++ b/alg/dict/dict.go
@@ -85,7 +85,7 @@ func (w FixedWindow) Decompose(x *big.Int) Sum {
 	sum := Sum{}
 	h := x.BitLen()
 	for h > 0 {
-		l := max(h-int(w.K), 0)
+		l := windowlow(h, w.K)
 		d := bigint.Extract(x, uint(l), uint(h))
 		if bigint.IsNonZero(d) {
 			sum = append(sum, Term{D: d, E: uint(l)})
@@ -120,7 +120,7 @@ func (w SlidingWindow) Decompose(x *big.Int) Sum {
 		}
 
 		// Look down k positions.
-		l := max(h-int(w.K)+1, 0)
+		l := windowlow(h+1, w.K)
 
 		// Advance to the next 1.
 		for x.Bit(l) == 0 {
@@ -425,10 +425,11 @@ func primitive(sum Sum, c addchain.Chain) (Sum, addchain.Chain, error) {
 	return out, pruned, nil
 }
 
-// max returns the maximum of a and b.
-func max(a, b int) int {
-	if a > b {
-		return a
+// windowlow returns the lowest bit position of the k-bit window below position
+// h, truncated at zero. Note k may be larger than any int.
+func windowlow(h int, k uint) int {
+	if k >= uint(h) {
+		return 0
 	}
-	return b
+	return h - int(k)
 }
-- 
2.43.0


From d3c99aa9093b3668b355171c7ee2b6ad8c0863cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 13/14] fix: Allocator discards the temporaries of a previous
 allocation

---
 acc/pass/alloc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index ce47a8b..2ae7c97 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -67,7 +67,9 @@ func (a Allocator) Execute(p *ir.Program) error {
 		}
 	}
 
-	// Map from variable index to name.
+	// Map from variable index to name. Discard temporaries of any previous
+	// allocation.
+	p.Temporaries = nil
 	name := map[int]string{}
 	outv := allocation.Variable(p.Output().Index)
 	for _, index := range p.Indexes {
-- 
2.43.0


From ebb0656f93bede232bc4dc790d8012d17af1e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:24 +0000
Subject: [PATCH 14/14] fix: never give a generated name that another statement
 already has

Building a script from a program with named operands, or one in which a value
occurs twice, could define a name twice ("fmt -b" printed a script that the
tool rejects).
---
 acc/build.go       |  9 +++++++++
 acc/pass/naming.go | 15 +++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/acc/build.go b/acc/build.go
index 2bc1070..ec3632c 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -38,13 +38,19 @@ type builder struct {
 	chain *ast.Chain
 	prog  *ir.Program
 	expr  map[int]ast.Expr
+	names map[string]bool
 }
 
 func newbuilder(p *ir.Program) *builder {
+	names := map[string]bool{}
+	for _, operand := range p.Operands {
+		names[operand.Identifier] = true
+	}
 	return &builder{
 		chain: &ast.Chain{},
 		prog:  p,
 		expr:  map[int]ast.Expr{},
+		names: names,
 	}
 }
 
@@ -141,6 +147,9 @@ func (b *builder) add(a ir.Add) (ast.Expr, error) {
 
 func (b *builder) commit(op *ir.Operand) {
 	name := ast.Identifier(b.name(op))
+	for op.Identifier == "" && b.names[string(name)] {
+		name += "_"
+	}
 	stmt := ast.Statement{
 		Name: name,
 		Expr: b.operand(op),
diff --git a/acc/pass/naming.go b/acc/pass/naming.go
index e417ef1..a6a74f7 100644
--- a/acc/pass/naming.go
+++ b/acc/pass/naming.go
@@ -63,11 +63,19 @@ func NameBinaryRuns(format string) Interface {
 func NameOperands(name func(int, *big.Int) string) Interface {
 	return Func(func(p *ir.Program) error {
 		// We need canonical operands, and we need to know the chain values.
-		if err := Exec(p, Func(CanonicalizeOperands), Func(Eval)); err != nil {
+		if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(Eval)); err != nil {
 			return err
 		}
 
+		// Names already in use must not be given to another operand.
+		used := map[string]bool{}
 		for _, operand := range p.Operands {
+			used[operand.Identifier] = true
+		}
+
+		for _, index := range p.Indexes {
+			operand := p.Operands[index]
+
 			// Skip if it already has a name.
 			if operand.Identifier != "" {
 				continue
@@ -81,7 +89,10 @@ func NameOperands(name func(int, *big.Int) string) Interface {
 			x := p.Chain[idx]
 
 			// Set name.
-			operand.Identifier = name(idx, x)
+			if identifier := name(idx, x); !used[identifier] {
+				operand.Identifier = identifier
+				used[identifier] = true
+			}
 		}
 
 		return nil
-- 
2.43.0

