From 91fd31727348f8a93d258a51968b436d8aa6aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 001/114] fix: keep compiling after nested && and ||
 expressions

---
 internals/compiler/compiler.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a2fd942..60a216b 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -327,7 +327,9 @@ func (c *Compiler) Compile(tree ast.Node) {
 		c.doNotAllocate = false
 	}()
 
-	if c.currentFunction != nil && len(c.currentFunction.Blocks) > 0 && c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1].Term != nil {
+	// The current block is already terminated, there is nothing that can be reached after it.
+	// (The last block of the function might not be the current one, && and || create nested blocks.)
+	if c.currentFunction != nil && len(c.blocks) > 0 && c.block().Term != nil {
 		return
 	}
 
@@ -608,7 +610,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		c.Compile(statement)
 	}
 
-	lastBlock := c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1]
+	lastBlock := c.block()
 	// If return hasn't been declared, declare a void return
 	if lastBlock.Term == nil {
 		if funk.GetFunctionType().IsMainFunction() {
-- 
2.43.0


From 73930f01cea3c2fb2bb154bd25b0d3cf0b302165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 002/114] fix: compile the right operand of constant
 expressions

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 7f566ff..9763fa3 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -79,7 +79,7 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 		return c.compileIdentifier(expr).(constant.Constant)
 	case *ast.BinaryOperation:
 		left := c.compileConstantExpression(expr.Left)
-		right := c.compileConstantExpression(expr.Left)
+		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
-- 
2.43.0


From dd7954ef63b469c9df7d4b5367b745424b86eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:23 +0000
Subject: [PATCH 003/114] fix: zero extend unsigned integers on widening casts

---
 internals/compiler/compiler.go             |  6 +++---
 internals/compiler/compiler_constant.go    |  3 ++-
 internals/compiler/compiler_conversions.go | 11 ++++++-----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 60a216b..6874817 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -186,7 +186,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		toReturnType := c.ToLLVMType(typeParameter)
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, call.Parameters[1].GetType(), length)
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -230,7 +230,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		typeParameter := call.TypeParameters[0]
 		toReturnType := types.NewPointer(c.ToLLVMType(typeParameter))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, call.Parameters[0].GetType(), length)
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.malloc(), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -1637,7 +1637,7 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 		if ctypes.IsFloat(call.TypeParameters[0]) != ctypes.IsFloat(call.Parameters[0].GetType()) {
 			return c.handleFloatIntCast(call.TypeParameters[0], call.Parameters[0].GetType(), variable, toReturnType)
 		}
-		return c.handleNumericBitCast(toReturnType, variable)
+		return c.handleNumericBitCast(toReturnType, call.Parameters[0].GetType(), variable)
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 9763fa3..88c6515 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -22,10 +22,11 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 			}
 
 			if integerType.BitSize < to.BitSize {
-				if val.Type() == types.I1 {
+				if integerType.BitSize == 1 || ctypes.IsUnsignedInteger(originalType) {
 					// SExt extends the bit sign of the val, i1 can be considered as a sign, so
 					// it will be extended accross all the bits, for example if you cast
 					// i1 '1' to i8, you will get 111...1110, which is -1.
+					// Unsigned integers don't have a sign to extend.
 					return constant.NewZExt(val, to)
 				}
 
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 92fcf53..83507d9 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -22,8 +22,8 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	panic("")
 }
 
-// handleIntegerCast tries to pass variable type to toReturnType
-func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value) value.Value {
+// handleIntegerCast tries to pass variable, which is of type originalType, to toReturnType
+func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, originalType ctypes.Type, variable value.Value) value.Value {
 	variableType := variable.Type().(*types.IntType)
 	if variableType.BitSize > toReturnType.BitSize {
 		return c.block().NewTrunc(variable, toReturnType)
@@ -32,10 +32,11 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 		return variable
 	}
 
-	if variable.Type() == types.I1 {
+	if variableType.BitSize == 1 || ctypes.IsUnsignedInteger(originalType) {
 		// SExt extends the bit sign of the variable, i1 can be considered as a sign, so
 		// it will be extended accross all the bits, for example if you cast
 		// i1 '1' to i8, you will get 111...1110, which is -1.
+		// Unsigned integers don't have a sign to extend.
 		return c.block().NewZExt(variable, toReturnType)
 	}
 
@@ -45,10 +46,10 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 // performs a cast bitsize, if first parameter is a float the second param should be a float as well
 // if you call this function and toReturnType is not
 // a float or an integer the program will probably panic
-func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value) value.Value {
+func (c *Compiler) handleNumericBitCast(toReturnType types.Type, originalType ctypes.Type, variable value.Value) value.Value {
 	integerType, isInteger := toReturnType.(*types.IntType)
 	if isInteger {
-		return c.handleIntegerCast(integerType, variable)
+		return c.handleIntegerCast(integerType, originalType, variable)
 	}
 	return c.handleFloatCast(toReturnType.(*types.FloatType), variable)
 }
-- 
2.43.0


From ddf4defd13c1bcefe251c12a1a2b36bd38f328d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 004/114] fix: choose the constant float to integer conversion
 by its target type

---
 internals/compiler/compiler_constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 88c6515..191251b 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -37,7 +37,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 		}
 
 		if _, ok := val.Type().(*types.FloatType); ok {
-			if ctypes.IsUnsignedInteger(originalType) {
+			if ctypes.IsUnsignedInteger(expr.GetType()) {
 				return constant.NewFPToUI(val, to)
 			}
 
-- 
2.43.0


From 2a3320d2be40ee39ef1a018c376b38e8ea4aa1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 005/114] fix: bring shift amounts to the width of the shifted
 value

---
 internals/compiler/compiler.go          | 4 ++++
 internals/compiler/compiler_constant.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 6874817..dddbf2d 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1606,12 +1606,16 @@ func (c *Compiler) compileXorBinary(expr *ast.BinaryOperation) value.Value {
 func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	// LLVM needs both operands to be of the same width
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), expr.Right.GetType(), rightValue)
 	return c.block().NewLShr(leftValue, rightValue)
 }
 
 func (c *Compiler) compileShiftLeftBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	// LLVM needs both operands to be of the same width
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), expr.Right.GetType(), rightValue)
 	return c.block().NewShl(leftValue, rightValue)
 }
 
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 191251b..7f188bb 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -81,6 +81,10 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	case *ast.BinaryOperation:
 		left := c.compileConstantExpression(expr.Left)
 		right := c.compileConstantExpression(expr.Right)
+		if expr.Operation == ops.LeftShift || expr.Operation == ops.RightShift {
+			// LLVM needs both operands to be of the same width
+			right = c.handleConstantCast(right, expr.Right.GetType(), left.Type(), expr)
+		}
 		return c.compileOperation(expr.Operation, expr, left, right)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
-- 
2.43.0


From 984940fae1621da8b5ef0e00bbe49c920959d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 006/114] fix: compile floating point conditions

---
 internals/compiler/compiler_conversions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 83507d9..3752201 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/enum"
 	"github.com/llir/llvm/ir/types"
 	"github.com/llir/llvm/ir/value"
@@ -15,6 +16,9 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 		}
 		return c.block().NewICmp(enum.IPredNE, value, zero)
 	}
+	if float, ok := value.Type().(*types.FloatType); ok {
+		return c.block().NewFCmp(enum.FPredUNE, value, constant.NewFloat(float, 0))
+	}
 	if _, ok := value.Type().(*types.PointerType); ok {
 		return c.block().NewICmp(enum.IPredNE, c.block().NewPtrToInt(value, types.I64), zero)
 	}
-- 
2.43.0


From 409da203f8843cdf5335b81a3fe01b4ee4bcd93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 007/114] fix: a NaN is different from every floating point
 number

---
 internals/compiler/compiler_comparisons.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 4f5ca8b..bd2d7c3 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -48,7 +48,7 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 		case ops.Equals:
 			return enum.FPredOEQ
 		case ops.NotEquals:
-			return enum.FPredONE
+			return enum.FPredUNE
 		}
 	}
 
-- 
2.43.0


From b02f4d8fe0350bf6a7a92fa2f051955c7476a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 008/114] fix: the type of a negated condition is i1

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3b49395..6b5e622 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1041,6 +1041,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			s.typeMismatchError(prefixOperation.String(), prefixOperation.Right, prefixOperation.Token, ctypes.LiteralToType("i32"), t)
 		}
 
+		prefixOperation.Type = ctypes.I1
 		return ctypes.I1
 	}
 
-- 
2.43.0


From c7dc4cbfdd96d3f57e7da4a7deb9cf5f0eeb1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 009/114] fix: print only the meaningful bit of an i1

---
 internals/compiler/compiler_format.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_format.go b/internals/compiler/compiler_format.go
index ba64922..04ee3dd 100644
--- a/internals/compiler/compiler_format.go
+++ b/internals/compiler/compiler_format.go
@@ -25,7 +25,13 @@ func (c *Compiler) getFormatString(expressions []value.Value, t types.Type, call
 		}
 
 		if integer, isSigned := call.Parameters[current].GetType().(*ctypes.Integer); isSigned {
-			if integer.BitSize == 1 || integer.BitSize == 8 {
+			if integer.BitSize == 1 {
+				// printf reads a whole byte, only the lowest bit is meaningful in an i1
+				expressions[current+1] = c.handleIntegerCast(types.I8, integer, expressions[current+1])
+				return "%hhd"
+			}
+
+			if integer.BitSize == 8 {
 				return "%hhd"
 			}
 
-- 
2.43.0


From 5df2d299a5b63e9442893ca52760614cc5f7f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 010/114] fix: convert i1 to floating point without a sign

---
 internals/compiler/compiler_constant.go    | 5 +++--
 internals/compiler/compiler_conversions.go | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 7f188bb..f1ea3d7 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -49,8 +49,9 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 
 	if types.IsFloat(to) {
 		to := to.(*types.FloatType)
-		if _, ok := val.Type().(*types.IntType); ok {
-			if !ctypes.IsUnsignedInteger(originalType) {
+		if integerType, ok := val.Type().(*types.IntType); ok {
+			// i1 doesn't have a sign, the '1' would be converted to -1
+			if !ctypes.IsUnsignedInteger(originalType) && integerType.BitSize != 1 {
 				return constant.NewSIToFP(val, to)
 			}
 
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 3752201..68f128d 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -90,7 +90,8 @@ func (c *Compiler) floatToInt(toReturn *types.IntType, variable value.Value, isU
 }
 
 func (c *Compiler) intToFloat(toReturn *types.FloatType, variable value.Value, isUnsigned bool) value.Value {
-	if isUnsigned {
+	// i1 doesn't have a sign, the '1' would be converted to -1
+	if isUnsigned || variable.Type().(*types.IntType).BitSize == 1 {
 		return c.block().NewUIToFP(variable, toReturn)
 	}
 
-- 
2.43.0


From bad7f8c67d0f0887804a0dcd810b09535b4c05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 011/114] fix: negate integers of any width

---
 internals/compiler/compiler.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index dddbf2d..994e8b8 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -948,9 +948,7 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 			return c.block().NewFMul(prefixValue, negativeOne)
 		}
 
-		negativeOne = constant.NewInt(prefixValue.Type().(*types.IntType), -1)
-
-		return c.block().NewMul(prefixValue, negativeOne)
+		return c.block().NewSub(constant.NewInt(prefixValue.Type().(*types.IntType), 0), prefixValue)
 	}
 
 	if prefix.Operation == ops.AddOne || prefix.Operation == ops.SubtractOne {
-- 
2.43.0


From 4d55ae76a4da31dcaa49584e9f30d0136d8da72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 012/114] fix: continue for loops from the last block of their
 update statement

---
 internals/compiler/compiler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 994e8b8..860d014 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -725,8 +725,8 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	possibleNewBlock := c.compileBlock(forLoop.Block, mainLoop)
 	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = previousBreak, previousContinue
 
-	// compile update statement
-	c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
+	// compile update statement, it might create new blocks
+	updateEnd := c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
 
 	// jump to the update statement
 	if possibleNewBlock.Term == nil {
@@ -734,7 +734,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	}
 
 	// go to the condition again
-	update.NewBr(condition)
+	updateEnd.NewBr(condition)
 
 	// Compile condition block
 	c.pushBlock(condition)
-- 
2.43.0


From b8741baa30b208e7cecad97875000ab33fcf11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 013/114] fix: return from expression blocks leaves the
 expression block

---
 internals/compiler/compiler.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 860d014..f29fe77 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -53,6 +53,7 @@ type Compiler struct {
 	currentBreakLeaveBlock              *ir.Block
 	currentContinueEscapeBlock          *ir.Block
 	currentValueToReturnBlockExpression value.Value
+	currentLeaveBlockExpression         *ir.Block
 	context                             *semantic.Semantic
 	modules                             map[string]*Compiler
 	compiledModules                     map[string]*Compiler
@@ -536,6 +537,7 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 			toReturnLoaded,
 			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, toReturn.Type()),
 		)
+		c.block().NewBr(c.currentLeaveBlockExpression)
 		return
 	}
 
@@ -604,6 +606,9 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	// Set it as current function
 	prevFunction := c.currentFunction
 	c.currentFunction = llvmFunction
+	// A return inside this function is not a return of the expression block that contains it
+	prevValue, prevLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = nil, nil
 
 	// Compile block
 	for _, statement := range funk.GetBlock().Statements {
@@ -629,6 +634,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	// Pop block, stack and restore current function
 	c.popBlock()
 	c.currentFunction = prevFunction
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = prevValue, prevLeave
 }
 
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
@@ -1221,11 +1227,17 @@ func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) va
 func (c *Compiler) compileBlockExpression(block *ast.ExpressionBlock) value.Value {
 	t := c.ToLLVMType(block.Type)
 	alloca := c.block().NewAlloca(t)
-	c.currentValueToReturnBlockExpression = alloca
+	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
+	leaveBlock := c.currentFunction.NewBlock("leave-block-expression-" + random.RandomString(5))
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = alloca, leaveBlock
 	newBlock := c.currentFunction.NewBlock("block-expression-" + random.RandomString(5))
 	c.block().NewBr(newBlock)
-	c.blocks[len(c.blocks)-1] = c.compileBlock(block.Block, newBlock)
-	c.currentValueToReturnBlockExpression = nil
+	if lastBlock := c.compileBlock(block.Block, newBlock); lastBlock.Term == nil {
+		// every path of the expression block returns
+		lastBlock.NewUnreachable()
+	}
+	c.blocks[len(c.blocks)-1] = leaveBlock
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = previousValue, previousLeave
 	return alloca
 }
 
-- 
2.43.0


From 086e2d095994ed55ec635b6290f4b1a885efe1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 014/114] fix: read escape sequences in character literals

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 657608b..145c83b 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -88,7 +88,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 func (l *Lexer) readCharLiteral() token.Token {
 	l.readChar()
 	var literal byte
-	if l.peekChar() == '\\' {
+	if l.ch == '\\' {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
-- 
2.43.0


From e0c502fbb4f117d7a414b675f8b9c3c8a816d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 015/114] fix: keep the bytes of non ASCII string literals

---
 internals/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 145c83b..f197f02 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -257,12 +257,12 @@ func (l *Lexer) readString() string {
 
 			// Read it as a literal
 			l.readChar()
-			s += string(l.ch)
+			s += string([]byte{l.ch})
 			l.readChar()
 			continue
 		}
 
-		s += string(l.ch)
+		s += string([]byte{l.ch})
 		l.readChar()
 	}
 
-- 
2.43.0


From cd4e4e3923d1f17a52b92f975cc21ad8e0e0df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 016/114] fix: size and alignment of i1, empty structs and
 unions

---
 internals/compiler/compiler_types.go |  4 +++-
 internals/ctypes/types.go            | 16 +++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 8113a70..704d7b7 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -114,7 +114,9 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 				return union
 			}
 
-			unionType := types.NewArray(uint64(el.SizeOf()), types.I8)
+			// Use an element that gives the union the alignment of its most aligned field
+			alignment := el.Alignment()
+			unionType := types.NewArray(uint64(el.SizeOf()/alignment), types.NewInt(uint64(alignment)*8))
 			return unionType
 		}
 
diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index b02bae1..ff3f8ad 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -97,11 +97,11 @@ func (i *Integer) String() string {
 func (_ *Integer) CandiceType() {}
 
 func (i *Integer) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *Integer) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 type UInteger struct {
@@ -114,11 +114,11 @@ func (i *UInteger) String() string {
 }
 
 func (i *UInteger) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *UInteger) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (_ *UInteger) CandiceType() {}
@@ -318,11 +318,13 @@ func (u *Union) SizeOf() int64 {
 		}
 	}
 
-	return max
+	// The size of a type is a multiple of its alignment
+	alignment := u.Alignment()
+	return (max + alignment - 1) / alignment * alignment
 }
 
 func (u *Union) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range u.Fields {
 		alignment := t.Alignment()
 		if alignment > maximumAlignment {
@@ -415,7 +417,7 @@ func (s *Struct) SizeOf() int64 {
 }
 
 func (s *Struct) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range s.Fields {
 		alignment := t.Alignment()
 		if alignment >= maximumAlignment {
-- 
2.43.0


From b16c780cc0768d94d1da2b8aaa17f1f7bdbf8143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 017/114] fix: allocate the size of the true type on @alloc

---
 internals/semantic/semantic_builtin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index ac35b79..649bf90 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -44,8 +44,9 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
-	t := allocCall.TypeParameters[0]
-	s.replaceAnonymous(t)
+	t := s.UnwrapAnonymous(s.replaceAnonymous(allocCall.TypeParameters[0]))
+	// The compiler needs the size of the true type
+	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsNumeric(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
-- 
2.43.0


From ae29b3dd1bb02f87cdc943c42db7acd03e6ebed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 018/114] fix: @sizeof of arrays of named types

---
 internals/semantic/semantic_builtin.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 649bf90..882077d 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -109,8 +109,7 @@ func (s *Semantic) analyzeSizeOf(sizeOfCall *ast.BuiltinCall) ctypes.Type {
 		s.error("expected one type parameter for sizeOf builtin call", sizeOfCall.Token)
 		return ctypes.TODO()
 	}
-	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(sizeOfCall.TypeParameters[0])
-	sizeOfCall.Type = sizeOfCall.TypeParameters[0]
+	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(s.replaceAnonymous(sizeOfCall.TypeParameters[0]))
 	return ctypes.I32
 }
 
-- 
2.43.0


From ff176aafc4cb6aa559f5f0a39adf95437e145a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 019/114] fix: reallocate the size of the elements on @realloc

---
 internals/compiler/compiler.go         | 3 ++-
 internals/semantic/semantic_builtin.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index f29fe77..264a675 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -188,7 +188,8 @@ func (c *Compiler) initializeBuiltinLib() {
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
 		length = c.handleIntegerCast(types.I64, call.Parameters[1].GetType(), length)
-		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
+		elementSize := typeParameter.(*ctypes.Pointer).Inner.SizeOf()
+		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementSize))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
 		alloca := c.block().NewAlloca(castedValue.Type())
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 882077d..625f5a6 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -91,8 +91,12 @@ func (s *Semantic) analyzeRealloc(reallocCall *ast.BuiltinCall) ctypes.Type {
 
 	if !ctypes.IsPointer(t) {
 		s.error("expected pointer type for realloc call", reallocCall.Token)
+		return ctypes.TODO()
 	}
 
+	// The compiler needs the true type of the elements
+	t = s.UnwrapAnonymous(s.replaceAnonymous(t))
+
 	secondParameter := s.analyzeExpression(reallocCall.Parameters[1])
 
 	if _, isInteger := secondParameter.(*ctypes.Integer); !isInteger {
-- 
2.43.0


From 48a983ad5fa196f7f71f7b144f0972dc460c575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 020/114] fix: a switch without default does not return on
 every path

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 6b5e622..d88383e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1437,7 +1437,7 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 		s.analyzeBlock(switchStatement.Default)
 		allCasesReturn = allCasesReturn && s.returns
 	} else {
-		s.returns = false
+		allCasesReturn = false
 	}
 
 	s.returns = allCasesReturn
-- 
2.43.0


From c15a68a15d13f4d6465c35cdc07aecc48eab5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 021/114] fix: leave the scope of blocks with unreachable
 statements

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d88383e..0836638 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -294,13 +294,13 @@ func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.expectStatementInsideFunction(block.Token)
 	s.enterFrame()
+	defer s.leaveFrame()
 	for _, stmt := range block.Statements {
 		if s.returns {
 			return
 		}
 		s.analyzeStatement(stmt)
 	}
-	s.leaveFrame()
 }
 
 func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
-- 
2.43.0


From 1f2de337d5af6e79f2914d710b32d23340594ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 022/114] fix: analyze else if conditions and expression blocks
 as reachable code

---
 internals/semantic/semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 0836638..ea4effe 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -414,8 +414,8 @@ func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 	s.analyzeBlock(ifStatement.Block)
 	if !s.returns {
 		doesReturn = false
-		s.returns = false
 	}
+	s.returns = false
 
 	for _, currentIf := range ifStatement.ElseIfs {
 		condition := s.analyzeExpression(currentIf.Condition)
@@ -1330,6 +1330,7 @@ func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock)
 	}()
 
 	s.currentExpectedReturnType = t
+	s.returns = false
 	s.analyzeBlock(blockExpression.Block)
 	if !s.returns {
 		s.errorWithStatement(fmt.Sprintf("not all paths of expression block return type %q", t.String()), blockExpression.Token)
-- 
2.43.0


From edae55c494e007dba42ef6b5e1599a4440784621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 023/114] fix: functions and type lists of different lengths
 are different types

---
 internals/semantic/semantic.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index ea4effe..2ba56fc 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -663,7 +663,7 @@ func (s *Semantic) existsTypeInUnion(union *ctypes.Union, other ctypes.Type) boo
 func (s *Semantic) checkPossibleCommaTypeEquality(first, second ctypes.Type) bool {
 	if firstTypeList, isList := first.(*ctypes.TypeList); isList {
 		secondTypeList, ok := second.(*ctypes.TypeList)
-		if !ok {
+		if !ok || len(firstTypeList.Types) != len(secondTypeList.Types) {
 			return false
 		}
 
@@ -696,7 +696,7 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
@@ -751,7 +751,7 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
-- 
2.43.0


From e725cfd661ce350098dbd7810e3c3fe5621909b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 024/114] fix: reject method calls on functions without
 parameters

---
 internals/semantic/semantic.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2ba56fc..2ec09e6 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1140,7 +1140,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 		}
 
 		if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-			if !s.areTypesEqual(funk.Parameters[0], t) {
+			if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 				continue
 			}
 
@@ -1155,7 +1155,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 	}
 
 	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-		if !s.areTypesEqual(funk.Parameters[0], t) {
+		if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 			return nil
 		}
 
@@ -1226,7 +1226,12 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		}
 
 		fn := variable.Type.(*ctypes.Function)
-		if len(fn.Parameters) == 0 || !s.areTypesEqual(fn.Parameters[0], left) {
+		if len(fn.Parameters) == 0 {
+			s.errorWithStatement("unknown field "+binaryOperation.String(), binaryOperation.Token)
+			return ctypes.TODO()
+		}
+
+		if !s.areTypesEqual(fn.Parameters[0], left) {
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-- 
2.43.0


From 98ecb5ec2532d5d78d2a6358f73924b048864fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 025/114] fix: reject a break of a function inside of a loop

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2ec09e6..b229b50 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -352,6 +352,9 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 
 	temporaryFunctionAnalyzed := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = fun
+	// A break inside of this function can't leave a loop of the function that contains it
+	temporaryInsideBreakableBlock := s.insideBreakableBlock
+	s.insideBreakableBlock = false
 	s.enterFrame()
 
 	s.replaceAnonymousFunctionParameterTypes(fun)
@@ -375,6 +378,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	fun.Return = s.UnwrapAnonymous(fun.Return)
 	s.returns = temporaryReturns
 	s.leaveFrame()
+	s.insideBreakableBlock = temporaryInsideBreakableBlock
 	s.currentFunctionBeingAnalyzed = temporaryFunctionAnalyzed
 	s.currentExpectedReturnType = temporaryExpectedReturnType
 }
-- 
2.43.0


From 014a8dedc78f6700447556fb045da0e3e9019ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 026/114] fix: array indexes are integers that are only read

---
 internals/semantic/semantic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b229b50..24bede9 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -829,8 +829,12 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 		s.errorWithStatement("expected a pointer or an array for an index access, instead we got "+leftType.String(), indexAccess.Token)
 	}
 
+	// The index is only read, even when its array is being mutated
+	previousExpectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	indexType := s.analyzeExpression(indexAccess.Access)
-	if !ctypes.IsNumeric(indexType) {
+	s.expectNonConstantExpression = previousExpectNonConstant
+	if !ctypes.IsInteger(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
 
-- 
2.43.0


From 46784991b04385f5bb514de5a0d1b1ac2313c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 027/114] fix: index the pointers and arrays returned by
 functions

---
 internals/compiler/compiler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 264a675..672a6b7 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1155,10 +1155,17 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	leftArray := c.compileExpression(access.Left)
 	// keep do not load into memory before compiling expression
 	doNotLoadLeftArray := c.doNotLoadIntoMemory
+	c.doNotLoadIntoMemory = false
+	// Arrays returned by a function call don't have an address yet
+	if types.IsArray(leftArray.Type()) {
+		leftArray = c.allocateIfNotPointer(leftArray)
+		doNotLoadLeftArray = false
+	}
+
 	index := c.loadIfPointer(c.compileExpression(access.Access))
 
 	// If it's an array do not load into memory, just calculate offset
-	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
+	if !doNotLoadLeftArray && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
 		// zero as first offset because we are calculating first pointer, then index
 		element := c.block().NewGetElementPtr(leftArray.Type().(*types.PointerType).ElemType, leftArray, zero, index)
 		element.InBounds = true
-- 
2.43.0


From b15073f1c14227ecf7d60f6f78ae870e2efe7700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 028/114] fix: unsigned offsets are not negative

---
 internals/compiler/compiler.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 672a6b7..fd3700a 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1163,6 +1163,7 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	}
 
 	index := c.loadIfPointer(c.compileExpression(access.Access))
+	index = c.extendOffset(index, access.Access.GetType())
 
 	// If it's an array do not load into memory, just calculate offset
 	if !doNotLoadLeftArray && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
@@ -1177,6 +1178,11 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	return c.calculatePointerOffset(leftArray, index)
 }
 
+// extendOffset brings an offset to 64 bits, LLVM considers that every offset is signed
+func (c *Compiler) extendOffset(offset value.Value, t ctypes.Type) value.Value {
+	return c.handleIntegerCast(types.I64, t, offset)
+}
+
 func (c *Compiler) calculatePointerOffset(pointer value.Value, offset value.Value) value.Value {
 	calculatedPointer := c.block().NewGetElementPtr(pointer.Type().(*types.PointerType).ElemType, pointer, offset)
 	calculatedPointer.InBounds = true
@@ -1514,6 +1520,7 @@ func (c *Compiler) compileAdd(expr *ast.BinaryOperation) value.Value {
 
 	// Memory access via '+'
 	if types.IsPointer(leftValue.Type()) {
+		rightValue = c.extendOffset(rightValue, expr.Right.GetType())
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's going to get used
 		toReturnPointer := c.block().NewAlloca(newPointer.Type())
@@ -1557,6 +1564,7 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsPointer(leftValue.Type()) {
+		rightValue = c.extendOffset(rightValue, expr.Right.GetType())
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
-- 
2.43.0


From 12d2e98fc4523e6b25d5198cfd5fb79d1c4c69f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 029/114] fix: reject ++ and -- on constants

---
 internals/semantic/semantic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 24bede9..c11a9d1 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1035,7 +1035,12 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 }
 
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
+	// ++ and -- mutate their operand
+	mutates := prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne
+	previousExpectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = previousExpectNonConstant || mutates
 	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
+	s.expectNonConstantExpression = previousExpectNonConstant
 	prefixOperation.Type = t
 	if prefixOperation.Operation == ops.Add {
 		if !ctypes.IsNumeric(t) {
-- 
2.43.0


From 096dfd19884470ee8fb35e8f95d5525d8b7e35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 030/114] fix: captured constants are still constants

---
 internals/semantic/semantic.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c11a9d1..efe0b65 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1011,11 +1011,19 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
+		if identifierType.IsConstant && s.expectNonConstantExpression {
+			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
+		}
+
 		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
 			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
 				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
 			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
-			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
+			s.variables.Add(identifier.Name, &SemanticType{
+				Type:           identifierTypeUnwrap,
+				parentFunction: s.currentFunctionBeingAnalyzed,
+				IsConstant:     identifierType.IsConstant,
+			})
 			return identifierTypeUnwrap
 		}
 
@@ -1023,10 +1031,6 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
 		}
 
-		if identifierType.IsConstant && s.expectNonConstantExpression {
-			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
-		}
-
 		return identifierType.Type
 	}
 
-- 
2.43.0


From 4d53677c4fcbe52c102d91a278a5f41cf3c3000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 031/114] fix: constants can be operands of a mutated address

---
 internals/semantic/semantic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index efe0b65..7770a0a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -987,7 +987,11 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 			continue
 		}
 
+		// Parameters are only read, even when the returned value is being mutated
+		previousExpectNonConstant := s.expectNonConstantExpression
+		s.expectNonConstantExpression = false
 		paramType := s.analyzeExpression(param)
+		s.expectNonConstantExpression = previousExpectNonConstant
 
 		if i >= len(funcType.Parameters) {
 			continue
@@ -1379,8 +1383,12 @@ func (s *Semantic) analyzeShiftOperation(binaryOperation *ast.BinaryOperation, l
 }
 
 func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctypes.Type {
+	// Operands are only read, even when the address that they calculate is being mutated
+	previousExpectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	left := s.UnwrapAnonymous(s.analyzeExpression(binaryOperation.Left))
 	right := s.UnwrapAnonymous(s.analyzeExpression(binaryOperation.Right))
+	s.expectNonConstantExpression = previousExpectNonConstant
 
 	if ctypes.IsPointer(left) && ctypes.IsInteger(right) && (binaryOperation.Operation == ops.Add || binaryOperation.Operation == ops.Subtract) {
 		binaryOperation.Type = left
-- 
2.43.0


From cc515505b491cdacf8452eb70527d6fa2070d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 032/114] fix: print every operation

---
 internals/ops/operations.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/ops/operations.go b/internals/ops/operations.go
index 5097cad..0c838f6 100644
--- a/internals/ops/operations.go
+++ b/internals/ops/operations.go
@@ -77,8 +77,10 @@ func (o Operation) String() string {
 		return "<="
 	case Equals:
 		return "=="
-	case Assigns:
+	case Assigns, TempAssign:
 		return "="
+	case At:
+		return "@"
 	case NotEquals:
 		return "!="
 	case Paren:
-- 
2.43.0


From b96dfd133de2ad4a0a8db736cb8a8be07824517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 033/114] fix: reject operations that are not defined for the
 type of their operands

---
 internals/semantic/semantic.go         | 8 ++++++--
 internals/semantic/semantic_builtin.go | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 7770a0a..f9a23c7 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -316,7 +316,7 @@ func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
 
 	condition := s.analyzeExpression(forStatement.Condition)
 
-	if !ctypes.IsNumeric(condition) && condition != ctypes.VoidType {
+	if !ctypes.IsNumeric(condition) {
 		s.typeMismatchError(forStatement.Condition.String(), forStatement.Condition, forStatement.Token, ctypes.I1, condition)
 	}
 
@@ -1406,11 +1406,15 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	if binaryOperation.Operation.IsComparison() {
 		if ctypes.IsArray(left) {
 			s.errorWithStatement("Candice can't compare arrays for you, you should try to cast them to a pointer and then compare again if you want a pointer comparison", binaryOperation.Token)
+		} else if !ctypes.IsNumeric(left) && !ctypes.IsPointer(left) {
+			s.cantOperateThisOperationError(binaryOperation, left, right)
 		}
 		return ctypes.I1
 	}
 
-	if ctypes.IsNumeric(left) {
+	isBitwise := binaryOperation.Operation == ops.BinaryAND || binaryOperation.Operation == ops.BinaryOR ||
+		binaryOperation.Operation == ops.BinaryXOR
+	if ctypes.IsInteger(left) || (ctypes.IsFloat(left) && !isBitwise) {
 		return left
 	}
 
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 625f5a6..20b04d7 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -63,7 +63,9 @@ func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzePrintln(printCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't print on constants", printCall)
 	for _, param := range printCall.Parameters {
-		s.analyzeExpression(param)
+		if t := s.analyzeExpression(param); t == ctypes.VoidType {
+			s.errorWithStatement("you can't print a void value", printCall.Token)
+		}
 	}
 	return ctypes.VoidType
 }
-- 
2.43.0


From 5a19b6337da06a048be2e15c7affce6395eb2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 034/114] fix: reject assignments to functions

---
 internals/semantic/semantic.go       | 14 +++++++++-----
 internals/semantic/semantic_steps.go |  2 +-
 internals/semantic/semantic_type.go  |  8 ++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f9a23c7..74f3066 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -277,7 +277,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 	if !ok {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
-	s.variables.Add(funk.Name, s.newType(funk))
+	s.variables.Add(funk.Name, s.newFunctionType(funk))
 }
 
 func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
@@ -953,6 +953,10 @@ func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Ty
 
 func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.throwInvalidOperationForConstant("can't call non constant functions for a constant expression", call)
+	// The function and its parameters are only read, even when the returned value is being mutated
+	previousExpectNonConstant := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
+	defer func() { s.expectNonConstantExpression = previousExpectNonConstant }()
 	possibleFuncType := s.analyzeExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
@@ -987,11 +991,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 			continue
 		}
 
-		// Parameters are only read, even when the returned value is being mutated
-		previousExpectNonConstant := s.expectNonConstantExpression
-		s.expectNonConstantExpression = false
 		paramType := s.analyzeExpression(param)
-		s.expectNonConstantExpression = previousExpectNonConstant
 
 		if i >= len(funcType.Parameters) {
 			continue
@@ -1015,6 +1015,10 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
+		if identifierType.IsFunction && s.expectNonConstantExpression {
+			s.errorWithStatement("you are trying to assign to the function '"+identifier.String()+"'", identifier.Token)
+		}
+
 		if identifierType.IsConstant && s.expectNonConstantExpression {
 			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
 		}
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 9f1c6ff..78784cf 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -33,7 +33,7 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-				s.variables.Add(t.FunctionType.Name, s.newType(t.FunctionType))
+				s.variables.Add(t.FunctionType.Name, s.newFunctionType(t.FunctionType))
 			}
 
 		case *ast.MacroBlock:
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index e789cce..596eb28 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -11,6 +11,8 @@ type SemanticType struct {
 	parentFunction *ctypes.Function
 	Type           ctypes.Type
 	IsConstant     bool
+	// IsFunction tells that it is a declared function and not a variable
+	IsFunction bool
 }
 
 func (s *Semantic) newType(t ctypes.Type) *SemanticType {
@@ -20,6 +22,12 @@ func (s *Semantic) newType(t ctypes.Type) *SemanticType {
 	}
 }
 
+func (s *Semantic) newFunctionType(t *ctypes.Function) *SemanticType {
+	functionType := s.newType(t)
+	functionType.IsFunction = true
+	return functionType
+}
+
 func (s *Semantic) wrapInOperators(expression ast.Expression, times int, operator ops.Operation) ast.Expression {
 	newType := expression.GetType()
 	if operator == ops.Multiply {
-- 
2.43.0


From 6ed31b7c251f2610741d9a51452c49373bdf0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 035/114] fix: the value of a global variable should be
 constant

---
 internals/semantic/semantic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 74f3066..ee0980a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -521,7 +521,8 @@ func (s *Semantic) analyzeBuiltinCall(call *ast.BuiltinCall) ctypes.Type {
 }
 
 func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationStatement) {
-	s.expectConstantExpression = declaration.Constant
+	// The value of a global variable should be known before running the program
+	s.expectConstantExpression = declaration.Constant || !s.analyzingInsideFunction()
 
 	ctype := s.analyzeExpression(declaration.Expression)
 
@@ -1035,7 +1036,8 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			return identifierTypeUnwrap
 		}
 
-		if !identifierType.IsConstant && s.expectConstantExpression {
+		isGlobalFunction := identifierType.IsFunction && !s.analyzingInsideFunction()
+		if !identifierType.IsConstant && !isGlobalFunction && s.expectConstantExpression {
 			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
 		}
 
-- 
2.43.0


From 48562b0a61921125db4a4f5caa95fd9bd40d993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 036/114] fix: initialize global strings before running the
 program

---
 internals/compiler/compiler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index fd3700a..b42bd49 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1059,10 +1059,9 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 			// and allocate it again so we can use it normally, we cache that result into globalVariables + .global
 			if types.IsArray(global.Type()) {
 				array := c.m.NewGlobalDef(name+".global_alloca", global)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				globalDefinition := c.m.NewGlobalDef(name+".global", constant.NewNull(pointer.Type().(*types.PointerType)))
+				pointer := constant.NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
+				globalDefinition := c.m.NewGlobalDef(name+".global", pointer)
 				c.globalVariables[name+".global"] = &Value{Value: globalDefinition, Type: fn.Type}
-				c.block().NewStore(pointer, globalDefinition)
 				return globalDefinition
 			}
 
-- 
2.43.0


From 7af9b4da22cc48d9a279c9c275ee0ef662a7b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 037/114] fix: compute the operations between constants

---
 internals/compiler/compiler_constant.go       |  12 ++
 .../compiler/compiler_constant_folding.go     | 168 ++++++++++++++++++
 2 files changed, 180 insertions(+)
 create mode 100644 internals/compiler/compiler_constant_folding.go

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index f1ea3d7..1747bf3 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -14,6 +14,10 @@ func (c *Compiler) something() {
 }
 
 func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes.Type, to types.Type, expr ast.Expression) constant.Constant {
+	if folded := foldCast(val, ctypes.IsUnsignedInteger(originalType), ctypes.IsUnsignedInteger(expr.GetType()), to); folded != nil {
+		return folded
+	}
+
 	if types.IsInt(to) {
 		to := to.(*types.IntType)
 		if integerType, ok := val.Type().(*types.IntType); ok {
@@ -112,6 +116,14 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 }
 
 func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
+	if folded := foldOperation(op, ctypes.IsUnsignedInteger(expr.Type), first, second); folded != nil {
+		return folded
+	}
+
+	if divisor, isInt := second.(*constant.Int); isInt && divisor.X.Sign() == 0 && (op == ops.Divide || op == ops.Modulo) {
+		c.exitErrorExpression("division by zero on a constant expression", expr)
+	}
+
 	switch op {
 	case ops.Add:
 		if types.IsFloat(first.Type()) {
diff --git a/internals/compiler/compiler_constant_folding.go b/internals/compiler/compiler_constant_folding.go
new file mode 100644
index 0000000..d75e840
--- /dev/null
+++ b/internals/compiler/compiler_constant_folding.go
@@ -0,0 +1,168 @@
+package compiler
+
+import (
+	"math"
+	"math/big"
+
+	"github.com/gabivlj/candice/internals/ops"
+	"github.com/llir/llvm/ir/constant"
+	"github.com/llir/llvm/ir/types"
+)
+
+// LLVM doesn't support every operation as a constant expression (divisions, floating point operations...),
+// so the operations between literals are computed by the compiler.
+
+// wrapInteger returns the integer of type t that has the lowest bits of x
+func wrapInteger(t *types.IntType, x *big.Int) *constant.Int {
+	wrapped := new(big.Int).And(x, maxUnsigned(t))
+	if t.BitSize > 1 && wrapped.Bit(int(t.BitSize)-1) == 1 {
+		wrapped.Sub(wrapped, new(big.Int).Lsh(big.NewInt(1), uint(t.BitSize)))
+	}
+	return &constant.Int{Typ: t, X: wrapped}
+}
+
+func maxUnsigned(t *types.IntType) *big.Int {
+	max := new(big.Int).Lsh(big.NewInt(1), uint(t.BitSize))
+	return max.Sub(max, big.NewInt(1))
+}
+
+// integerValue returns the mathematical value of an integer
+func integerValue(x *constant.Int, unsigned bool) *big.Int {
+	if unsigned || x.Typ.BitSize == 1 {
+		return new(big.Int).And(x.X, maxUnsigned(x.Typ))
+	}
+	return wrapInteger(x.Typ, x.X).X
+}
+
+func foldIntegers(op ops.Operation, unsigned bool, first, second *constant.Int) constant.Constant {
+	left, right := integerValue(first, unsigned), integerValue(second, unsigned)
+	result := new(big.Int)
+	switch op {
+	case ops.Divide:
+		if right.Sign() == 0 {
+			return nil
+		}
+		result.Quo(left, right)
+	case ops.Modulo:
+		if right.Sign() == 0 {
+			return nil
+		}
+		result.Rem(left, right)
+	case ops.Multiply:
+		result.Mul(left, right)
+	case ops.Add:
+		result.Add(left, right)
+	case ops.Subtract:
+		result.Sub(left, right)
+	case ops.BinaryAND:
+		result.And(left, right)
+	case ops.BinaryOR:
+		result.Or(left, right)
+	case ops.BinaryXOR:
+		result.Xor(left, right)
+	case ops.LeftShift, ops.RightShift:
+		left, amount := integerValue(first, true), integerValue(second, true)
+		if amount.Cmp(new(big.Int).SetUint64(first.Typ.BitSize)) >= 0 {
+			return nil
+		}
+		if op == ops.LeftShift {
+			result.Lsh(left, uint(amount.Uint64()))
+		} else {
+			result.Rsh(left, uint(amount.Uint64()))
+		}
+	default:
+		return nil
+	}
+	return wrapInteger(first.Typ, result)
+}
+
+func floatValue(x *constant.Float) float64 {
+	if x.NaN {
+		return math.NaN()
+	}
+	value, _ := x.X.Float64()
+	return roundFloat(x.Typ, value)
+}
+
+// roundFloat returns the closest value to x of type t
+func roundFloat(t *types.FloatType, x float64) float64 {
+	if t.Kind == types.FloatKindFloat {
+		return float64(float32(x))
+	}
+	return x
+}
+
+func newFloat(t *types.FloatType, x float64) *constant.Float {
+	return constant.NewFloat(t, roundFloat(t, x))
+}
+
+func foldFloats(op ops.Operation, first, second *constant.Float) constant.Constant {
+	left, right := floatValue(first), floatValue(second)
+	// The result of each operation is rounded to the type of its operands,
+	// computing it with more precision and rounding it later gives the same result.
+	switch op {
+	case ops.Add:
+		return newFloat(first.Typ, left+right)
+	case ops.Subtract:
+		return newFloat(first.Typ, left-right)
+	case ops.Multiply:
+		return newFloat(first.Typ, left*right)
+	case ops.Divide:
+		return newFloat(first.Typ, left/right)
+	case ops.Modulo:
+		return newFloat(first.Typ, math.Mod(left, right))
+	}
+	return nil
+}
+
+// foldOperation returns nil if the result of the operation can't be computed by the compiler
+func foldOperation(op ops.Operation, unsigned bool, first, second constant.Constant) constant.Constant {
+	switch first := first.(type) {
+	case *constant.Int:
+		if second, ok := second.(*constant.Int); ok {
+			return foldIntegers(op, unsigned, first, second)
+		}
+	case *constant.Float:
+		if second, ok := second.(*constant.Float); ok {
+			return foldFloats(op, first, second)
+		}
+	}
+	return nil
+}
+
+// foldCast returns nil if the result of the cast can't be computed by the compiler
+func foldCast(val constant.Constant, unsigned, toUnsigned bool, to types.Type) constant.Constant {
+	switch val := val.(type) {
+	case *constant.Int:
+		integer := integerValue(val, unsigned)
+		switch to := to.(type) {
+		case *types.IntType:
+			return wrapInteger(to, integer)
+		case *types.FloatType:
+			if to.Kind == types.FloatKindFloat {
+				value, _ := new(big.Float).SetInt(integer).Float32()
+				return newFloat(to, float64(value))
+			}
+			value, _ := new(big.Float).SetInt(integer).Float64()
+			return newFloat(to, value)
+		}
+	case *constant.Float:
+		value := floatValue(val)
+		switch to := to.(type) {
+		case *types.IntType:
+			if math.IsNaN(value) || math.IsInf(value, 0) {
+				return nil
+			}
+			truncated, _ := new(big.Float).SetFloat64(value).Int(nil)
+			result := wrapInteger(to, truncated)
+			if integerValue(result, toUnsigned).Cmp(truncated) != 0 {
+				// The value doesn't fit
+				return nil
+			}
+			return result
+		case *types.FloatType:
+			return newFloat(to, value)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From d31ec6091298bf162b96b569d99e193cb36f7ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 038/114] fix: printing a multiple declaration does not change
 its names

---
 internals/ast/statements.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index 98c2fec..df61f50 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -117,10 +117,11 @@ func (m *MultipleDeclarationStatement) GetToken() token.Token {
 func (_ *MultipleDeclarationStatement) statementNode() {}
 
 func (m *MultipleDeclarationStatement) String() string {
+	visualNames := make([]string, len(m.Names))
 	for i := range m.Names {
-		m.Names[i] = RetrieveID(m.Names[i])
+		visualNames[i] = RetrieveID(m.Names[i])
 	}
-	names := strings.Join(m.Names, ", ")
+	names := strings.Join(visualNames, ", ")
 	return fmt.Sprintf("%s :%s = %s;", names, m.Type.String(), m.Expression.String())
 }
 
-- 
2.43.0


From 3bcea46e81cace9e6b35bd33a5d73e513171e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 039/114] fix: do not check the type of undefined attributes

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index ee0980a..16e2995 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -923,6 +923,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
+			continue
 		}
 		expression := s.analyzeExpression(value.Expression)
 		if !s.areTypesEqualIncludingUnions(structType.Fields[index], expression) {
-- 
2.43.0


From 0cda5011b964e8935bfd9be0a73b8fe37cfd9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 040/114] fix: reject named functions that capture variables

---
 internals/semantic/semantic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 16e2995..bcfd51f 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1026,6 +1026,11 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 		}
 
 		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
+			if s.currentAnonymousFunctionBeingAnalyzed == nil {
+				s.errorWithStatement("only anonymous functions can capture variables, '"+identifier.String()+"' is a variable of another function", identifier.Token)
+				return identifierType.Type
+			}
+
 			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
 				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
 			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
-- 
2.43.0


From 1398ebafa3020b18e34d39684d830de3bcf33ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 041/114] fix: return the call of a function without value

---
 internals/compiler/compiler.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index b42bd49..8250278 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -523,15 +523,18 @@ func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 
 func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	if ret.Expression == nil {
-		if c.currentFunction.Name() == "main" {
-			c.block().NewRet(zero)
-			return
-		}
-		c.block().NewRet(nil)
+		c.compileVoidReturn()
 		return
 	}
 
 	toReturn := c.compileExpression(ret.Expression)
+	// The returned expression is a call to a function that doesn't return a value
+	if toReturn.Type().Equal(types.Void) {
+		c.doNotLoadIntoMemory = false
+		c.compileVoidReturn()
+		return
+	}
+
 	toReturnLoaded := c.loadIfPointer(toReturn)
 	if c.currentValueToReturnBlockExpression != nil {
 		c.block().NewStore(
@@ -545,6 +548,14 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	c.block().NewRet(toReturnLoaded)
 }
 
+func (c *Compiler) compileVoidReturn() {
+	if c.currentFunction.Name() == "main" {
+		c.block().NewRet(zero)
+		return
+	}
+	c.block().NewRet(nil)
+}
+
 // defines function type without compiling its body
 func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func {
 	if fn, ok := c.globalVariables[name]; ok {
-- 
2.43.0


From 7c9a264394f2d8c8b4ebb4afbb3b9a6dfb424dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 042/114] fix: capture variables through nested anonymous
 functions

---
 internals/semantic/semantic.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index bcfd51f..8309649 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -29,13 +29,15 @@ type Semantic struct {
 	currentStatementBeingAnalyzed         ast.Statement
 	currentFunctionBeingAnalyzed          *ctypes.Function
 	currentAnonymousFunctionBeingAnalyzed *ast.AnonymousFunction
-	returns                               bool
-	currentExpectedReturnType             ctypes.Type
-	Errors                                []error
-	Warnings                              []error
-	insideBreakableBlock                  bool
-	expectConstantExpression              bool
-	expectNonConstantExpression           bool
+	// anonymous functions that contain the current expression, the innermost is the last one
+	enclosingAnonymousFunctions []*ast.AnonymousFunction
+	returns                     bool
+	currentExpectedReturnType   ctypes.Type
+	Errors                      []error
+	Warnings                    []error
+	insideBreakableBlock        bool
+	expectConstantExpression    bool
+	expectNonConstantExpression bool
 
 	// We maintain references to other semantic analyzers here, those are generated by import statements.
 	// The structure of this map is
@@ -390,13 +392,27 @@ func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	tmpFun := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = anonymousFunction.FunctionType
 	s.currentAnonymousFunctionBeingAnalyzed = anonymousFunction
+	s.enclosingAnonymousFunctions = append(s.enclosingAnonymousFunctions, anonymousFunction)
 	s.analyzeFunctionType(anonymousFunction.Token, anonymousFunction.FunctionType, anonymousFunction.Block)
+	s.enclosingAnonymousFunctions = s.enclosingAnonymousFunctions[:len(s.enclosingAnonymousFunctions)-1]
 	s.currentFunctionBeingAnalyzed = tmpFun
 	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
 	s.returns = temporaryReturns
 	return anonymousFunction.FunctionType
 }
 
+// captureVariable makes every anonymous function between the owner of the variable and the
+// current expression capture the variable, each one takes it from the one that contains it.
+func (s *Semantic) captureVariable(name string, owner *ctypes.Function) {
+	for i := len(s.enclosingAnonymousFunctions) - 1; i >= 0; i-- {
+		anonymousFunction := s.enclosingAnonymousFunctions[i]
+		if anonymousFunction.FunctionType == owner {
+			return
+		}
+		anonymousFunction.CapturedVariables = append(anonymousFunction.CapturedVariables, name)
+	}
+}
+
 func (s *Semantic) analyzingInsideFunction() bool {
 	return s.currentFunctionBeingAnalyzed != nil || s.currentAnonymousFunctionBeingAnalyzed != nil
 }
@@ -1031,8 +1047,7 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 				return identifierType.Type
 			}
 
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
+			s.captureVariable(identifier.Name, identifierType.parentFunction)
 			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
 			s.variables.Add(identifier.Name, &SemanticType{
 				Type:           identifierTypeUnwrap,
-- 
2.43.0


From 2e2caaffa49698a5a2669a9c2f2c461d6396b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 043/114] fix: parameter with the name of its function

---
 internals/compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 8250278..346c73d 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -602,7 +602,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	llvmFunction := c.compileFunctionType(name, funk)
 
 	// Create a main block to the function
-	c.pushBlock(llvmFunction.NewBlock(funk.GetFunctionType().Name))
+	c.pushBlock(llvmFunction.NewBlock("entry." + funk.GetFunctionType().Name))
 
 	// Declare parameters IR
 	for _, param := range llvmFunction.Params {
-- 
2.43.0


From 3d024ae30f1f8c25f1d79d1b3215919af5707277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 044/114] fix: storage of variables initialised by values that
 contain literals

---
 internals/compiler/compiler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 346c73d..9830b49 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -800,8 +800,17 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		return
 	}
 
+	// Only the storage of a literal of the same type can be used directly, any other value that
+	// contains one still needs storage for the variable.
+	isLiteral := false
+	switch decl.Expression.(type) {
+	case *ast.ArrayLiteral, *ast.StructLiteral:
+		isLiteral = valueCompiled.Type().Equal(types.NewPointer(t))
+	}
+
 	var val value.Value
-	if !c.doNotAllocate {
+	if !c.doNotAllocate || !(decl.Constant || isLiteral) {
+		c.doNotAllocate = false
 		val = c.block().NewAlloca(t)
 		valueCompiled = c.loadIfPointer(valueCompiled)
 		c.block().NewStore(valueCompiled, c.bitcastIfUnion(decl.Type, val, types.NewPointer(valueCompiled.Type())))
-- 
2.43.0


From 89ecffe5b3a3f43b1c3d72a783977d9ec0bef667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 045/114] fix: comparisons whose operands contain && || or
 expression blocks

---
 internals/compiler/compiler_comparisons.go | 24 ++++++++--------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index bd2d7c3..44eea95 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -11,27 +11,21 @@ import (
 )
 
 func (c *Compiler) handleComparisonOperations(expr *ast.BinaryOperation) value.Value {
-	if left, isPointer := expr.Left.GetType().(*ctypes.Pointer); isPointer {
-		if left.Inner == ctypes.I8 {
-			return c.compareMemoryI8(c.loadIfPointer(c.compileExpression(expr.Left)),
-				c.loadIfPointer(c.compileExpression(expr.Right)),
-				c.getIPredComparison(expr.Operation, ctypes.I32),
-			)
+	// An operand may change the current block, so both are compiled before taking it
+	left := c.loadIfPointer(c.compileExpression(expr.Left))
+	right := c.loadIfPointer(c.compileExpression(expr.Right))
+
+	if leftType, isPointer := expr.Left.GetType().(*ctypes.Pointer); isPointer {
+		if leftType.Inner == ctypes.I8 {
+			return c.compareMemoryI8(left, right, c.getIPredComparison(expr.Operation, ctypes.I32))
 		}
 	}
 
 	if _, isFloat := expr.Left.GetType().(*ctypes.Float); isFloat {
-		return c.block().NewFCmp(
-			c.getFPredComparison(expr.Operation, expr.Left.GetType()),
-			c.loadIfPointer(c.compileExpression(expr.Left)),
-			c.loadIfPointer(c.compileExpression(expr.Right)),
-		)
+		return c.block().NewFCmp(c.getFPredComparison(expr.Operation, expr.Left.GetType()), left, right)
 	}
 
-	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()),
-		c.loadIfPointer(c.compileExpression(expr.Left)),
-		c.loadIfPointer(c.compileExpression(expr.Right)),
-	)
+	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()), left, right)
 }
 
 func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPred {
-- 
2.43.0


From da8aab13befbd9db8bf900a692b669ca7968643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 046/114] fix: numeric conditions of else ifs and of conditions
 with several blocks

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 9830b49..4340ff1 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -688,10 +688,10 @@ func (c *Compiler) compileIf(ifStatement *ast.IfStatement) {
 		// is true jump to this block, else jump to the next one, which would be the next jump condition or
 		// the else
 		condition := c.compileExpression(conditions[i])
-		conditionLoaded := c.loadIfPointer(condition)
+		conditionLoaded := c.toBool(c.loadIfPointer(condition))
 		// Recharge block because compiling expressions can change current blocks
 		lastJumpToCondition = c.popBlock()
-		lastJumpToCondition.NewCondBr(c.toBool(conditionLoaded), currentBlock, jumpToNextCondition)
+		lastJumpToCondition.NewCondBr(conditionLoaded, currentBlock, jumpToNextCondition)
 		lastJumpToCondition = jumpToNextCondition
 	}
 
-- 
2.43.0


From 12939a4cee60be1d9f77ecbecb4bffb1e1075feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 047/114] fix: round float literals to the nearest value

---
 internals/compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4340ff1..9f72e52 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -876,7 +876,7 @@ func (c *Compiler) compileExpression(expression ast.Expression) value.Value {
 		{
 			theType := c.ToLLVMType(e.Type)
 			floatType := theType.(*types.FloatType)
-			return constant.NewFloat(floatType, e.Value)
+			return newFloat(floatType, e.Value)
 		}
 
 	case *ast.BinaryOperation:
-- 
2.43.0


From e4fd3fccea00b8d00d6696cf1c3b397dd4ba54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:01 +0000
Subject: [PATCH 048/114] fix: the number of elements of @alloc should be an
 integer

---
 internals/semantic/semantic_builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 20b04d7..3ee9780 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -48,7 +48,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	// The compiler needs the size of the true type
 	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
-	if !ctypes.IsNumeric(expr) {
+	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
 	}
 	allocCall.Type = &ctypes.Pointer{Inner: t}
-- 
2.43.0


From 9656b260295a217afa5e1bc74edbcc14109f61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:08 +0000
Subject: [PATCH 049/114] fix: report undefined types inside of the type of an
 array literal

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 8309649..4983b74 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -951,7 +951,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 }
 
 func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Type {
-	arrayType := arrayLiteral.Type.(*ctypes.Array)
+	arrayType := s.replaceAnonymous(arrayLiteral.Type).(*ctypes.Array)
 	currType := arrayType.Inner
 
 	if int(arrayType.Length) < len(arrayLiteral.Values) {
-- 
2.43.0


From cf1e0368fa6c2ea58cd8a962170987d641adb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 050/114] fix: reject ++ and -- on values that aren't stored

---
 internals/semantic/semantic.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 4983b74..1744684 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1069,6 +1069,19 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	return ctypes.TODO()
 }
 
+// isStorage tells whether the expression refers to a place in memory that can be mutated
+func isStorage(expression ast.Expression) bool {
+	switch e := expression.(type) {
+	case *ast.Identifier, *ast.IndexAccess:
+		return true
+	case *ast.PrefixOperation:
+		return e.Operation == ops.Multiply || e.Operation == ops.AddOne || e.Operation == ops.SubtractOne
+	case *ast.BinaryOperation:
+		return e.Operation == ops.Dot
+	}
+	return false
+}
+
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
 	// ++ and -- mutate their operand
 	mutates := prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne
@@ -1100,12 +1113,8 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			return t
 		}
 
-		if _, isInteger := prefixOperation.Right.(*ast.Integer); !isInteger {
-			if _, isFloat := prefixOperation.Right.(*ast.Float); isFloat {
-				s.errorWithStatement("you can't add a number literal", prefixOperation.Token)
-			}
-		} else {
-			s.errorWithStatement("you can't add a number literal", prefixOperation.Token)
+		if !isStorage(prefixOperation.Right) {
+			s.errorWithStatement("you can only add to something that is stored, like a variable", prefixOperation.Token)
 		}
 
 		return t
-- 
2.43.0


From 85aad141adee1866592dd9a18be7136e20464744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 051/114] fix: reject casts of arrays that can't be compiled,
 cast pointers to floats

---
 internals/compiler/compiler.go         |  4 ++--
 internals/semantic/semantic_builtin.go | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 9f72e52..22672ec 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1690,11 +1690,11 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
-		integer := c.block().NewPtrToInt(variable, toReturnType)
 		if _, isFloat := call.TypeParameters[0].(*ctypes.Float); isFloat {
+			integer := c.block().NewPtrToInt(variable, types.I64)
 			return c.block().NewSIToFP(integer, toReturnType)
 		}
-		return integer
+		return c.block().NewPtrToInt(variable, toReturnType)
 	}
 
 	if ctypes.IsPointer(call.TypeParameters[0]) && ctypes.IsNumeric(call.Parameters[0].GetType()) { ///types.IsInt(variable.Type()) {
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 3ee9780..d46e7b6 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -24,8 +24,14 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
 	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
-	if (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) &&
-		(ctypes.IsPointer(toType) || ctypes.IsArray(toType) || ctypes.IsNumeric(toType)) {
+	// Arrays can only be seen as a pointer to their first element
+	if ctypes.IsArray(currentType) && ctypes.IsPointer(toType) {
+		castCall.Type = toType
+		return toType
+	}
+
+	if (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) &&
+		(ctypes.IsPointer(toType) || ctypes.IsNumeric(toType)) {
 		castCall.Type = toType
 		return toType
 	}
-- 
2.43.0


From d8700a059511b556c09d33f3d328526e2da9b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 052/114] fix: reject names that are defined more than once

---
 internals/semantic/semantic.go       |  3 +++
 internals/semantic/semantic_steps.go | 33 +++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1744684..a7c9b23 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -25,6 +25,7 @@ type Semantic struct {
 	variables *undomap.UndoMap[string, *SemanticType]
 
 	definedTypes                          map[string]ctypes.Type
+	definedFunctions                      map[string]bool
 	builtinHandlers                       map[string]func(builtin *ast.BuiltinCall) ctypes.Type
 	currentStatementBeingAnalyzed         ast.Statement
 	currentFunctionBeingAnalyzed          *ctypes.Function
@@ -81,6 +82,7 @@ func New() *Semantic {
 	s := &Semantic{
 		variables:                 undomap.New[string, *SemanticType](),
 		definedTypes:              map[string]ctypes.Type{},
+		definedFunctions:          map[string]bool{},
 		builtinHandlers:           map[string]func(builtin *ast.BuiltinCall) ctypes.Type{},
 		Errors:                    []error{},
 		Warnings:                  []error{},
@@ -386,6 +388,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 }
 
 func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunction) ctypes.Type {
+	s.expectDistinctNames(s.currentStatementBeingAnalyzed, anonymousFunction.FunctionType.Names)
 	temporaryReturns := s.returns
 	s.returns = false
 	tmpAnon := s.currentAnonymousFunctionBeingAnalyzed
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 78784cf..28dbbdd 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -1,6 +1,28 @@
 package semantic
 
-import "github.com/gabivlj/candice/internals/ast"
+import (
+	"github.com/gabivlj/candice/internals/ast"
+	"github.com/gabivlj/candice/internals/ctypes"
+)
+
+// predefineType makes the type known before its fields are analyzed
+func (s *Semantic) predefineType(statement ast.Statement, name string, fields []string, t ctypes.Type) {
+	if _, isDefined := s.definedTypes[name]; isDefined {
+		s.errorWithStatement("the type "+ast.RetrieveID(name)+" is defined more than once", statement.GetToken())
+	}
+	s.expectDistinctNames(statement, fields)
+	s.definedTypes[name] = t
+}
+
+func (s *Semantic) expectDistinctNames(statement ast.Statement, names []string) {
+	existing := map[string]bool{}
+	for _, name := range names {
+		if existing[name] {
+			s.errorWithStatement("the name "+ast.RetrieveID(name)+" is used more than once", statement.GetToken())
+		}
+		existing[name] = true
+	}
+}
 
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
@@ -8,12 +30,12 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 		switch t := statement.(type) {
 		case *ast.UnionStatement:
 			{
-				s.definedTypes[t.Type.Name] = t.Type
+				s.predefineType(t, t.Type.Name, t.Type.Names, t.Type)
 			}
 
 		case *ast.StructStatement:
 			{
-				s.definedTypes[t.Type.Name] = t.Type
+				s.predefineType(t, t.Type.Name, t.Type.Names, t.Type)
 			}
 
 		case *ast.MacroBlock:
@@ -33,6 +55,11 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
+				if s.definedFunctions[t.FunctionType.Name] {
+					s.errorWithStatement("the function "+ast.RetrieveID(t.FunctionType.Name)+" is defined more than once", t.Token)
+				}
+				s.definedFunctions[t.FunctionType.Name] = true
+				s.expectDistinctNames(t, t.FunctionType.Names)
 				s.variables.Add(t.FunctionType.Name, s.newFunctionType(t.FunctionType))
 			}
 
-- 
2.43.0


From a7190b08d88cb36bf3f7078d268b2b2925d10d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 053/114] fix: assign to targets that start with a parenthesis

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 97cd7d1..e8c3e05 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -175,7 +175,7 @@ func (p *Parser) parseStatement() ast.Statement {
 		return p.parseExtern()
 	case token.IDENT:
 		return p.parseIdentifierStatement()
-	case token.ASTERISK:
+	case token.ASTERISK, token.LPAREN:
 		return p.parsePossibleAssignment()
 	case token.IF:
 		return p.parseIf()
-- 
2.43.0


From c1d42f209ba90678fe84bcfc17a78ca8630f859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 054/114] fix: cast of pointers to arrays that are not stored
 in a variable

---
 internals/compiler/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 22672ec..da285ad 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1670,7 +1670,8 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	variable := c.compileExpression(call.Parameters[0])
 
 	// TODO: Array to integer
-	if types.IsPointer(variable.Type()) && types.IsArray(variable.Type().(*types.PointerType).ElemType) {
+	// (a pointer to an array isn't the storage of an array)
+	if types.IsPointer(variable.Type()) && types.IsArray(variable.Type().(*types.PointerType).ElemType) && !ctypes.IsPointer(call.Parameters[0].GetType()) {
 		// We don't want people to take this pointer and load it into memory
 		// Test this because I'm not sure if this works!
 		c.doNotLoadIntoMemory = true
-- 
2.43.0


From c4c01dbffbfaac99a42bfa1c4a92c116fd7d43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:29 +0000
Subject: [PATCH 055/114] fix: extend narrow integers as the C ABI expects

---
 internals/compiler/compiler.go       |  9 ++++++-
 internals/compiler/compiler_types.go | 35 ++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index da285ad..1a16a84 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -500,7 +500,9 @@ func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 	params := []*ir.Param{}
 	for _, parameter := range funcType.Parameters {
 		parameterType := c.ToLLVMType(parameter)
-		params = append(params, ir.NewParam("", parameterType))
+		param := ir.NewParam("", parameterType)
+		param.Attrs = c.abiParameterAttributes(parameter, parameterType)
+		params = append(params, param)
 	}
 
 	f := c.m.NewFunc(funcType.ExternalName, returnType, params...)
@@ -578,10 +580,12 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	toReturnType := c.ToLLVMType(functionType.Return)
 	// Declare llvmFunction
 	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
+	llvmFunction.ReturnAttrs = c.abiReturnAttributes(functionType.Return, toReturnType)
 
 	if functionType.RedefineWithOriginalName {
 		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
+		llvmFunctionExtern.ReturnAttrs = llvmFunction.ReturnAttrs
 		c.globalVariables[functionType.ExternalName] = &Value{
 			Value: llvmFunctionExtern,
 			Type:  functionType,
@@ -1124,6 +1128,9 @@ func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	for _, argument := range ast.Parameters {
 		compiledValue := c.compileExpression(argument)
 		loadedValue := c.loadIfPointer(compiledValue)
+		if attributes := c.abiParameterAttributes(argument.GetType(), loadedValue.Type()); len(attributes) > 0 {
+			loadedValue = ir.NewArg(loadedValue, attributes...)
+		}
 		arguments = append(arguments, loadedValue)
 	}
 	thing := c.block().NewCall(funk, arguments...)
diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 704d7b7..a7800c9 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -2,6 +2,8 @@ package compiler
 
 import (
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/llir/llvm/ir"
+	"github.com/llir/llvm/ir/enum"
 	"github.com/llir/llvm/ir/types"
 	"github.com/llir/llvm/ir/value"
 )
@@ -185,3 +187,36 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 	c.exitInternalError("can't convert to LLVM type: " + t.String())
 	panic("")
 }
+
+// abiExtension tells how the C ABI passes a value of this type in a register or stack slot:
+// integers narrower than a C int are extended to its width.
+func (c *Compiler) abiExtension(t ctypes.Type, llvmType types.Type) (extend bool, unsigned bool) {
+	integer, isInteger := llvmType.(*types.IntType)
+	if !isInteger || integer.BitSize >= 32 {
+		return false, false
+	}
+	// i1 is the bool of C
+	return true, integer.BitSize == 1 || ctypes.IsUnsignedInteger(t)
+}
+
+func (c *Compiler) abiParameterAttributes(t ctypes.Type, llvmType types.Type) []ir.ParamAttribute {
+	extend, unsigned := c.abiExtension(t, llvmType)
+	if !extend {
+		return nil
+	}
+	if unsigned {
+		return []ir.ParamAttribute{enum.ParamAttrZeroExt}
+	}
+	return []ir.ParamAttribute{enum.ParamAttrSignExt}
+}
+
+func (c *Compiler) abiReturnAttributes(t ctypes.Type, llvmType types.Type) []ir.ReturnAttribute {
+	extend, unsigned := c.abiExtension(t, llvmType)
+	if !extend {
+		return nil
+	}
+	if unsigned {
+		return []ir.ReturnAttribute{enum.ReturnAttrZeroExt}
+	}
+	return []ir.ReturnAttribute{enum.ReturnAttrSignExt}
+}
-- 
2.43.0


From 7bd0c56c874a674d8bcd1dfe6079c7f6e3b817ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 056/114] fix: resolve the types of extern functions

---
 internals/semantic/semantic.go       | 11 +++++++++++
 internals/semantic/semantic_steps.go |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index a7c9b23..c2673c5 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -349,6 +349,17 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 	}
 }
 
+// replaceAnonymousExternTypes is like replaceAnonymousFunctionParameterTypes, but the parameters don't have names
+func (s *Semantic) replaceAnonymousExternTypes(fun *ctypes.Function) {
+	for i, param := range fun.Parameters {
+		fun.Parameters[i] = s.replaceAnonymous(s.UnwrapAnonymous(param))
+	}
+
+	if fun.Return != nil {
+		fun.Return = s.replaceAnonymous(s.UnwrapAnonymous(fun.Return))
+	}
+}
+
 func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Function, block *ast.Block) {
 	if fun.Return == nil {
 		fun.Return = ctypes.VoidType
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 28dbbdd..8d4e75f 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -63,6 +63,13 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.variables.Add(t.FunctionType.Name, s.newFunctionType(t.FunctionType))
 			}
 
+		case *ast.ExternStatement:
+			{
+				if funk, isFunction := t.Type.(*ctypes.Function); isFunction {
+					s.replaceAnonymousExternTypes(funk)
+				}
+			}
+
 		case *ast.MacroBlock:
 			{
 				s.predefineFunctions(t.Statements)
-- 
2.43.0


From 9465bb345f0c80173d2f3cb6c64680a01546429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 057/114] fix: count the lines inside of literals and keep the
 byte of a character

---
 internals/lexer/lexer.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index f197f02..478d1e9 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -86,6 +86,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 }
 
 func (l *Lexer) readCharLiteral() token.Token {
+	line := l.line
 	l.readChar()
 	var literal byte
 	if l.ch == '\\' {
@@ -103,6 +104,7 @@ func (l *Lexer) readCharLiteral() token.Token {
 		literal = c
 	} else {
 		literal = l.ch
+		l.countLine()
 		l.readChar()
 	}
 
@@ -113,7 +115,9 @@ func (l *Lexer) readCharLiteral() token.Token {
 	// Skip '
 	l.readChar()
 
-	return l.newToken(token.CHAR, literal)
+	char := l.newToken(token.CHAR, literal)
+	char.Line = line
+	return char
 }
 
 func (l *Lexer) getMacroToken() token.Token {
@@ -157,9 +161,10 @@ func (l *Lexer) NextToken() token.Token {
 		tok = l.newToken(token.RBRACKET, l.ch)
 	case '"':
 		tok.Type = token.STRING
-		tok.Literal = l.readString()
+		// The string might have more than one line
 		tok.Line = l.line
-		tok.Position = l.column - uint32(len(tok.Literal))
+		tok.Position = l.column + 1
+		tok.Literal = l.readString()
 		tok.OverallPosition = l.position
 	case '=':
 		tok = l.peekerForTwoChars('=', l.newToken(token.ASSIGN, '='), token.EQ)
@@ -258,11 +263,13 @@ func (l *Lexer) readString() string {
 			// Read it as a literal
 			l.readChar()
 			s += string([]byte{l.ch})
+			l.countLine()
 			l.readChar()
 			continue
 		}
 
 		s += string([]byte{l.ch})
+		l.countLine()
 		l.readChar()
 	}
 
@@ -270,7 +277,7 @@ func (l *Lexer) readString() string {
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-	return token.Token{Type: tokenType, Literal: string(ch), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
+	return token.Token{Type: tokenType, Literal: string([]byte{ch}), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
 }
 
 func isDigit(ch byte) bool {
@@ -331,6 +338,14 @@ func (l *Lexer) readNumber() (string, token.TypeToken) {
 	return l.input[position:l.position], tokenType
 }
 
+// countLine should be called before reading the next character of a literal
+func (l *Lexer) countLine() {
+	if l.ch == '\n' {
+		l.line++
+		l.column = 1
+	}
+}
+
 func (l *Lexer) readChar() {
 	defer func() {
 		// next position is current position now
-- 
2.43.0


From 0da962f8a60d1a4bb1a2ff530e403bf4e4a7af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 058/114] fix: resolve the types that are nested in other types

---
 internals/semantic/semantic.go         | 32 +++++++++++++++++++-------
 internals/semantic/semantic_builtin.go |  4 ++--
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c2673c5..46eff2b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -265,8 +265,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 }
 
 func (s *Semantic) analyzeTypeDefinition(typeDef *ast.TypeDefinition) {
-	s.replaceAnonymous(typeDef.Type)
-	trueType := s.UnwrapAnonymous(typeDef.Type)
+	trueType := s.UnwrapAnonymous(s.replaceAnonymous(typeDef.Type))
 	typeDef.Type = trueType
 	s.definedTypes[typeDef.Name] = trueType
 }
@@ -345,7 +344,7 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 	}
 
 	if fun.Return != nil {
-		s.replaceAnonymous(fun.Return)
+		fun.Return = s.replaceAnonymous(fun.Return)
 	}
 }
 
@@ -509,7 +508,7 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 				statementType.Token,
 			)
 		}
-		statementType.Type.Fields[i] = t
+		statementType.Type.Fields[i] = s.replaceAnonymous(t)
 	}
 }
 
@@ -536,7 +535,7 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 				statementType.Token,
 			)
 		}
-		statementType.Type.Fields[i] = t
+		statementType.Type.Fields[i] = s.replaceAnonymous(t)
 	}
 }
 
@@ -575,12 +574,11 @@ func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationState
 
 	// Check if declaration is forcing the type
 	if declType != ctypes.TODO() {
+		declType = s.replaceAnonymous(declType)
 		if !s.areTypesEqualIncludingUnions(declType, ctype) {
 			s.typeMismatchError(declaration.String(), originalExpression, declaration.Token, declType, ctype)
 			return
 		}
-		s.replaceAnonymous(declType)
-		declType = s.UnwrapAnonymous(declType)
 		declaration.Type = declType
 		declaredType := s.newType(declType)
 		declaredType.IsConstant = declaration.Constant
@@ -670,6 +668,23 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 		return arr
 	}
 
+	if funk, ok := t.(*ctypes.Function); ok {
+		for i, param := range funk.Parameters {
+			funk.Parameters[i] = s.swapTypes(param, toSwap)
+		}
+		if funk.Return != nil {
+			funk.Return = s.swapTypes(funk.Return, toSwap)
+		}
+		return funk
+	}
+
+	if list, ok := t.(*ctypes.TypeList); ok {
+		for i, element := range list.Types {
+			list.Types[i] = s.swapTypes(element, toSwap)
+		}
+		return list
+	}
+
 	if _, stopRecursionForStruct := t.(*ctypes.Struct); stopRecursionForStruct {
 		return t
 	}
@@ -1397,7 +1412,8 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 }
 
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
-	t := s.UnwrapAnonymous(blockExpression.Type)
+	t := s.replaceAnonymous(blockExpression.Type)
+	blockExpression.Type = t
 	tmpReturns := s.returns
 	tmpExpectedReturnType := s.currentExpectedReturnType
 	defer func() {
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index d46e7b6..4f15d3c 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -22,7 +22,7 @@ func (s *Semantic) analyzeAddCompilerFlag(addCompilerFlag *ast.BuiltinCall) ctyp
 func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
-	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
+	toType := s.replaceAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
 	// Arrays can only be seen as a pointer to their first element
 	if ctypes.IsArray(currentType) && ctypes.IsPointer(toType) {
@@ -138,5 +138,5 @@ func (s *Semantic) analyzeAsm(asmCall *ast.BuiltinCall) ctypes.Type {
 		return ctypes.TODO()
 	}
 
-	return s.UnwrapAnonymous(asmCall.TypeParameters[0])
+	return s.replaceAnonymous(asmCall.TypeParameters[0])
 }
-- 
2.43.0


From 2767b02a186b8d3d1d7449447c6ab2d49b0091e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 059/114] fix: tell apart type arguments of the same name in
 different files

---
 internals/semantic/semantic.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 46eff2b..01a6883 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1337,6 +1337,32 @@ func (s *Semantic) isArithmetic(op ops.Operation) bool {
 		op == ops.Modulo
 }
 
+// typeIdentity is like the String of the type, but types of different modules that are named
+// the same have different identities.
+func typeIdentity(t ctypes.Type) string {
+	switch el := t.(type) {
+	case *ctypes.Pointer:
+		return "*" + typeIdentity(el.Inner)
+	case *ctypes.Array:
+		return fmt.Sprintf("[%d]%s", el.Length, typeIdentity(el.Inner))
+	case *ctypes.TypeList:
+		return typeIdentities(el.Types)
+	case *ctypes.Function:
+		return "func" + typeIdentities(el.Parameters) + typeIdentity(el.Return)
+	case ctypes.FieldType:
+		return el.GetName()
+	}
+	return t.String()
+}
+
+func typeIdentities(types []ctypes.Type) string {
+	identities := strings.Builder{}
+	for _, t := range types {
+		identities.WriteString(typeIdentity(t) + ",")
+	}
+	return "(" + identities.String() + ")"
+}
+
 // analyzeImport works in a really tricky way
 //   - First off we start by gathering all types that the file is gonna need as parameters
 //   - Then we should parse and analyze the file that is being imported if it hasn't been yet
@@ -1366,7 +1392,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	hashType := strings.Builder{}
 	for _, t := range types {
 		hashType.WriteByte(',')
-		hashType.WriteString(t.String())
+		hashType.WriteString(typeIdentity(t))
 	}
 	endHash := currentPathPlusImport + hashType.String()
 	if existingSemantic, ok := paths[endHash]; ok {
-- 
2.43.0


From ac78056626ae35b5a27efa432614f7bf31411344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 060/114] fix: a token past the end of the input doesn't have a
 line

---
 internals/lexer/lexer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 478d1e9..f6d6721 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -53,10 +53,13 @@ func (l *Lexer) skipUntilJL() {
 }
 
 func (l *Lexer) RetrieveLine(t token.Token) string {
-	currentColumn := t.OverallPosition - 1
-	if t.Type == token.EOF {
+	// The position of a token at the end of the input can be past it.
+	if t.Type == token.EOF || t.OverallPosition >= len(l.input) {
 		t.OverallPosition = len(l.input) - 1
-		currentColumn = len(l.input) - 2
+	}
+	currentColumn := t.OverallPosition - 1
+	if currentColumn < -1 {
+		currentColumn = -1
 	}
 	for currentColumn >= 0 && l.input[currentColumn] != '\n' && l.input[currentColumn] != '\t' {
 		currentColumn--
-- 
2.43.0


From 62af56e234a021303f61c7752c330028d2407c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 061/114] fix: parsing errors don't leave nodes without a type
 or a token

---
 internals/parser/parser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index e8c3e05..1eff5fb 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -717,15 +717,15 @@ func (p *Parser) parseType() ctypes.Type {
 		return &ctypes.Array{Length: integer, Inner: p.parseType()}
 	}
 
-	return nil
+	p.addErrorMessage("expected a type")
+	return ctypes.TODO()
 }
 
 func (p *Parser) parsePrefix() ast.Expression {
 	fn, ok := p.prefixFunc[p.currentToken.Type]
 	if !ok {
 		p.addErrorMessage("unknown token to parse on prefix")
-		p.nextToken()
-		return &ast.Integer{Value: 1}
+		return &ast.Integer{Node: &node.Node{Type: ctypes.I32, Token: p.nextToken()}, Value: 1}
 	}
 
 	p.checkPrefixErrors()
@@ -1149,7 +1149,7 @@ func (p *Parser) parseExtern() ast.Statement {
 
 	if _, ok := t.(*ctypes.Function); !ok {
 		p.addErrorMessage("expected external function, got " + t.String())
-		return &ast.ExternStatement{}
+		return &ast.ExternStatement{Token: extern, Type: t}
 	}
 
 	if fun, ok := t.(*ctypes.Function); !ok || fun.Name == "" {
@@ -1165,6 +1165,7 @@ func (p *Parser) parseExtern() ast.Statement {
 }
 
 func (p *Parser) afterFixDoubleError(prev ast.Expression) ast.Expression {
+	notParsed := &ast.Identifier{Node: &node.Node{Type: ctypes.TODO(), Token: p.currentToken}}
 	l := p.currentToken.Literal
 	if prev == nil {
 		p.addErrorMessage(
@@ -1172,7 +1173,7 @@ func (p *Parser) afterFixDoubleError(prev ast.Expression) ast.Expression {
 				l,
 			),
 		)
-		return &ast.Identifier{}
+		return notParsed
 	}
 	s := l + prev.String()
 	p.addErrorMessage(
@@ -1181,7 +1182,7 @@ func (p *Parser) afterFixDoubleError(prev ast.Expression) ast.Expression {
 		),
 	)
 	p.nextToken()
-	return &ast.Identifier{}
+	return notParsed
 }
 
 func (p *Parser) afterFixDoubleErrorStatement(statement ast.Statement) {
-- 
2.43.0


From a766f0988c497c60c48e6232f566d5d33ae08a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 062/114] fix: every target of a declaration or of an
 assignment should be assignable

---
 internals/parser/parser_assignment.go | 46 ++++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 9e0de25..da45e64 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -7,28 +7,37 @@ import (
 	"github.com/gabivlj/candice/internals/token"
 )
 
+func (p *Parser) expectAssignable(expression ast.Expression) {
+	switch left := expression.(type) {
+	case *ast.BinaryOperation:
+		if left.Operation != ops.Dot {
+			p.addErrorMessage("this operation is not permitted in an assignment")
+		}
+	case *ast.IndexAccess:
+	case *ast.PrefixOperation:
+		if left.Operation != ops.Multiply {
+			p.addErrorMessage("this prefix is not permitted in an assignment")
+		}
+	case *ast.Identifier:
+	default:
+		{
+			p.addErrorMessage("this operation is not permitted in an assignment")
+		}
+	}
+}
+
 func (p *Parser) parsePossibleAssignment() ast.Statement {
 	expr := p.parseExpression(0)
 	// log.Println(expr)
 	if bin, ok := expr.(*ast.BinaryOperation); ok {
 		if bin.Operation == ops.TempAssign {
-			switch left := bin.Left.(type) {
-			case *ast.BinaryOperation:
-				if left.Operation != ops.Dot {
-					p.addErrorMessage("this operation is not permitted in an assignment")
-				}
-			case *ast.CommaExpressions:
+			if left, ok := bin.Left.(*ast.CommaExpressions); ok {
 				left.IsAssignment = true
-			case *ast.IndexAccess:
-			case *ast.PrefixOperation:
-				if left.Operation != ops.Multiply {
-					p.addErrorMessage("this prefix is not permitted in an assignment")
-				}
-			case *ast.Identifier:
-			default:
-				{
-					p.addErrorMessage("this operation is not permitted in an assignment")
+				for _, expression := range left.Expressions {
+					p.expectAssignable(expression)
 				}
+			} else {
+				p.expectAssignable(bin.Left)
 			}
 
 			return &ast.AssignmentStatement{
@@ -51,6 +60,13 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 			t = p.parseType()
 		}
 
+		for _, expression := range commaExpr.Expressions {
+			if _, isIdentifier := expression.(*ast.Identifier); !isIdentifier {
+				p.addErrorMessage("only names can be declared, got: " + expression.String())
+				return &ast.ExpressionStatement{Token: declToken, Expression: expr}
+			}
+		}
+
 		p.expect(token.ASSIGN)
 		p.nextToken()
 		return &ast.MultipleDeclarationStatement{
-- 
2.43.0


From 9747b7d52c657c8ae01c609742f6e943604bc003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 063/114] fix: an identifier without module belongs to this
 module

---
 internals/ast/mod.go           | 7 ++++++-
 internals/semantic/semantic.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internals/ast/mod.go b/internals/ast/mod.go
index ebce0b5..d80a664 100644
--- a/internals/ast/mod.go
+++ b/internals/ast/mod.go
@@ -70,8 +70,13 @@ func RetrieveID(name string) string {
 	return strings.Split(name, "-")[0]
 }
 
+// RetrieveRightID returns the ID of the file of an identifier, which is empty if the identifier doesn't have one
 func RetrieveRightID(name string) string {
-	return strings.Split(name, "-")[1]
+	parts := strings.Split(name, "-")
+	if len(parts) < 2 {
+		return ""
+	}
+	return parts[1]
 }
 
 type Function interface {
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 01a6883..aa7a341 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -611,7 +611,7 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 			id := ast.RetrieveRightID(anonymous.Name)
 			semantic = s.modules[id]
 			// Unexisting module, it is this module
-			if semantic == nil && s.Root.ID == id {
+			if semantic == nil && (id == "" || s.Root.ID == id) {
 				semantic = s
 			} else if semantic == nil {
 				logger.Warning("there might be an error on the compiler, we can't find a module for some reason")
-- 
2.43.0


From 72839e0ff958adfc5c09d69544897766eef80994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 064/114] fix: the hint of a mismatched type needs a node for
 its cast

---
 internals/semantic/semantic_errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic_errors.go b/internals/semantic/semantic_errors.go
index 9b3b86d..2acd89b 100644
--- a/internals/semantic/semantic_errors.go
+++ b/internals/semantic/semantic_errors.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/node"
 	"github.com/gabivlj/candice/internals/ops"
 	"github.com/gabivlj/candice/internals/token"
 	"github.com/gabivlj/candice/pkg/format"
@@ -175,24 +176,26 @@ func (s *Semantic) typeMismatchBlameArithmeticExpressionError(node string, binar
 }
 
 // Type mismatch for every binary operation
-func (s *Semantic) typeMismatchBlameBinaryExpressionError(node string, binary *ast.BinaryOperation, tok token.Token, expected ctypes.Type, got ctypes.Type, blameRight bool) {
+func (s *Semantic) typeMismatchBlameBinaryExpressionError(nodeString string, binary *ast.BinaryOperation, tok token.Token, expected ctypes.Type, got ctypes.Type, blameRight bool) {
 	s.checkDereferenceOnArithmeticErrors(binary.Left.GetType(), binary.Right.GetType(), binary, true)
 	wrongLine := s.getCurrentStatementLineFormatted()
 	// Decide which side of the operation do you want to cast
 	if blameRight {
 		binary.Right = &ast.BuiltinCall{
+			Node:           &node.Node{Token: binary.Right.GetToken(), Type: expected},
 			Name:           "cast",
 			TypeParameters: []ctypes.Type{expected},
 			Parameters:     []ast.Expression{binary.Right},
 		}
 	} else {
 		binary.Left = &ast.BuiltinCall{
+			Node:           &node.Node{Token: binary.Left.GetToken(), Type: got},
 			Name:           "cast",
 			TypeParameters: []ctypes.Type{got},
 			Parameters:     []ast.Expression{binary.Left},
 		}
 	}
-	message := fmt.Sprintf("\n%s\n\n%s \n%s mismatched types, expected %s, got %s\n", wrongLine, node, strings.Repeat("^", len(node)), expected.String(), got.String())
+	message := fmt.Sprintf("\n%s\n\n%s \n%s mismatched types, expected %s, got %s\n", wrongLine, nodeString, strings.Repeat("^", len(nodeString)), expected.String(), got.String())
 	if ctypes.IsNumeric(expected) && ctypes.IsNumeric(got) {
 		message += fmt.Sprintf("Try doing:\n- [%d:%d] %s\n", binary.GetToken().Line, binary.GetToken().Position, binary.String())
 	}
-- 
2.43.0


From f3a69a28b889bfa59e61dea700f45e077c02061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 065/114] fix: a return statement is inside a function

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index aa7a341..1bc6146 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -236,6 +236,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 		return
 
 	case *ast.ReturnStatement:
+		s.expectStatementInsideFunction(statementType.Token)
 		s.analyzeReturnStatement(statementType)
 		return
 	case *ast.GenericTypeDefinition:
-- 
2.43.0


From 1fae545324bfd99cd46f289957b56272df25e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 066/114] fix: an anonymous function without a return type
 returns void

---
 internals/semantic/semantic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1bc6146..46c00c5 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -344,9 +344,11 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 		s.variables.Add(fun.Names[i], s.newType(fun.Parameters[i]))
 	}
 
-	if fun.Return != nil {
-		fun.Return = s.replaceAnonymous(fun.Return)
+	// A function without a return type doesn't return a value
+	if fun.Return == nil {
+		fun.Return = ctypes.VoidType
 	}
+	fun.Return = s.replaceAnonymous(fun.Return)
 }
 
 // replaceAnonymousExternTypes is like replaceAnonymousFunctionParameterTypes, but the parameters don't have names
-- 
2.43.0


From 89d3692472bcb29cc3780df2943d4cc220fc483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 067/114] fix: a global variable can't be called like a
 function

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 46c00c5..495cda6 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -555,6 +555,9 @@ func (s *Semantic) analyzeBuiltinCall(call *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationStatement) {
 	// The value of a global variable should be known before running the program
 	s.expectConstantExpression = declaration.Constant || !s.analyzingInsideFunction()
+	if !s.analyzingInsideFunction() && s.definedFunctions[declaration.Name] {
+		s.errorWithStatement("there is a function that is called "+ast.RetrieveID(declaration.Name), declaration.Token)
+	}
 
 	ctype := s.analyzeExpression(declaration.Expression)
 
-- 
2.43.0


From 7606f46b1507f2e705482ac77cc21b17573d16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 068/114] fix: a formatted hint doesn't have negative tabs

---
 pkg/format/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/format/format.go b/pkg/format/format.go
index 2b74245..df48e27 100644
--- a/pkg/format/format.go
+++ b/pkg/format/format.go
@@ -7,7 +7,7 @@ func StringWithTabs(s string, startingTabs int) string {
 	tabs := startingTabs
 	prev := 'a'
 	for _, c := range s {
-		if c == '}' {
+		if c == '}' && tabs > 0 {
 			tabs--
 		}
 		if c == '{' {
-- 
2.43.0


From 7f45ee75f3e7c241a8c0a012f2b61246c76e859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 069/114] fix: a type that contains itself doesn't have a size

---
 internals/semantic/semantic.go       |  4 +++
 internals/semantic/semantic_steps.go | 54 ++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 495cda6..bc915cb 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -152,6 +152,10 @@ func (s *Semantic) Analyze(program *ast.Program) {
 
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
+	s.expectFiniteTypes(program.Statements)
+	if len(s.Errors) > 0 {
+		return
+	}
 	// Predefine functions so the order doesn't matter
 	s.predefineFunctions(program.Statements)
 
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 8d4e75f..d752f20 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -118,3 +118,57 @@ func (s *Semantic) fillTypes(statements []ast.Statement) {
 		}
 	}
 }
+
+// expectFiniteTypes checks that there isn't a type that contains itself
+func (s *Semantic) expectFiniteTypes(statements []ast.Statement) {
+	for _, statement := range statements {
+		s.currentStatementBeingAnalyzed = statement
+		switch t := statement.(type) {
+		case *ast.StructStatement:
+			{
+				s.expectFiniteType(t, t.Type)
+			}
+
+		case *ast.UnionStatement:
+			{
+				s.expectFiniteType(t, t.Type)
+			}
+
+		case *ast.MacroBlock:
+			{
+				s.expectFiniteTypes(t.Statements)
+			}
+		}
+	}
+}
+
+func (s *Semantic) expectFiniteType(statement ast.Statement, t ctypes.Type) {
+	if contains(t, t, map[ctypes.Type]bool{}) {
+		s.errorWithStatement("recursive type detected, a type can't contain itself", statement.GetToken())
+	}
+}
+
+// contains tells whether the values of type t store values of type searched. The types that still are anonymous are of
+// a file that imports this one, that file checks them when it knows all of its types.
+func contains(t, searched ctypes.Type, visited map[ctypes.Type]bool) bool {
+	var inner []ctypes.Type
+	switch container := t.(type) {
+	case *ctypes.Struct:
+		inner = container.Fields
+	case *ctypes.Union:
+		inner = container.Fields
+	case *ctypes.Array:
+		inner = []ctypes.Type{container.Inner}
+	}
+
+	if visited[t] {
+		return false
+	}
+	visited[t] = true
+	for _, innerType := range inner {
+		if innerType == searched || contains(innerType, searched, visited) {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From ca10d38a797a097ae2d37b1ebde7195af73ed263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 070/114] fix: a union expects the values of its fields, but
 its fields don't expect unions

---
 internals/compiler/compiler.go |  4 +--
 internals/semantic/semantic.go | 51 +++++++---------------------------
 2 files changed, 12 insertions(+), 43 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 1a16a84..b3e95cd 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1313,10 +1313,10 @@ func (c *Compiler) compileStructLiteral(strukt *ast.StructLiteral) value.Value {
 		ptr.InBounds = true
 
 		// Unwrap value pointer
-		compiledValue = c.loadIfPointer(c.bitcastIfUnion(field, compiledValue, ptr.Type()))
+		compiledValue = c.loadIfPointer(compiledValue)
 
 		// Store in the pointer the compiler value
-		c.block().NewStore(compiledValue, ptr)
+		c.block().NewStore(compiledValue, c.bitcastIfUnion(field, ptr, types.NewPointer(compiledValue.Type())))
 	}
 
 	// Do not allocate on declaration/assignments because we are already allocating above.
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index bc915cb..61bb7f8 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -784,55 +784,24 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 	return false
 }
 
-// areTypesEqualIncludingUnions repetition of areTypesEqual but with union checks
-func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool {
-	first = s.UnwrapAnonymous(first)
-	second = s.UnwrapAnonymous(second)
+// areTypesEqualIncludingUnions is like areTypesEqual, but a union also expects the values of the types of its fields
+func (s *Semantic) areTypesEqualIncludingUnions(expected, got ctypes.Type) bool {
+	expected = s.UnwrapAnonymous(expected)
+	got = s.UnwrapAnonymous(got)
 
-	if first == second {
+	if expected == got {
 		return true
 	}
 
-	if union, isUnion := first.(*ctypes.Union); isUnion {
-		return s.existsTypeInUnion(union, second)
-	}
-
-	if union, isUnion := second.(*ctypes.Union); isUnion {
-		return s.existsTypeInUnion(union, first)
-	}
-
-	if s.checkPossibleCommaTypeEquality(first, second) {
-		return true
+	if union, isUnion := expected.(*ctypes.Union); isUnion {
+		return s.existsTypeInUnion(union, got)
 	}
 
-	if ctypes.IsPointer(first) && ctypes.IsPointer(second) {
-		return s.areTypesEqualIncludingUnions(first.(*ctypes.Pointer).Inner, second.(*ctypes.Pointer).Inner)
+	if ctypes.IsPointer(expected) && ctypes.IsPointer(got) {
+		return s.areTypesEqualIncludingUnions(expected.(*ctypes.Pointer).Inner, got.(*ctypes.Pointer).Inner)
 	}
 
-	if firstFunc, ok := first.(*ctypes.Function); ok {
-		secondFunc, ok := second.(*ctypes.Function)
-		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
-			return false
-		}
-		for i, param := range firstFunc.Parameters {
-			if !s.areTypesEqualIncludingUnions(secondFunc.Parameters[i], param) {
-				return false
-			}
-		}
-		return s.areTypesEqualIncludingUnions(firstFunc.Return, secondFunc.Return)
-	}
-
-	if ctypes.IsArray(first) {
-		fArray := first.(*ctypes.Array)
-		sArray, ok := second.(*ctypes.Array)
-		if !ok {
-			return false
-		}
-
-		return fArray.Length == sArray.Length && s.areTypesEqualIncludingUnions(fArray.Inner, sArray.Inner)
-	}
-
-	return false
+	return s.areTypesEqual(expected, got)
 }
 
 func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
-- 
2.43.0


From 4e1827a19d366c0725bb7bc8c56e49f2a3febbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 071/114] fix: void and lists of values aren't types of values

---
 internals/compiler/compiler_types.go   |  7 ++++++-
 internals/semantic/semantic.go         |  6 ++++++
 internals/semantic/semantic_builtin.go |  1 +
 internals/semantic/semantic_errors.go  | 22 ++++++++++++++++++++++
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index a7800c9..6270ea8 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -107,7 +107,12 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 		}
 	case *ctypes.Pointer:
 		{
-			return types.NewPointer(c.ToLLVMType(el.Inner))
+			inner := c.ToLLVMType(el.Inner)
+			if inner == types.Void {
+				// LLVM doesn't have pointers to void
+				return types.I8Ptr
+			}
+			return types.NewPointer(inner)
 		}
 
 	case *ctypes.Union:
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 61bb7f8..d3a7f3d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -345,6 +345,7 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 	for i, param := range fun.Parameters {
 		// try to replace the anonymous type with its true type
 		fun.Parameters[i] = s.replaceAnonymous(s.UnwrapAnonymous(param))
+		s.expectValue(fun.Parameters[i], s.currentStatementBeingAnalyzed.GetToken())
 		s.variables.Add(fun.Names[i], s.newType(fun.Parameters[i]))
 	}
 
@@ -359,6 +360,7 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 func (s *Semantic) replaceAnonymousExternTypes(fun *ctypes.Function) {
 	for i, param := range fun.Parameters {
 		fun.Parameters[i] = s.replaceAnonymous(s.UnwrapAnonymous(param))
+		s.expectValue(fun.Parameters[i], s.currentStatementBeingAnalyzed.GetToken())
 	}
 
 	if fun.Return != nil {
@@ -516,6 +518,7 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 			)
 		}
 		statementType.Type.Fields[i] = s.replaceAnonymous(t)
+		s.expectValue(statementType.Type.Fields[i], statementType.Token)
 	}
 }
 
@@ -543,6 +546,7 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 			)
 		}
 		statementType.Type.Fields[i] = s.replaceAnonymous(t)
+		s.expectValue(statementType.Type.Fields[i], statementType.Token)
 	}
 }
 
@@ -961,6 +965,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Type {
 	arrayType := s.replaceAnonymous(arrayLiteral.Type).(*ctypes.Array)
 	currType := arrayType.Inner
+	s.expectValue(arrayType, arrayLiteral.Token)
 
 	if int(arrayType.Length) < len(arrayLiteral.Values) {
 		s.errorWithStatement("expected an array of length "+strconv.FormatInt(arrayType.Length, 10)+" or less", arrayLiteral.Token)
@@ -1137,6 +1142,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 	}
 
 	if prefixOperation.Operation == ops.BinaryAND {
+		s.expectValue(t, prefixOperation.Token)
 		s.throwInvalidOperationForConstant("you can't ref on constant expressions", prefixOperation)
 		prefixOperation.Type = &ctypes.Pointer{Inner: t}
 		return prefixOperation.Type
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 4f15d3c..5c0739f 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -53,6 +53,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	t := s.UnwrapAnonymous(s.replaceAnonymous(allocCall.TypeParameters[0]))
 	// The compiler needs the size of the true type
 	allocCall.TypeParameters[0] = t
+	s.expectValue(t, allocCall.Token)
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
diff --git a/internals/semantic/semantic_errors.go b/internals/semantic/semantic_errors.go
index 2acd89b..c978050 100644
--- a/internals/semantic/semantic_errors.go
+++ b/internals/semantic/semantic_errors.go
@@ -203,6 +203,28 @@ func (s *Semantic) typeMismatchBlameBinaryExpressionError(nodeString string, bin
 	s.error(message, tok)
 }
 
+// expectValue checks that t isn't, and doesn't contain, the type of something that doesn't have a value
+func (s *Semantic) expectValue(t ctypes.Type, tok token.Token) {
+	switch container := t.(type) {
+	case *ctypes.Array:
+		s.expectValue(container.Inner, tok)
+		return
+	case *ctypes.Function:
+		for _, parameter := range container.Parameters {
+			s.expectValue(parameter, tok)
+		}
+		return
+	}
+
+	if _, isList := t.(*ctypes.TypeList); isList {
+		s.errorWithStatement("a list of values isn't a value", tok)
+	}
+
+	if t == ctypes.VoidType {
+		s.errorWithStatement("void isn't the type of a value", tok)
+	}
+}
+
 func (s *Semantic) throwInvalidOperationForConstant(message string, node ast.Node) {
 	if !s.expectConstantExpression {
 		return
-- 
2.43.0


From 077bc1677e888d83ca3d76b48a5a329fba742001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 072/114] fix: a switch condition is an integer

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index d3a7f3d..fdcd70e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1525,6 +1525,10 @@ func (s *Semantic) replaceAnonymous(t ctypes.Type) ctypes.Type {
 func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement) {
 	s.expectStatementInsideFunction(switchStatement.Token)
 	condition := s.UnwrapAnonymous(s.analyzeExpression(switchStatement.Condition))
+	if !ctypes.IsNumeric(condition) || ctypes.IsFloat(condition) {
+		s.errorWithStatement("you can only switch over integers, got "+condition.String(), switchStatement.Token)
+		return
+	}
 
 	allCasesReturn := true
 
-- 
2.43.0


From e7babd6caff7aa93bc7cff974e15293fcfbf50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 073/114] fix: a switch can't have the same case twice

---
 internals/compiler/compiler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index b3e95cd..6be33fb 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1746,6 +1746,11 @@ func (c *Compiler) compileSwitchStatement(switchStatement *ast.SwitchStatement)
 		possibleNonConstantExpression := c.compileConstantExpression(caseStatement.Case)
 		if constant, isConstant := possibleNonConstantExpression.(constant.Constant); isConstant {
 			caseBlock := c.currentFunction.NewBlock(fmt.Sprintf("case-%d-%s", i, casesId))
+			for _, previousCase := range cases {
+				if previousCase.X.String() == constant.String() {
+					c.exitErrorExpression("the value of this case is the same as the one of a previous case", caseStatement.Case)
+				}
+			}
 			irCase := ir.NewCase(constant, caseBlock)
 			cases = append(cases, irCase)
 			strandedBlocks = append(strandedBlocks, c.compileBlock(caseStatement.Block, caseBlock))
-- 
2.43.0


From 51fe374b4a62df7c34d9abdb9ac1abf306c6822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 074/114] fix: constant expressions handle prefixes,
 comparisons and sizes

---
 internals/compiler/compiler.go                |  4 +
 internals/compiler/compiler_constant.go       | 96 +++++++------------
 .../compiler/compiler_constant_folding.go     | 73 ++++++++++++++
 3 files changed, 110 insertions(+), 63 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 6be33fb..98ec474 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -982,6 +982,10 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 		return c.block().NewSub(constant.NewInt(prefixValue.Type().(*types.IntType), 0), prefixValue)
 	}
 
+	if prefix.Operation == ops.Add {
+		return c.loadIfPointer(prefixValue)
+	}
+
 	if prefix.Operation == ops.AddOne || prefix.Operation == ops.SubtractOne {
 		if !types.IsPointer(prefixValue.Type()) {
 			c.exitErrorExpression("the right side of the value was not a variable to store on", prefix)
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 1747bf3..2920ae0 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -40,17 +40,13 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 			return val
 		}
 
-		if _, ok := val.Type().(*types.FloatType); ok {
-			if ctypes.IsUnsignedInteger(expr.GetType()) {
-				return constant.NewFPToUI(val, to)
-			}
-
-			return constant.NewFPToSI(val, to)
-		}
-
 		c.exitErrorExpression("can't handle this cast", expr)
 	}
 
+	if to, isPointer := to.(*types.PointerType); isPointer && types.IsInt(val.Type()) {
+		return constant.NewIntToPtr(val, to)
+	}
+
 	if types.IsFloat(to) {
 		to := to.(*types.FloatType)
 		if integerType, ok := val.Type().(*types.IntType); ok {
@@ -91,6 +87,8 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 			right = c.handleConstantCast(right, expr.Right.GetType(), left.Type(), expr)
 		}
 		return c.compileOperation(expr.Operation, expr, left, right)
+	case *ast.PrefixOperation:
+		return c.compileConstantPrefix(expr)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
 	case *ast.Float:
@@ -98,6 +96,9 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	case *ast.StringLiteral:
 		return constant.NewCharArrayFromString(expr.Value + string(byte(0)))
 	case *ast.BuiltinCall:
+		if expr.Name == "sizeof" {
+			return c.compileExpression(expr).(constant.Constant)
+		}
 		if expr.Name == "cast" {
 			return c.handleConstantCast(
 				c.compileConstantExpression(expr.Parameters[0]),
@@ -115,7 +116,30 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	panic(nil)
 }
 
+func (c *Compiler) compileConstantPrefix(expr *ast.PrefixOperation) constant.Constant {
+	right := c.compileConstantExpression(expr.Right)
+	switch expr.Operation {
+	case ops.Add:
+		return right
+	case ops.Subtract:
+		if negative := foldNegative(right); negative != nil {
+			return negative
+		}
+	case ops.Bang:
+		if isTrue, isKnown := constantIsTrue(right); isKnown {
+			return constant.NewBool(!isTrue)
+		}
+	}
+
+	c.exitErrorExpression("unexpected non constant operation", expr)
+	panic(nil)
+}
+
 func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
+	if folded := foldBooleanOperation(op, ctypes.IsUnsignedInteger(expr.Left.GetType()), first, second); folded != nil {
+		return folded
+	}
+
 	if folded := foldOperation(op, ctypes.IsUnsignedInteger(expr.Type), first, second); folded != nil {
 		return folded
 	}
@@ -124,60 +148,6 @@ func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation,
 		c.exitErrorExpression("division by zero on a constant expression", expr)
 	}
 
-	switch op {
-	case ops.Add:
-		if types.IsFloat(first.Type()) {
-			return constant.NewFAdd(first, second)
-		}
-
-		return constant.NewAdd(first, second)
-
-	case ops.Subtract:
-		if types.IsFloat(first.Type()) {
-			return constant.NewFSub(first, second)
-		}
-
-		return constant.NewSub(first, second)
-
-	case ops.Multiply:
-		if types.IsFloat(first.Type()) {
-			return constant.NewFMul(first, second)
-		}
-
-		return constant.NewMul(first, second)
-
-	case ops.BinaryAND:
-		return constant.NewAnd(first, second)
-	case ops.BinaryXOR:
-		return constant.NewXor(first, second)
-	case ops.BinaryOR:
-		return constant.NewOr(first, second)
-	case ops.LeftShift:
-		return constant.NewShl(first, second)
-	case ops.RightShift:
-		return constant.NewLShr(first, second)
-	case ops.Divide:
-		if types.IsInt(first.Type()) {
-			if _, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned {
-				return constant.NewUDiv(first, second)
-			}
-			return constant.NewSDiv(first, second)
-		}
-		if types.IsFloat(first.Type()) {
-			return constant.NewFDiv(first, second)
-		}
-	case ops.Modulo:
-		if types.IsInt(first.Type()) {
-			if _, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned {
-				return constant.NewURem(first, second)
-			}
-			return constant.NewSRem(first, second)
-		}
-		if types.IsFloat(first.Type()) {
-			return constant.NewFRem(first, second)
-		}
-	}
-
-	c.exitInternalError("can't handle operation " + op.String() + " on " + first.String() + " and " + second.String())
+	c.exitErrorExpression("can't handle this constant operation", expr)
 	return nil
 }
diff --git a/internals/compiler/compiler_constant_folding.go b/internals/compiler/compiler_constant_folding.go
index d75e840..c425b92 100644
--- a/internals/compiler/compiler_constant_folding.go
+++ b/internals/compiler/compiler_constant_folding.go
@@ -130,6 +130,79 @@ func foldOperation(op ops.Operation, unsigned bool, first, second constant.Const
 	return nil
 }
 
+// foldNegative returns nil if the result can't be computed by the compiler
+func foldNegative(x constant.Constant) constant.Constant {
+	switch x := x.(type) {
+	case *constant.Int:
+		return wrapInteger(x.Typ, new(big.Int).Neg(x.X))
+	case *constant.Float:
+		return newFloat(x.Typ, -floatValue(x))
+	}
+	return nil
+}
+
+// constantIsTrue returns whether the constant is different than zero, and if that is known by the compiler
+func constantIsTrue(x constant.Constant) (isTrue bool, isKnown bool) {
+	switch x := x.(type) {
+	case *constant.Int:
+		return x.X.Sign() != 0, true
+	case *constant.Float:
+		return floatValue(x) != 0, true
+	}
+	return false, false
+}
+
+// foldBooleanOperation computes the operations whose result is a boolean. It returns nil if the operation isn't
+// one of them or if its result can't be computed by the compiler
+func foldBooleanOperation(op ops.Operation, unsigned bool, first, second constant.Constant) constant.Constant {
+	if op == ops.AND || op == ops.OR {
+		left, isLeftKnown := constantIsTrue(first)
+		right, isRightKnown := constantIsTrue(second)
+		if !isLeftKnown || !isRightKnown {
+			return nil
+		}
+		if op == ops.AND {
+			return constant.NewBool(left && right)
+		}
+		return constant.NewBool(left || right)
+	}
+
+	var isLess, isEqual bool
+	switch first := first.(type) {
+	case *constant.Int:
+		second, ok := second.(*constant.Int)
+		if !ok {
+			return nil
+		}
+		order := integerValue(first, unsigned).Cmp(integerValue(second, unsigned))
+		isLess, isEqual = order < 0, order == 0
+	case *constant.Float:
+		second, ok := second.(*constant.Float)
+		if !ok || math.IsNaN(floatValue(first)) || math.IsNaN(floatValue(second)) {
+			return nil
+		}
+		isLess, isEqual = floatValue(first) < floatValue(second), floatValue(first) == floatValue(second)
+	default:
+		return nil
+	}
+
+	switch op {
+	case ops.Equals:
+		return constant.NewBool(isEqual)
+	case ops.NotEquals:
+		return constant.NewBool(!isEqual)
+	case ops.LessThan:
+		return constant.NewBool(isLess)
+	case ops.LessThanEqual:
+		return constant.NewBool(isLess || isEqual)
+	case ops.GreaterThan:
+		return constant.NewBool(!isLess && !isEqual)
+	case ops.GreaterThanEqual:
+		return constant.NewBool(!isLess)
+	}
+	return nil
+}
+
 // foldCast returns nil if the result of the cast can't be computed by the compiler
 func foldCast(val constant.Constant, unsigned, toUnsigned bool, to types.Type) constant.Constant {
 	switch val := val.(type) {
-- 
2.43.0


From 23ab38347becf724a1682e98a8a1056280ebd392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 075/114] fix: the tree shows multiple declarations and
 expression blocks

---
 internals/tree_printer/printer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 77c5ce0..8857c89 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -211,7 +211,13 @@ func Process(statement ast.Statement) string {
 
 	case *ast.MultipleDeclarationStatement:
 		{
-			panic("unimplemented")
+			var strings []string
+			for _, name := range t.Names {
+				strings = append(strings, ast.RetrieveID(name))
+			}
+
+			strings = append(strings, processExpression(t.Expression))
+			return ConnectString("ast.MultipleDeclarationStatement", strings)
 		}
 	}
 
@@ -341,6 +347,11 @@ func processExpression(expression ast.Expression) string {
 
 			return ConnectString("ast.CommaExpressions", expressions)
 		}
+
+	case *ast.ExpressionBlock:
+		{
+			return ConnectString("ast.ExpressionBlock", []string{t.Type.String(), Process(t.Block)})
+		}
 	}
 	return ""
 }
-- 
2.43.0


From bdd2eacd3bb1cd2350d1e2fe019634ba4e68ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 076/114] fix: statements that can't be reached aren't compiled

---
 internals/semantic/semantic.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index fdcd70e..e8c91c8 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -192,12 +192,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 			return
 		}
 	case *ast.MacroBlock:
-		for _, stmt := range statementType.Block.Statements {
-			if s.returns {
-				return
-			}
-			s.analyzeStatement(stmt)
-		}
+		s.analyzeStatements(statementType.Block)
 		return
 	case *ast.Block:
 		s.analyzeBlock(statementType)
@@ -303,8 +298,15 @@ func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.expectStatementInsideFunction(block.Token)
 	s.enterFrame()
 	defer s.leaveFrame()
-	for _, stmt := range block.Statements {
+	s.analyzeStatements(block)
+}
+
+// analyzeStatements analyzes the statements in order. The ones that can't be reached aren't analyzed, so they are
+// removed because the compiler can't compile them.
+func (s *Semantic) analyzeStatements(block *ast.Block) {
+	for i, stmt := range block.Statements {
 		if s.returns {
+			block.Statements = block.Statements[:i]
 			return
 		}
 		s.analyzeStatement(stmt)
@@ -387,12 +389,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	s.currentExpectedReturnType = fun.Return
 
 	if block != nil {
-		for _, statement := range block.Statements {
-			if s.returns {
-				break
-			}
-			s.analyzeStatement(statement)
-		}
+		s.analyzeStatements(block)
 	}
 
 	if !s.returns && fun.Return != ctypes.VoidType {
-- 
2.43.0


From 9596622c72e00d251da4782adcfbaa96ca21d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 077/114] fix: a global variable can store another function

---
 internals/compiler/compiler.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 98ec474..0808ebd 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -798,6 +798,11 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		c.doNotAllocate = false
 		if _, isConstant := valueCompiled.(constant.Constant); isConstant {
 			c.globalVariables[decl.Name] = &Value{Value: valueCompiled, Type: decl.Type, Constant: decl.Constant}
+			if ctypes.IsFunction(decl.Type) && !decl.Constant {
+				// The variable stores a function, but it isn't the function
+				global := c.m.NewGlobalDef(decl.Name+".global", valueCompiled.(constant.Constant))
+				c.globalVariables[decl.Name+".global"] = &Value{Value: global, Type: decl.Type}
+			}
 		} else {
 			c.exitErrorExpression("Candice does not support non-constant global expressions and operations yet.", decl.Expression)
 		}
@@ -1076,11 +1081,11 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 	}
 
 	if fn, ok := c.globalVariables[name]; ok {
-		if !ctypes.IsFunction(fn.Type) {
-			if existing, exists := c.globalVariables[name+".global"]; exists {
-				return existing.Value
-			}
+		if existing, exists := c.globalVariables[name+".global"]; exists {
+			return existing.Value
+		}
 
+		if !ctypes.IsFunction(fn.Type) {
 			global := fn.Value.(constant.Constant)
 
 			// If it is an array we must allocate it as a global and then cast it as a pointer
-- 
2.43.0


From b81ca5498f0f3f54edbc5f1d770046e4a24ab62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 078/114] fix: every value of a list has a value

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e8c91c8..601bf7b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -913,6 +913,7 @@ func (s *Semantic) analyzeCommaExpressions(commaExpressions *ast.CommaExpression
 	for _, expression := range commaExpressions.Expressions {
 		t := s.analyzeExpression(expression)
 		t = s.UnwrapAnonymous(s.replaceAnonymous(t))
+		s.expectValue(t, commaExpressions.Token)
 		commaExpressionsType.Types = append(commaExpressionsType.Types, t)
 	}
 
-- 
2.43.0


From f0eff186beafec6bd39168f1e76b3bf9f1620428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 079/114] fix: a file can't import itself

---
 internals/semantic/semantic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 601bf7b..7da430a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -64,6 +64,9 @@ type Semantic struct {
 
 var paths map[string]*Semantic = map[string]*Semantic{}
 
+// files that are being imported right now
+var importing = map[string]bool{}
+
 func (s *Semantic) SizeOf() int64 {
 	return 0
 }
@@ -76,6 +79,7 @@ func (s *Semantic) String() string { return "MODULE" }
 
 func ResetPaths() {
 	paths = map[string]*Semantic{}
+	importing = map[string]bool{}
 }
 
 func New() *Semantic {
@@ -1385,6 +1389,12 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		s.modules[existingSemantic.Root.ID] = existingSemantic
 		return
 	}
+	if importing[currentPathPlusImport] {
+		s.errorWithStatement("import cycle, the file "+importStatement.Path.String()+" imports itself", importStatement.Token)
+		return
+	}
+	importing[currentPathPlusImport] = true
+	defer delete(importing, currentPathPlusImport)
 	text, err := os.ReadFile(currentPathPlusImport)
 	if err != nil {
 		s.errorWithStatement(fmt.Sprintf("error importing file with path %s: %s", importStatement.Path, err.Error()), importStatement.Token)
-- 
2.43.0


From 4d72b73d558139e081c899cef1cecbfa5b3ac07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 080/114] fix: the operands of inline assembly are analyzed,
 and its output can be a pointer

---
 internals/compiler/compiler.go         | 4 +++-
 internals/semantic/semantic_builtin.go | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 0808ebd..af1e0a0 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -179,7 +179,9 @@ func (c *Compiler) initializeBuiltinLib() {
 		for _, parameter := range bc.Parameters[1:] {
 			expressions = append(expressions, c.loadIfPointer(c.compileExpression(parameter)))
 		}
-		return c.asm(c.ToLLVMType(bc.TypeParameters[0]), bc.Parameters[0].(*ast.StringLiteral).Value, expressions...)
+		output := c.asm(c.ToLLVMType(bc.TypeParameters[0]), bc.Parameters[0].(*ast.StringLiteral).Value, expressions...)
+		c.doNotLoadIntoMemory = true
+		return output
 	}
 
 	c.builtins["realloc"] = func(c *Compiler, call *ast.BuiltinCall) value.Value {
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 5c0739f..4866a26 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -139,5 +139,10 @@ func (s *Semantic) analyzeAsm(asmCall *ast.BuiltinCall) ctypes.Type {
 		return ctypes.TODO()
 	}
 
-	return s.replaceAnonymous(asmCall.TypeParameters[0])
+	for _, parameter := range asmCall.Parameters[1:] {
+		s.expectValue(s.analyzeExpression(parameter), asmCall.Token)
+	}
+
+	asmCall.TypeParameters[0] = s.replaceAnonymous(asmCall.TypeParameters[0])
+	return asmCall.TypeParameters[0]
 }
-- 
2.43.0


From 9952e767d3be43616ae0b55cb726f7114e11c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 081/114] fix: an import can't be inside a function

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 7da430a..0dedc70 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -209,6 +209,9 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 	case *ast.ImportStatement:
 		// moved to step of structs
 		// s.analyzeImport(statementType)
+		if s.analyzingInsideFunction() {
+			s.errorWithStatement("an import can't be inside a function", statementType.Token)
+		}
 		return
 	case *ast.DeclarationStatement:
 		s.analyzeDeclarationStatement(statementType)
-- 
2.43.0


From 9c2dd04e4e8aefe3d000b1c1358d106dccdb0138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 082/114] fix: a method that isn't called isn't a value

---
 internals/semantic/semantic.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 0dedc70..652b36e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -58,6 +58,9 @@ type Semantic struct {
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
+	// the expression that is being called, methods can only be accessed there
+	callee ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 }
@@ -993,6 +996,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	previousExpectNonConstant := s.expectNonConstantExpression
 	s.expectNonConstantExpression = false
 	defer func() { s.expectNonConstantExpression = previousExpectNonConstant }()
+	s.callee = call.Left
 	possibleFuncType := s.analyzeExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
@@ -1241,7 +1245,19 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 	return nil
 }
 
+// accessMethod makes the left side of the access a parameter of the call
+func (s *Semantic) accessMethod(access *ast.BinaryOperation, method *ctypes.Function, isCalled bool) ctypes.Type {
+	if !isCalled {
+		s.errorWithStatement("the function of "+access.String()+" should be called", access.Token)
+		return ctypes.TODO()
+	}
+
+	s.additionalExpression = access.Left
+	return method
+}
+
 func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctypes.Type {
+	isCalled := s.callee == binaryOperation
 	left := s.analyzeExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
 	var isFieldAccessor bool
@@ -1265,8 +1281,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.accessMethod(binaryOperation, fn, isCalled)
 		}
 		ptr.Inner = fieldAccessor
 	} else {
@@ -1278,8 +1293,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.accessMethod(binaryOperation, fn, isCalled)
 		}
 	}
 
@@ -1311,8 +1325,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-		s.additionalExpression = binaryOperation.Left
-		return variable.Type
+		return s.accessMethod(binaryOperation, fn, isCalled)
 	}
 
 	binaryOperation.Type = t
-- 
2.43.0


From 8048d2bd78746ba7d5dd9d77188c82578e650d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 083/114] fix: look for methods in the order modules are
 imported

---
 internals/semantic/semantic.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 652b36e..850b60b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -54,7 +54,9 @@ type Semantic struct {
 	// ```
 	// So we need to 'duplicate' definitions when importing semantic modules. One for module identifier accessing modules
 	// and method calls that reference other places
-	modules              map[string]*Semantic
+	modules map[string]*Semantic
+	// modules in the order they are imported
+	importedModules      []*Semantic
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
@@ -1213,7 +1215,7 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 }
 
 func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *ctypes.Function {
-	for _, semantic := range s.modules {
+	for _, semantic := range s.importedModules {
 		v := semantic.variables.Get(semantic.TranslateName(accessName))
 		if v == nil {
 			continue
@@ -1403,6 +1405,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		// We need this for methods that are referenced as
 		// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
 		s.modules[existingSemantic.Root.ID] = existingSemantic
+		s.importedModules = append(s.importedModules, existingSemantic)
 		return
 	}
 	if importing[currentPathPlusImport] {
@@ -1444,6 +1447,7 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
 	s.modules[internalSemantic.Root.ID] = internalSemantic
 	s.modules[importStatement.Name] = internalSemantic
+	s.importedModules = append(s.importedModules, internalSemantic)
 }
 
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
-- 
2.43.0


From 07ee3cf850859f2012634e6d41ecf38cc7b0096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 084/114] fix: a module isn't a value, and local variables can
 be called like it

---
 internals/semantic/semantic.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 850b60b..046358e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -63,6 +63,9 @@ type Semantic struct {
 	// the expression that is being called, methods can only be accessed there
 	callee ast.Expression
 
+	// the expression that is being accessed, modules can only be there
+	accessed ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 }
@@ -1049,12 +1052,18 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 }
 
 func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
-	if module, ok := s.modules[identifier.Name]; ok {
+	identifierType := s.variables.Get(identifier.Name)
+	isLocal := identifierType != nil && identifierType.parentFunction != nil
+	if module, ok := s.modules[identifier.Name]; ok && !isLocal {
+		if s.accessed != identifier {
+			s.errorWithStatement("the module "+identifier.String()+" isn't a value", identifier.Token)
+			return ctypes.TODO()
+		}
 		identifier.Type = module
 		return module
 	}
 
-	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
+	if identifierType != nil {
 		identifier.Type = identifierType.Type
 
 		if identifierType.IsFunction && s.expectNonConstantExpression {
@@ -1260,6 +1269,7 @@ func (s *Semantic) accessMethod(access *ast.BinaryOperation, method *ctypes.Func
 
 func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctypes.Type {
 	isCalled := s.callee == binaryOperation
+	s.accessed = binaryOperation.Left
 	left := s.analyzeExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
 	var isFieldAccessor bool
-- 
2.43.0


From c3d9ecaac892257d515546448b90170f0bc22a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 085/114] fix: the constants and functions of another module
 can't be mutated

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 046358e..49ca6c0 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1218,6 +1218,10 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		return ctypes.TODO()
 	}
 
+	if s.expectNonConstantExpression && (accessedElement.IsConstant || accessedElement.IsFunction) {
+		s.errorWithStatement("you are trying to mutate a constant, '"+binaryOp.String()+"' is a constant variable", binaryOp.Token)
+	}
+
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
-- 
2.43.0


From b9d196bc884f220797782bd6967a125870b66126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 086/114] fix: a named function can't be inside a function

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 49ca6c0..902f71a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -234,6 +234,10 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 		s.analyzeForStatement(statementType)
 		return
 	case *ast.FunctionDeclarationStatement:
+		if s.analyzingInsideFunction() {
+			s.errorWithStatement("only anonymous functions can be inside a function", statementType.Token)
+			return
+		}
 		s.analyzeFunctionStatement(statementType)
 		return
 	case *ast.AssignmentStatement:
-- 
2.43.0


From 26e0c8373575cfce29db55b951c311207f03b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 087/114] fix: compare constants that aren't a number as LLVM
 does

---
 internals/compiler/compiler_constant_folding.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internals/compiler/compiler_constant_folding.go b/internals/compiler/compiler_constant_folding.go
index c425b92..ad873f9 100644
--- a/internals/compiler/compiler_constant_folding.go
+++ b/internals/compiler/compiler_constant_folding.go
@@ -167,7 +167,8 @@ func foldBooleanOperation(op ops.Operation, unsigned bool, first, second constan
 		return constant.NewBool(left || right)
 	}
 
-	var isLess, isEqual bool
+	// A float that isn't a number isn't less, equal or greater than another one
+	var isLess, isEqual, isGreater bool
 	switch first := first.(type) {
 	case *constant.Int:
 		second, ok := second.(*constant.Int)
@@ -175,13 +176,14 @@ func foldBooleanOperation(op ops.Operation, unsigned bool, first, second constan
 			return nil
 		}
 		order := integerValue(first, unsigned).Cmp(integerValue(second, unsigned))
-		isLess, isEqual = order < 0, order == 0
+		isLess, isEqual, isGreater = order < 0, order == 0, order > 0
 	case *constant.Float:
 		second, ok := second.(*constant.Float)
-		if !ok || math.IsNaN(floatValue(first)) || math.IsNaN(floatValue(second)) {
+		if !ok {
 			return nil
 		}
-		isLess, isEqual = floatValue(first) < floatValue(second), floatValue(first) == floatValue(second)
+		left, right := floatValue(first), floatValue(second)
+		isLess, isEqual, isGreater = left < right, left == right, left > right
 	default:
 		return nil
 	}
@@ -196,9 +198,9 @@ func foldBooleanOperation(op ops.Operation, unsigned bool, first, second constan
 	case ops.LessThanEqual:
 		return constant.NewBool(isLess || isEqual)
 	case ops.GreaterThan:
-		return constant.NewBool(!isLess && !isEqual)
+		return constant.NewBool(isGreater)
 	case ops.GreaterThanEqual:
-		return constant.NewBool(!isLess)
+		return constant.NewBool(isGreater || isEqual)
 	}
 	return nil
 }
-- 
2.43.0


From d9b04854b9420e4e360790600653e7d3e20c8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 088/114] fix: the strings of @print don't define symbols that
 are called like them

---
 internals/compiler/compiler_utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index 392357e..6cd86e0 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -1,6 +1,8 @@
 package compiler
 
 import (
+	"fmt"
+
 	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/enum"
@@ -12,8 +14,11 @@ func (c *Compiler) createString(s string) value.Value {
 	var globalDef value.Value
 	s += string(byte(0))
 	if definition, ok := c.globalBuiltinDefinitions[s]; !ok {
-		globalDef = c.m.NewGlobalDef(s[:len(s)-1], constant.NewCharArrayFromString(s))
-		c.globalBuiltinDefinitions[s] = globalDef
+		// The name can't be the string itself, it would be the one of any symbol that is called like it
+		global := c.m.NewGlobalDef(fmt.Sprintf("string.constant.%d", len(c.globalBuiltinDefinitions)), constant.NewCharArrayFromString(s))
+		global.Linkage = enum.LinkagePrivate
+		c.globalBuiltinDefinitions[s] = global
+		globalDef = global
 	} else {
 		globalDef = definition
 	}
-- 
2.43.0


From 03bad7a04484bbddddd1b2491810a320c75b1102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 089/114] fix: main can be public, a public function is defined
 only once

---
 internals/compiler/compiler.go | 37 ++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index af1e0a0..cac5c6f 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -584,8 +584,8 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
 	llvmFunction.ReturnAttrs = c.abiReturnAttributes(functionType.Return, toReturnType)
 
-	if functionType.RedefineWithOriginalName {
-		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
+	if isRedefinedWithOriginalName(functionType) {
+		llvmFunctionExtern := c.declarePublicFunction(functionType, funk, params)
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
 		llvmFunctionExtern.ReturnAttrs = llvmFunction.ReturnAttrs
 		c.globalVariables[functionType.ExternalName] = &Value{
@@ -645,7 +645,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		}
 	}
 
-	if funk.GetFunctionType().RedefineWithOriginalName {
+	if isRedefinedWithOriginalName(funk.GetFunctionType()) {
 		c.compileFunctionRedeclaration(c.currentFunction.Blocks, funk)
 	}
 
@@ -655,6 +655,35 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = prevValue, prevLeave
 }
 
+// isRedefinedWithOriginalName tells if the function needs another definition that is called as it is in the source,
+// the main function always has its original name
+func isRedefinedWithOriginalName(functionType *ctypes.Function) bool {
+	return functionType.RedefineWithOriginalName && !functionType.IsMainFunction()
+}
+
+// declarePublicFunction declares the definition of a public function that is called as it is in the source
+func (c *Compiler) declarePublicFunction(functionType *ctypes.Function, funk ast.Function, params []*ir.Param) *ir.Func {
+	returnType := c.ToLLVMType(functionType.Return)
+	previous, isDeclared := c.globalVariables[functionType.ExternalName]
+	if !isDeclared {
+		return c.m.NewFunc(functionType.ExternalName, returnType, params...)
+	}
+
+	// Another file is able to declare it as an extern function, but it can't define it
+	declaration := previous.Value.(*ir.Func)
+	previousType := previous.Type.(*ctypes.Function)
+	isSame := len(params) == len(declaration.Params) && returnType.Equal(declaration.Sig.RetType) && !previousType.InfiniteParameters
+	for i := 0; isSame && i < len(params); i++ {
+		isSame = params[i].Type().Equal(declaration.Params[i].Type())
+	}
+	if previousType.RedefineWithOriginalName || !isSame {
+		c.exitErrorExpression(fmt.Sprintf("the public function %s is already defined or declared with another type", functionType.ExternalName), funk.(ast.Node))
+	}
+
+	declaration.Params = params
+	return declaration
+}
+
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
 	llvmFunction := c.retrieveVariable(funk.GetFunctionType().ExternalName).(*ir.Func)
 	llvmFunction.Blocks = otherFunctionBlocks
@@ -1051,7 +1080,7 @@ func (c *Compiler) exit(message string) {
 	os.Exit(1)
 }
 
-func (c *Compiler) exitErrorExpression(message string, node ast.Expression) {
+func (c *Compiler) exitErrorExpression(message string, node ast.Node) {
 	logger.Error("Compiler", message, fmt.Sprintf("\non [%d:%d]: ", node.GetToken().Line, node.GetToken().Position)+node.String())
 	os.Exit(1)
 }
-- 
2.43.0


From 13ca6c208774bbc21c6df586e7d75fe4e04ea154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 090/114] fix: list the types of a module in order

---
 internals/semantic/semantic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 902f71a..2666c1b 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -655,10 +656,12 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 
 		t, ok := semantic.definedTypes[name]
 		if !ok {
-			typesDefined := ""
+			listOfTypes := make([]string, 0, len(semantic.definedTypes))
 			for _, t := range semantic.definedTypes {
-				typesDefined += "- " + t.String() + "\n"
+				listOfTypes = append(listOfTypes, "- "+t.String()+"\n")
 			}
+			sort.Strings(listOfTypes)
+			typesDefined := strings.Join(listOfTypes, "")
 
 			if typesDefined == "" {
 				typesDefined = "No types defined in the module."
-- 
2.43.0


From f9c0cc7464326685bfc872b25f84b6c445bcdb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 091/114] fix: reject types that are defined twice and type
 parameters that aren't needed

---
 internals/parser/parser.go     | 3 +++
 internals/semantic/semantic.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 1eff5fb..2ba0ff5 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -158,6 +158,9 @@ func (p *Parser) Parse() *ast.Program {
 	for p.currentToken.Type != token.EOF {
 		program.Statements = append(program.Statements, p.parseStatement())
 	}
+	if p.currentTypeParameter < len(p.TypeParameters) {
+		p.Errors = append(p.Errors, fmt.Errorf("there are too many type parameters passed to the file, we got %d but it only needs %d", len(p.TypeParameters), p.currentTypeParameter))
+	}
 	return program
 }
 
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2666c1b..421764f 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -287,6 +287,9 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 func (s *Semantic) analyzeTypeDefinition(typeDef *ast.TypeDefinition) {
 	trueType := s.UnwrapAnonymous(s.replaceAnonymous(typeDef.Type))
 	typeDef.Type = trueType
+	if _, isDefined := s.definedTypes[typeDef.Name]; isDefined {
+		s.errorWithStatement("the type "+ast.RetrieveID(typeDef.Name)+" is defined more than once", typeDef.Token)
+	}
 	s.definedTypes[typeDef.Name] = trueType
 }
 
-- 
2.43.0


From aadea64545463be1988ae3ae0e3afd9b6d0ef149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 092/114] fix: print the names of type definitions as they are
 in the source

---
 internals/ast/statements.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index df61f50..9c23968 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -321,7 +321,7 @@ type GenericTypeDefinition struct {
 
 func (g *GenericTypeDefinition) statementNode() {}
 
-func (g *GenericTypeDefinition) String() string        { return g.Name }
+func (g *GenericTypeDefinition) String() string        { return RetrieveID(g.Name) }
 func (g *GenericTypeDefinition) GetToken() token.Token { return g.Token }
 
 type TypeDefinition struct {
@@ -332,7 +332,9 @@ type TypeDefinition struct {
 
 func (g *TypeDefinition) statementNode() {}
 
-func (g *TypeDefinition) String() string { return fmt.Sprintf("type %s = %s", g.Name, g.Type.String()) }
+func (g *TypeDefinition) String() string {
+	return fmt.Sprintf("type %s = %s", RetrieveID(g.Name), g.Type.String())
+}
 
 func (g *TypeDefinition) GetToken() token.Token { return g.Token }
 
-- 
2.43.0


From 484d54a5fcc269c41a99dc19e4632b971015c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 093/114] fix: reject struct literals that give a field twice

---
 internals/semantic/semantic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 421764f..fdea08a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -970,12 +970,17 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		paramMap[name] = i
 	}
 
+	given := map[string]bool{}
 	for _, value := range structLiteral.Values {
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
 			continue
 		}
+		if given[value.Name] {
+			s.errorWithStatement("the attribute "+value.Name+" is given twice on struct literal", structLiteral.Token)
+		}
+		given[value.Name] = true
 		expression := s.analyzeExpression(value.Expression)
 		if !s.areTypesEqualIncludingUnions(structType.Fields[index], expression) {
 			s.typeMismatchError(structLiteral.String(), structLiteral, structLiteral.Token, structType.Fields[index], expression)
-- 
2.43.0


From 51af4963d8585e50b7320affdc308db7ac1d86a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 094/114] fix: report errors of else if conditions at their
 place

---
 internals/ast/statements.go | 3 ++-
 internals/parser/parser.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index 9c23968..f9efc69 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -35,6 +35,7 @@ type MacroBlock struct {
 }
 
 type ConditionPlusBlock struct {
+	Token     token.Token
 	Block     *Block
 	Condition Expression
 }
@@ -42,7 +43,7 @@ type ConditionPlusBlock struct {
 func (c *ConditionPlusBlock) statementNode() {}
 
 func (c *ConditionPlusBlock) GetToken() token.Token {
-	return token.Token{}
+	return c.Token
 }
 
 func (c *ConditionPlusBlock) String() string {
diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 2ba0ff5..28c8af6 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -963,10 +963,11 @@ func (p *Parser) parseIf() ast.Statement {
 			elseBlock = p.parseBlock()
 			break
 		} else if p.currentToken.Type == token.IF {
-			p.nextToken()
+			ifToken := p.nextToken()
 			expression := p.parseExpression(0)
 			block := p.parseBlock()
 			elseWithConditions = append(elseWithConditions, &ast.ConditionPlusBlock{
+				Token:     ifToken,
 				Block:     block,
 				Condition: expression,
 			})
-- 
2.43.0


From 9e1702e9641d0bb15dc01b2501b78472395c23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 095/114] fix: call the function variable that a method call
 names

---
 internals/semantic/semantic.go | 48 ++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index fdea08a..702ca62 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -60,6 +60,8 @@ type Semantic struct {
 	importedModules      []*Semantic
 	Root                 *ast.Program
 	additionalExpression ast.Expression
+	// The function that is called with the additionalExpression
+	method *ast.Identifier
 
 	// the expression that is being called, methods can only be accessed there
 	callee ast.Expression
@@ -1032,13 +1034,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.additionalExpression = nil
 	if additionalExpression != nil {
 		call.Parameters = append([]ast.Expression{additionalExpression}, call.Parameters...)
-		call.Left = &ast.Identifier{
-			Node: &node.Node{
-				Token: call.Token,
-				Type:  possibleFuncType,
-			},
-			Name: funcType.Name,
-		}
+		call.Left = s.method
 	}
 
 	if len(call.Parameters) != len(funcType.Parameters) && !funcType.InfiniteParameters {
@@ -1242,7 +1238,7 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 	return accessedElement.Type
 }
 
-func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *ctypes.Function {
+func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) (*ctypes.Function, *Semantic) {
 	for _, semantic := range s.importedModules {
 		v := semantic.variables.Get(semantic.TranslateName(accessName))
 		if v == nil {
@@ -1254,35 +1250,47 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 				continue
 			}
 
-			return funk
+			return funk, semantic
 		}
 	}
 
 	v := s.variables.Get(s.TranslateName(accessName))
 
 	if v == nil {
-		return nil
+		return nil, nil
 	}
 
 	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
 		if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
-			return nil
+			return nil, nil
 		}
 
-		return funk
+		return funk, s
 	}
 
-	return nil
+	return nil, nil
 }
 
-// accessMethod makes the left side of the access a parameter of the call
-func (s *Semantic) accessMethod(access *ast.BinaryOperation, method *ctypes.Function, isCalled bool) ctypes.Type {
+// accessMethod makes the left side of the access a parameter of the call, and what the owner of
+// the method calls by its name what is called
+func (s *Semantic) accessMethod(access *ast.BinaryOperation, method *ctypes.Function, owner *Semantic, isCalled bool) ctypes.Type {
 	if !isCalled {
 		s.errorWithStatement("the function of "+access.String()+" should be called", access.Token)
 		return ctypes.TODO()
 	}
 
+	name := owner.TranslateName(access.Right.(*ast.Identifier).Name)
+	variable := owner.variables.Get(name)
+	if variable.IsFunction {
+		name = method.Name
+	}
+	callee := &ast.Identifier{Node: &node.Node{Token: access.Token, Type: method}, Name: name}
+	if owner == s && !variable.IsFunction {
+		s.analyzeIdentifier(callee)
+	}
+
 	s.additionalExpression = access.Left
+	s.method = callee
 	return method
 }
 
@@ -1306,25 +1314,25 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		s.throwInvalidOperationForConstant("you can't access pointer fields", binaryOperation)
 		fieldAccessor, isFieldAccessor = s.UnwrapAnonymous(ptr.Inner).(ctypes.FieldType)
 		if !isFieldAccessor {
-			fn := s.findFunctionInAllModules(left, identifier.Name)
+			fn, owner := s.findFunctionInAllModules(left, identifier.Name)
 			if fn == nil {
 				s.errorWithStatement("expected a struct or union on access, got "+ptr.Inner.String(), binaryOperation.Token)
 				return ctypes.TODO()
 			}
 
-			return s.accessMethod(binaryOperation, fn, isCalled)
+			return s.accessMethod(binaryOperation, fn, owner, isCalled)
 		}
 		ptr.Inner = fieldAccessor
 	} else {
 		fieldAccessor, isFieldAccessor = s.UnwrapAnonymous(left).(ctypes.FieldType)
 		if !isFieldAccessor {
-			fn := s.findFunctionInAllModules(left, identifier.Name)
+			fn, owner := s.findFunctionInAllModules(left, identifier.Name)
 			if fn == nil {
 				s.errorWithStatement("expected a struct or union on access, got "+left.String(), binaryOperation.Token)
 				return ctypes.TODO()
 			}
 
-			return s.accessMethod(binaryOperation, fn, isCalled)
+			return s.accessMethod(binaryOperation, fn, owner, isCalled)
 		}
 	}
 
@@ -1356,7 +1364,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-		return s.accessMethod(binaryOperation, fn, isCalled)
+		return s.accessMethod(binaryOperation, fn, m, isCalled)
 	}
 
 	binaryOperation.Type = t
-- 
2.43.0


From 1badedb1e1ddbe0e8db593ba60c2c96101a74157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 096/114] fix: reject strings that the text ends before closing

---
 internals/lexer/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index f6d6721..d429620 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -168,6 +168,10 @@ func (l *Lexer) NextToken() token.Token {
 		tok.Line = l.line
 		tok.Position = l.column + 1
 		tok.Literal = l.readString()
+		if l.ch != '"' {
+			// The text ends before the string does
+			tok.Type = token.ILLEGAL
+		}
 		tok.OverallPosition = l.position
 	case '=':
 		tok = l.peekerForTwoChars('=', l.newToken(token.ASSIGN, '='), token.EQ)
-- 
2.43.0


From 6d2f71dc94898aac3d0790b062db37b888dfa92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 097/114] fix: expect the parenthesis that closes a type

---
 internals/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 28c8af6..54b4a4d 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -617,6 +617,7 @@ func (p *Parser) parseType() ctypes.Type {
 	if p.currentToken.Type == token.LPAREN {
 		p.nextToken()
 		t := p.parseTypes()
+		p.expect(token.RPAREN)
 		p.nextToken()
 		return t
 	}
-- 
2.43.0


From a0c931f4ae49c0f784787cbb24e403c6a61fbbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 098/114] fix: expect a comma after the first field of a struct
 literal

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 54b4a4d..1bac9fa 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -448,7 +448,7 @@ func (p *Parser) parseStructLiteral(module string) ast.Expression {
 		p.expect(token.COLON)
 		p.nextToken()
 		expr := p.parseExpression(2)
-		if len(structValues) >= 1 && p.currentToken.Type != token.RBRACE {
+		if p.currentToken.Type != token.RBRACE {
 			p.expect(token.COMMA)
 		}
 
-- 
2.43.0


From 90ef66c63fe12f356f20c60fec988c393e6e44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 099/114] fix: reject external functions without a name

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 1bac9fa..be4b97e 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -1157,7 +1157,7 @@ func (p *Parser) parseExtern() ast.Statement {
 		return &ast.ExternStatement{Token: extern, Type: t}
 	}
 
-	if fun, ok := t.(*ctypes.Function); !ok || fun.Name == "" {
+	if fun, ok := t.(*ctypes.Function); !ok || ast.RetrieveID(fun.Name) == "" {
 		p.addErrorMessage("badly formed external function")
 	} else {
 		fun.ExternalName = ast.RetrieveID(fun.Name)
-- 
2.43.0


From ce4a13c84e67d7763423c1e2ee120526ece203d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 100/114] fix: expect a function after pub

---
 internals/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index be4b97e..5434733 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -221,6 +221,7 @@ func (p *Parser) parseTypeDefinition(name token.Token) ast.Statement {
 
 func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
+	p.expect(token.FUNCTION)
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
 	fn.FunctionType.RedefineWithOriginalName = true
 	return fn
-- 
2.43.0


From 8845294dfa31f80d8a7760cec54debf3ff3daf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 101/114] fix: expect names in constant declarations

---
 internals/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 5434733..a27f5dc 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -540,6 +540,7 @@ func (p *Parser) parseMultipleDeclarations(isConstant bool) ast.Statement {
 	names := []string{ast.CreateIdentifier(firstLiteral.Literal, p.ID)}
 	for p.currentToken.Type == token.COMMA {
 		p.nextToken()
+		p.expect(token.IDENT)
 		names = append(names, ast.CreateIdentifier(p.nextToken().Literal, p.ID))
 	}
 	p.expect(token.COLON)
@@ -567,6 +568,8 @@ func (p *Parser) parseDeclaration() ast.Statement {
 		isConstant = true
 	}
 
+	p.expect(token.IDENT)
+
 	if p.peekToken.Type == token.COMMA {
 		return p.parseMultipleDeclarations(isConstant)
 	}
-- 
2.43.0


From f25c260929bbb393a9bc11ebf451a31c95c38322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 102/114] fix: expect the name of a struct after its module

---
 internals/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index a27f5dc..f02bb51 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -913,6 +913,7 @@ func (p *Parser) parseAt() ast.Expression {
 	if p.peekToken.Type == token.DOT {
 		module = ast.CreateIdentifier(p.nextToken().Literal, p.ID)
 		p.nextToken()
+		p.expect(token.IDENT)
 	}
 
 	if p.peekToken.Type == token.LBRACE {
-- 
2.43.0


From 254ad155f6cc9b175ab5bc96dc13752a1766aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 103/114] fix: answer every request of a language client, and
 survive a bad message

---
 cmd/autocomplete/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/autocomplete/main.go b/cmd/autocomplete/main.go
index 7e6f1a6..6217652 100644
--- a/cmd/autocomplete/main.go
+++ b/cmd/autocomplete/main.go
@@ -50,10 +50,16 @@ func main() {
 		rawJson, _ := data.MarshalJSON()
 		json.Unmarshal(rawJson, &payload)
 		log.Println(payload)
-		if err := server.New(reply, req).HandleConnection(ctx); err != server.ErrHandlerForThisMethodDoesNotExist {
-			return err
-		} else if err == server.ErrHandlerForThisMethodDoesNotExist {
+		err := server.New(reply, req).HandleConnection(ctx)
+		if err == server.ErrHandlerForThisMethodDoesNotExist {
 			log.Println("method", req.Method(), "doesn't have a handler")
+			return jsonrpc2.MethodNotFoundHandler(ctx, reply, req)
+		}
+
+		if err != nil {
+			// An error that is returned here closes the connection
+			log.Println("error handling", req.Method(), "-", err)
+			return reply(ctx, nil, err)
 		}
 
 		return nil
-- 
2.43.0


From b90644f500c5f9551711264d8da56c523fc06d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 104/114] fix: follow the last of the changes of a message

---
 internals/autocomplete/server/on_change.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internals/autocomplete/server/on_change.go b/internals/autocomplete/server/on_change.go
index 4c0d78b..adf38b8 100644
--- a/internals/autocomplete/server/on_change.go
+++ b/internals/autocomplete/server/on_change.go
@@ -21,7 +21,12 @@ func (c *Connection) onChange() error {
 		return err
 	}
 
-	txt := parameters.ContentChanges[0].Text
+	if len(parameters.ContentChanges) == 0 {
+		return nil
+	}
+
+	// Every change has the entire text, the document is the last one
+	txt := parameters.ContentChanges[len(parameters.ContentChanges)-1].Text
 	log.Println(txt)
 	log.Println("possible error writing output", tree_printer.WriteOutput(txt, os.Stderr))
 	return nil
-- 
2.43.0


From bfa40c27113ef91f43a5b74db2d0f8e2672bb0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 105/114] fix: constants use other constants, also pointers and
 the ones of other files

---
 internals/compiler/compiler.go          | 14 +++++++++++--
 internals/compiler/compiler_constant.go | 26 ++++++++++++++++++++++++-
 internals/semantic/semantic.go          |  5 +++++
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index cac5c6f..32ebe50 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -848,8 +848,17 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		isLiteral = valueCompiled.Type().Equal(types.NewPointer(t))
 	}
 
+	if decl.Constant {
+		c.declare(constantKey(decl.Name), valueCompiled)
+	}
+
 	var val value.Value
-	if !c.doNotAllocate || !(decl.Constant || isLiteral) {
+	if decl.Constant && types.IsPointer(t) && valueCompiled.Type().Equal(t) {
+		// A pointer that isn't stored would be taken as the place where the constant is
+		c.doNotAllocate = false
+		val = c.block().NewAlloca(t)
+		c.block().NewStore(valueCompiled, val)
+	} else if !c.doNotAllocate || !(decl.Constant || isLiteral) {
 		c.doNotAllocate = false
 		val = c.block().NewAlloca(t)
 		valueCompiled = c.loadIfPointer(valueCompiled)
@@ -1129,7 +1138,8 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 				return globalDefinition
 			}
 
-			if fn.Constant {
+			// A pointer that isn't stored would be taken as the place where the constant is
+			if fn.Constant && !types.IsPointer(global.Type()) {
 				return global
 			}
 
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 2920ae0..1068128 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -3,6 +3,7 @@ package compiler
 import (
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/semantic"
 
 	"github.com/gabivlj/candice/internals/ops"
 	"github.com/llir/llvm/ir/constant"
@@ -78,8 +79,12 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Constant {
 	switch expr := expr.(type) {
 	case *ast.Identifier:
-		return c.compileIdentifier(expr).(constant.Constant)
+		return c.retrieveConstant(expr)
 	case *ast.BinaryOperation:
+		if _, isModule := expr.Left.GetType().(*semantic.Semantic); isModule {
+			module := c.modules[expr.Left.(*ast.Identifier).Name]
+			return module.retrieveConstant(expr.Right.(*ast.Identifier))
+		}
 		left := c.compileConstantExpression(expr.Left)
 		right := c.compileConstantExpression(expr.Right)
 		if expr.Operation == ops.LeftShift || expr.Operation == ops.RightShift {
@@ -116,6 +121,25 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	panic(nil)
 }
 
+// constantKey is the key in the local variables of the value of a constant
+func constantKey(name string) string {
+	return name + ".constant"
+}
+
+// retrieveConstant returns the value of a constant, not the place where it's stored
+func (c *Compiler) retrieveConstant(id *ast.Identifier) constant.Constant {
+	if local := c.retrieveLocalVariable(constantKey(id.Name)); local != nil {
+		return local.(constant.Constant)
+	}
+
+	if global, ok := c.globalVariables[id.Name]; ok {
+		return global.Value.(constant.Constant)
+	}
+
+	c.exitErrorExpression("the value of this constant isn't known when compiling", id)
+	panic(nil)
+}
+
 func (c *Compiler) compileConstantPrefix(expr *ast.PrefixOperation) constant.Constant {
 	right := c.compileConstantExpression(expr.Right)
 	switch expr.Operation {
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 702ca62..9d76448 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1233,6 +1233,11 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		s.errorWithStatement("you are trying to mutate a constant, '"+binaryOp.String()+"' is a constant variable", binaryOp.Token)
 	}
 
+	isGlobalFunction := accessedElement.IsFunction && !s.analyzingInsideFunction()
+	if s.expectConstantExpression && !accessedElement.IsConstant && !isGlobalFunction {
+		s.errorWithStatement("this expression should be constant and '"+binaryOp.String()+"' is not a constant variable", binaryOp.Token)
+	}
+
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
-- 
2.43.0


From 5346ef50bb4690edeab3719c7491789dc9aa5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 106/114] fix: reject the imported files that define main

---
 internals/semantic/semantic.go       |  5 ++++-
 internals/semantic/semantic_steps.go | 26 ++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9d76448..f2c6b03 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1477,7 +1477,10 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	dir, _ := path.Split(importStatement.Path.Value)
 	// Join with the context path
 	internalSemantic.ContextDirectoryPath = path.Join(s.ContextDirectoryPath, dir)
-	internalSemantic.Analyze(tree)
+	internalSemantic.expectNoMain(tree.Statements)
+	if len(internalSemantic.Errors) == 0 {
+		internalSemantic.Analyze(tree)
+	}
 	if len(internalSemantic.Errors) > 0 {
 		s.errorWithStatement("error analyzing file imported on path "+importStatement.Path.String(), importStatement.Token)
 		s.Errors = append(s.Errors, internalSemantic.Errors...)
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index d752f20..7ed97b2 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -78,6 +78,32 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 	}
 }
 
+// expectNoMain checks that an imported file doesn't define main. Its name is the same one in every file, so it
+// would be mixed with the main function of the program.
+func (s *Semantic) expectNoMain(statements []ast.Statement) {
+	for _, statement := range statements {
+		name := ""
+		switch t := statement.(type) {
+		case *ast.FunctionDeclarationStatement:
+			name = t.FunctionType.Name
+		case *ast.DeclarationStatement:
+			name = t.Name
+		case *ast.StructStatement:
+			name = t.Type.Name
+		case *ast.UnionStatement:
+			name = t.Type.Name
+		case *ast.TypeDefinition:
+			name = t.Name
+		case *ast.MacroBlock:
+			s.expectNoMain(t.Statements)
+		}
+		if name == "main" {
+			s.currentStatementBeingAnalyzed = statement
+			s.errorWithStatement("a file that is imported can't define main", statement.GetToken())
+		}
+	}
+}
+
 func (s *Semantic) fillTypes(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
-- 
2.43.0


From 189c994eebf3cb21e1976a12c4f7639f3a16bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 107/114] fix: report a return without the value in a function
 that returns a pointer

---
 internals/semantic/semantic_errors.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_errors.go b/internals/semantic/semantic_errors.go
index c978050..53fb21e 100644
--- a/internals/semantic/semantic_errors.go
+++ b/internals/semantic/semantic_errors.go
@@ -144,7 +144,9 @@ func (semantic *Semantic) formatLine(s string) string {
 func (s *Semantic) typeMismatchError(node string, wrongPart ast.Expression, tok token.Token, expected, got ctypes.Type) {
 	var message string
 
-	s.checkDereferenceErrors(node, got, expected, wrongPart)
+	if wrongPart != nil {
+		s.checkDereferenceErrors(node, got, expected, wrongPart)
+	}
 
 	if len(s.Errors) == 0 {
 		message = fmt.Sprintf("\n\n%s \n%s mismatched types, expected %s, got %s\n", node, strings.Repeat("^", len(node)), expected.String(), got.String())
-- 
2.43.0


From 0cb2bca7251c440def89c8a5b1c86c34f4f4fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 108/114] fix: reject the void values of arrays and functions
 behind a pointer

---
 internals/semantic/semantic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f2c6b03..9032a5e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -703,12 +703,14 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 	if arr, ok := t.(*ctypes.Array); ok {
 		val := s.swapTypes(arr.Inner, toSwap)
 		arr.Inner = val
+		s.expectValue(val, s.currentStatementBeingAnalyzed.GetToken())
 		return arr
 	}
 
 	if funk, ok := t.(*ctypes.Function); ok {
 		for i, param := range funk.Parameters {
 			funk.Parameters[i] = s.swapTypes(param, toSwap)
+			s.expectValue(funk.Parameters[i], s.currentStatementBeingAnalyzed.GetToken())
 		}
 		if funk.Return != nil {
 			funk.Return = s.swapTypes(funk.Return, toSwap)
-- 
2.43.0


From fed1fa74012689a7f27b7343983c5dc59642e7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 109/114] fix: the values and the arguments of variadic
 functions

---
 internals/compiler/compiler.go       | 7 ++++++-
 internals/compiler/compiler_types.go | 5 +++--
 internals/semantic/semantic.go       | 6 ++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 32ebe50..f660f23 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1175,9 +1175,14 @@ func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	left := c.compileExpression(ast.Left)
 	funk := c.loadIfPointer(left)
 	arguments := make([]value.Value, 0, len(ast.Parameters))
-	for _, argument := range ast.Parameters {
+	signature := funk.Type().(*types.PointerType).ElemType.(*types.FuncType)
+	for i, argument := range ast.Parameters {
 		compiledValue := c.compileExpression(argument)
 		loadedValue := c.loadIfPointer(compiledValue)
+		// C passes the floats of a variadic function as doubles
+		if i >= len(signature.Params) && loadedValue.Type().Equal(types.Float) {
+			loadedValue = c.block().NewFPExt(loadedValue, types.Double)
+		}
 		if attributes := c.abiParameterAttributes(argument.GetType(), loadedValue.Type()); len(attributes) > 0 {
 			loadedValue = ir.NewArg(loadedValue, attributes...)
 		}
diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 6270ea8..9aef4b1 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -184,8 +184,9 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 			for _, param := range el.Parameters {
 				parameters = append(parameters, c.ToLLVMType(param))
 			}
-			function := types.NewPointer(types.NewFunc(returnType, parameters...))
-			return function
+			function := types.NewFunc(returnType, parameters...)
+			function.Variadic = el.InfiniteParameters
+			return types.NewPointer(function)
 		}
 	}
 
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9032a5e..a41af45 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -786,7 +786,7 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) || firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
@@ -1039,7 +1039,8 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		call.Left = s.method
 	}
 
-	if len(call.Parameters) != len(funcType.Parameters) && !funcType.InfiniteParameters {
+	isMissingParameters := len(call.Parameters) < len(funcType.Parameters)
+	if isMissingParameters || len(call.Parameters) != len(funcType.Parameters) && !funcType.InfiniteParameters {
 
 		s.errorWithStatement(fmt.Sprintf("mismatch number of parameters, expected %d, got %d", len(funcType.Parameters), len(call.Parameters)), call.Token)
 	}
@@ -1052,6 +1053,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		paramType := s.analyzeExpression(param)
 
 		if i >= len(funcType.Parameters) {
+			s.expectValue(paramType, call.Token)
 			continue
 		}
 
-- 
2.43.0


From fa49762bde4a051acdec37fd931bf882199d1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 110/114] fix: functions of C that are declared with different
 types

---
 internals/compiler/compiler.go       |  13 +++-
 internals/compiler/compiler_utils.go | 110 ++++++++++-----------------
 2 files changed, 52 insertions(+), 71 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index f660f23..86f0658 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -486,14 +486,19 @@ func (c *Compiler) compileTypeDefinition(t *ast.TypeDefinition) {
 func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 	funcType := externFunc.Type.(*ctypes.Function)
 
+	// The function is defined in this same file
+	if f, ok := c.globalVariables[funcType.Name]; ok && f.Type.(*ctypes.Function).RedefineWithOriginalName {
+		return
+	}
+
 	// Check if the variable has been defined anywhere in LLVM
 	if f, ok := c.globalVariables[funcType.ExternalName]; ok {
-		c.globalVariables[funcType.Name] = f
+		c.globalVariables[funcType.Name] = &Value{Value: withSignature(f.Value, c.externSignature(funcType)), Type: funcType}
 		return
 	}
 
 	if f, ok := c.globalBuiltinDefinitions[funcType.ExternalName]; ok {
-		funk := &Value{Value: f, Type: funcType}
+		funk := &Value{Value: withSignature(f, c.externSignature(funcType)), Type: funcType}
 		c.globalVariables[funcType.Name] = funk
 		return
 	}
@@ -525,6 +530,10 @@ func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 	c.globalBuiltinDefinitions[funcType.ExternalName] = funk.Value
 }
 
+func (c *Compiler) externSignature(funcType *ctypes.Function) *types.FuncType {
+	return c.ToLLVMType(funcType).(*types.PointerType).ElemType.(*types.FuncType)
+}
+
 func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	if ret.Expression == nil {
 		c.compileVoidReturn()
diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index 6cd86e0..250ea0f 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -36,90 +36,62 @@ func (c *Compiler) createString(s string) value.Value {
 	return i8sType
 }
 
-func (c *Compiler) memcpy() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["memcpy"]; ok {
-		return fn.(*ir.Func)
+// externFunction returns the function of C that is called name. There is only one in the program, if another
+// declaration gave it another type it's seen with the type of the signature.
+func (c *Compiler) externFunction(name string, signature *types.FuncType) value.Value {
+	if fn, ok := c.globalBuiltinDefinitions[name]; ok {
+		return withSignature(fn, signature)
 	}
 
-	memcpy := c.m.NewFunc("memcpy", types.Void, ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I64))
-	c.globalBuiltinDefinitions["memcpy"] = memcpy
-	memcpy.CallingConv = enum.CallingConvC
-	return memcpy
+	params := make([]*ir.Param, 0, len(signature.Params))
+	for _, parameter := range signature.Params {
+		params = append(params, ir.NewParam("", parameter))
+	}
+	fn := c.m.NewFunc(name, signature.RetType, params...)
+	fn.Sig.Variadic = signature.Variadic
+	fn.CallingConv = enum.CallingConvC
+	c.globalBuiltinDefinitions[name] = fn
+	return fn
 }
 
-func (c *Compiler) strlen() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["strlen"]; ok {
-		return fn.(*ir.Func)
+func withSignature(fn value.Value, signature *types.FuncType) value.Value {
+	pointer := types.NewPointer(signature)
+	if fn.Type().Equal(pointer) {
+		return fn
 	}
-	strlen := c.m.NewFunc("strlen", types.I64, ir.NewParam("", types.I8Ptr))
-	c.globalBuiltinDefinitions["strlen"] = strlen
-	strlen.CallingConv = enum.CallingConvC
-	return strlen
+	return constant.NewBitCast(fn.(constant.Constant), pointer)
 }
 
-func (c *Compiler) malloc() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["malloc"]; ok {
-		return fn.(*ir.Func)
-	}
-	malloc := c.m.NewFunc(
-		"malloc",
-		types.NewPointer(types.I8),
-		ir.NewParam("", types.I64),
-	)
-	c.globalBuiltinDefinitions["malloc"] = malloc
-	malloc.CallingConv = enum.CallingConvC
-	return malloc
+func (c *Compiler) memcpy() value.Value {
+	return c.externFunction("memcpy", types.NewFunc(types.Void, types.I8Ptr, types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) printf() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["printf"]; ok {
-		return fn.(*ir.Func)
-	}
-	printf := c.m.NewFunc(
-		"printf",
-		types.I32,
-		ir.NewParam("", types.NewPointer(types.I8)),
-	)
-	c.globalBuiltinDefinitions["printf"] = printf
-	printf.Sig.Variadic = true
-	printf.CallingConv = enum.CallingConvC
-	return printf
+func (c *Compiler) strlen() value.Value {
+	return c.externFunction("strlen", types.NewFunc(types.I64, types.I8Ptr))
 }
 
-func (c *Compiler) realloc() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["realloc"]; ok {
-		return fn.(*ir.Func)
-	}
-	realloc := c.m.NewFunc("realloc", types.I8Ptr, ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I64))
-	c.globalBuiltinDefinitions["realloc"] = realloc
-	realloc.Sig.Variadic = true
-	realloc.CallingConv = enum.CallingConvC
-	return realloc
+func (c *Compiler) malloc() value.Value {
+	return c.externFunction("malloc", types.NewFunc(types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) free() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["free"]; ok {
-		return fn.(*ir.Func)
-	}
-	free := c.m.NewFunc("free", types.Void, ir.NewParam("", types.I8Ptr))
-	c.globalBuiltinDefinitions["free"] = free
-	free.CallingConv = enum.CallingConvC
-	return free
+func (c *Compiler) printf() value.Value {
+	signature := types.NewFunc(types.I32, types.I8Ptr)
+	signature.Variadic = true
+	return c.externFunction("printf", signature)
 }
 
-func (c *Compiler) strcmp() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["strcmp"]; ok {
-		return fn.(*ir.Func)
-	}
-	strcmp := c.m.NewFunc(
-		"strcmp",
-		types.I32,
-		ir.NewParam("", types.I8Ptr),
-		ir.NewParam("", types.I8Ptr),
-	)
-	c.globalBuiltinDefinitions["strcmp"] = strcmp
-	strcmp.CallingConv = enum.CallingConvC
-	return strcmp
+func (c *Compiler) realloc() value.Value {
+	signature := types.NewFunc(types.I8Ptr, types.I8Ptr, types.I64)
+	signature.Variadic = true
+	return c.externFunction("realloc", signature)
+}
+
+func (c *Compiler) free() value.Value {
+	return c.externFunction("free", types.NewFunc(types.Void, types.I8Ptr))
+}
+
+func (c *Compiler) strcmp() value.Value {
+	return c.externFunction("strcmp", types.NewFunc(types.I32, types.I8Ptr, types.I8Ptr))
 }
 
 // use this for concatenating strings
-- 
2.43.0


From 70e9782948f4052a05dee91d3daccbbb71a1784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 111/114] fix: extern functions that are declared after their
 uses, or with the name of something else

---
 internals/compiler/compiler.go       |  2 +-
 internals/compiler/compiler_steps.go | 19 ++++++++++++++++++-
 internals/semantic/semantic.go       |  8 +++++---
 internals/semantic/semantic_steps.go | 19 +++++++++++++++++--
 4 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 86f0658..3965e99 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -466,7 +466,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.ExternStatement:
 		{
-			c.compileExternFunc(t)
+			// It's compiled with the types of the functions
 			return
 		}
 
diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index 14b5283..b075795 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -24,13 +24,30 @@ func (c *Compiler) compileStructTypes(statements []ast.Statement) {
 // compileFunctionTypes makes a compile pass that defines function types without
 // compiling their body
 func (c *Compiler) compileFunctionTypes(statements []ast.Statement) {
+	c.compileDefinedFunctionTypes(statements)
+	c.compileExternFunctions(statements)
+}
+
+func (c *Compiler) compileDefinedFunctionTypes(statements []ast.Statement) {
 	for _, statement := range statements {
 		switch t := statement.(type) {
 		case *ast.FunctionDeclarationStatement:
 			c.compileFunctionType(t.FunctionType.Name, t)
 
 		case *ast.MacroBlock:
-			c.compileFunctionTypes(t.Statements)
+			c.compileDefinedFunctionTypes(t.Statements)
+		}
+	}
+}
+
+func (c *Compiler) compileExternFunctions(statements []ast.Statement) {
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.ExternStatement:
+			c.compileExternFunc(t)
+
+		case *ast.MacroBlock:
+			c.compileExternFunctions(t.Statements)
 		}
 	}
 }
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index a41af45..1fec47e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -26,7 +26,8 @@ type Semantic struct {
 	variables *undomap.UndoMap[string, *SemanticType]
 
 	definedTypes                          map[string]ctypes.Type
-	definedFunctions                      map[string]bool
+	definedFunctions                      map[string]*ctypes.Function
+	externFunctions                       map[string]*ctypes.Function
 	builtinHandlers                       map[string]func(builtin *ast.BuiltinCall) ctypes.Type
 	currentStatementBeingAnalyzed         ast.Statement
 	currentFunctionBeingAnalyzed          *ctypes.Function
@@ -97,7 +98,8 @@ func New() *Semantic {
 	s := &Semantic{
 		variables:                 undomap.New[string, *SemanticType](),
 		definedTypes:              map[string]ctypes.Type{},
-		definedFunctions:          map[string]bool{},
+		definedFunctions:          map[string]*ctypes.Function{},
+		externFunctions:           map[string]*ctypes.Function{},
 		builtinHandlers:           map[string]func(builtin *ast.BuiltinCall) ctypes.Type{},
 		Errors:                    []error{},
 		Warnings:                  []error{},
@@ -585,7 +587,7 @@ func (s *Semantic) analyzeBuiltinCall(call *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationStatement) {
 	// The value of a global variable should be known before running the program
 	s.expectConstantExpression = declaration.Constant || !s.analyzingInsideFunction()
-	if !s.analyzingInsideFunction() && s.definedFunctions[declaration.Name] {
+	if !s.analyzingInsideFunction() && (s.definedFunctions[declaration.Name] != nil || s.externFunctions[declaration.Name] != nil) {
 		s.errorWithStatement("there is a function that is called "+ast.RetrieveID(declaration.Name), declaration.Token)
 	}
 
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 7ed97b2..0beea1c 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -46,6 +46,18 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	}
 }
 
+// expectSameFunction checks that a function that is declared as extern, and also defined in the same file, is a
+// public function of that type. Only those can be called from outside as they are in the source.
+func (s *Semantic) expectSameFunction(name string, statement ast.Statement) {
+	defined, extern := s.definedFunctions[name], s.externFunctions[name]
+	if defined == nil || extern == nil {
+		return
+	}
+	if !defined.RedefineWithOriginalName || !s.areTypesEqual(defined, extern) {
+		s.errorWithStatement("the function "+ast.RetrieveID(name)+" is also declared as an extern function", statement.GetToken())
+	}
+}
+
 func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
@@ -55,10 +67,11 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-				if s.definedFunctions[t.FunctionType.Name] {
+				if s.definedFunctions[t.FunctionType.Name] != nil {
 					s.errorWithStatement("the function "+ast.RetrieveID(t.FunctionType.Name)+" is defined more than once", t.Token)
 				}
-				s.definedFunctions[t.FunctionType.Name] = true
+				s.definedFunctions[t.FunctionType.Name] = t.FunctionType
+				s.expectSameFunction(t.FunctionType.Name, t)
 				s.expectDistinctNames(t, t.FunctionType.Names)
 				s.variables.Add(t.FunctionType.Name, s.newFunctionType(t.FunctionType))
 			}
@@ -67,6 +80,8 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 			{
 				if funk, isFunction := t.Type.(*ctypes.Function); isFunction {
 					s.replaceAnonymousExternTypes(funk)
+					s.externFunctions[funk.Name] = funk
+					s.expectSameFunction(funk.Name, t)
 				}
 			}
 
-- 
2.43.0


From c03c8b642e916cf29a6de0541fbedfbf6ae86b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 112/114] fix: check the declared type of a multiple
 declaration

---
 internals/semantic/semantic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1fec47e..228fa43 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1659,6 +1659,16 @@ func (s *Semantic) analyzeMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 		typeList.Types[i] = s.UnwrapAnonymous(typeList.Types[i])
 	}
 
+	if m.Type != ctypes.TODO() {
+		// The declared type is the one of all the variables
+		m.Type = s.replaceAnonymous(m.Type)
+		for _, t := range typeList.Types {
+			if !s.areTypesEqual(m.Type, t) {
+				s.typeMismatchError(m.String(), m.Expression, m.Token, m.Type, t)
+			}
+		}
+	}
+
 	for i, name := range m.Names {
 		declaredType := s.newType(typeList.Types[i])
 		declaredType.IsConstant = m.Constant
-- 
2.43.0


From 5a6f75d9f196ef88694d74a2e672687af05e6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 113/114] fix: draw the children of a for loop at the column of
 their labels

---
 internals/tree_printer/printer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 8857c89..ed4df16 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -94,15 +94,15 @@ func Process(statement ast.Statement) string {
 		{
 			var strings []string
 			if t.InitializerStatement != nil {
-				strings = append(strings, "initializer: "+Process(t.InitializerStatement))
+				strings = append(strings, withLabel("initializer: ", Process(t.InitializerStatement)))
 			}
 
 			if t.Condition != nil {
-				strings = append(strings, "condition: "+processExpression(t.Condition))
+				strings = append(strings, withLabel("condition: ", processExpression(t.Condition)))
 			}
 
 			if t.Operation != nil {
-				strings = append(strings, "operation: "+Process(t.Operation))
+				strings = append(strings, withLabel("operation: ", Process(t.Operation)))
 			}
 
 			strings = append(strings, Process(t.Block))
@@ -356,6 +356,11 @@ func processExpression(expression ast.Expression) string {
 	return ""
 }
 
+// withLabel puts a label before a tree, the rest of its lines stay below the first one
+func withLabel(label, tree string) string {
+	return label + strings.ReplaceAll(tree, "\n", "\n"+strings.Repeat(" ", len(label)))
+}
+
 func getLine(pos int, len int, multipleBelow bool) string {
 	if pos == 0 {
 		if multipleBelow {
-- 
2.43.0


From a7c6bac6f417f2c21e2371402b1aec8a2d505e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:09 +0000
Subject: [PATCH 114/114] fix: print what is called whole

---
 internals/ast/expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/ast/expressions.go b/internals/ast/expressions.go
index dc1bd62..d2bf32c 100644
--- a/internals/ast/expressions.go
+++ b/internals/ast/expressions.go
@@ -162,7 +162,7 @@ func (c *Call) GetToken() token.Token {
 
 func (c *Call) String() string {
 	builder := strings.Builder{}
-	builder.WriteString(RetrieveID(c.Left.String()))
+	builder.WriteString(c.Left.String())
 	builder.WriteString("(")
 	for i, param := range c.Parameters {
 		if i >= 1 {
-- 
2.43.0

