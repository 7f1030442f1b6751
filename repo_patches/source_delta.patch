From 918fbdc03fdea400f026c4857626fa2e03da10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 01/46] fix: search enclosing loop scopes outwards when
 resolving a variable

---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index b3fb9e7..64ce1ab 100644
--- a/transform.go
+++ b/transform.go
@@ -155,7 +155,7 @@ func (t *Transformer) getContext(varID VariableID) *compileContext {
 		return nil
 	}
 
-	for i := len(t.ContextStack) - 1; i >= 0; i++ {
+	for i := len(t.ContextStack) - 1; i >= 0; i-- {
 		if t.ContextStack[i].Var == varID {
 			return t.ContextStack[i]
 		}
-- 
2.43.0


From d684b803fb1f7b4e3ec88abeda1a7f934aedcbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 02/46] fix: compile comparisons of a field with a prefix of
 its own path

---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index 64ce1ab..1f1037b 100644
--- a/transform.go
+++ b/transform.go
@@ -205,7 +205,7 @@ PathLoop:
 	for j := 0; j < len(basePath); j++ {
 		for i := 0; i < len(contextFields); i++ {
 			deepField := contextFields[i]
-			if len(deepField.Path) < j || deepField.Path[j] != basePath[j] {
+			if len(deepField.Path) <= j || deepField.Path[j] != basePath[j] {
 				break PathLoop
 			}
 		}
-- 
2.43.0


From d9828b0f4a97940cc51b15f178fe2e69f03f766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 03/46] fix: accept NOTEXISTS, TRUE and FALSE inside a loop
 body

---
 expression_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression_utils.go b/expression_utils.go
index 2a911c6..ccb7956 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -43,6 +43,8 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		}
 
 		fields = append(fields, expr)
+	case TrueExpr:
+	case FalseExpr:
 	case ValueExpr:
 	case RegexExpr:
 	case PcreExpr:
@@ -96,6 +98,8 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
 	case ExistsExpr:
 		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
+	case NotExistsExpr:
+		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
 	case LikeExpr:
 		fields = fetchExprFieldRefsRecurse(expr.Lhs, loopVars, fields)
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
-- 
2.43.0


From bd0e8eeac2c81fa5f4dd536aade6793c35380c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 04/46] fix: treat slots that were never stored as missing
 fields

---
 fastMatcher.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 6ab677f..c95449a 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -94,21 +94,24 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	value := NewMissingFastVal()
 
+	slotInfo := m.slots[slot-1]
+	if slotInfo.size == 0 {
+		// Nothing was stored for this slot, the field does not exist
+		return value
+	}
+
 	savePos := m.tokens.Position()
 
-	slotInfo := m.slots[slot-1]
 	m.tokens.Seek(slotInfo.start)
 	token, tokenData, _, _ := m.tokens.Step()
 
 	if isLiteralToken(token) {
 		var parser fastLitParser
 		value = parser.Parse(token, tokenData)
-	} else if slotInfo.size > 0 {
-		if token == tknObjectStart {
-			value = NewObjectFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
-		} else if token == tknArrayStart {
-			value = NewArrayFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
-		}
+	} else if token == tknObjectStart {
+		value = NewObjectFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
+	} else if token == tknArrayStart {
+		value = NewArrayFastVal(m.tokens.data[slotInfo.start : slotInfo.start+slotInfo.size])
 	}
 
 	m.tokens.Seek(savePos)
@@ -526,6 +529,10 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 	for _, loop := range node.Loops {
 		if slot, ok := loop.Target.(SlotRef); ok {
 			slotInfo := m.slots[slot.Slot-1]
+			if slotInfo.size == 0 {
+				// There is nothing to loop over
+				continue
+			}
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
-- 
2.43.0


From 1659e9d9a32e1411fc1859decb25f04f901d3bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 05/46] fix: evaluate operations on empty objects and arrays

---
 fastMatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index c95449a..88165ba 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -754,7 +754,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 
 		// Keep this here to catch any empty array or empty objs
 		if token == endToken {
-			return nil, true
+			return nil, false
 		}
 
 		// TODO(brett19): These byte-string conversion pieces are a bit wierd
-- 
2.43.0


From 12e41f504cbe7fd118bb88a7770e18c3cb4e7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 06/46] fix: evaluate indexed elements of an array that is also
 looped over

---
 fastMatcher.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 88165ba..16612e3 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -633,12 +633,7 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		}
 	} else if token == tknArrayStart {
 		arrayStartPos := m.tokens.Position() - 1 // Should be -1 to include the [
-		if len(node.Loops) == 0 {
-			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
-			if shouldReturn {
-				return err
-			}
-		} else {
+		if len(node.Loops) > 0 {
 			// Lets save where the beginning of the array is so that for each
 			// loop entry, we can easily revert back to the beginning of the
 			// array to process the elements.
@@ -669,6 +664,16 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 				}
 			}
 
+			if len(node.Elems) > 0 {
+				// The elements still need their own pass over the array
+				m.tokens.Seek(savePos)
+			}
+		}
+		if len(node.Loops) == 0 || len(node.Elems) > 0 {
+			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
+			if shouldReturn {
+				return err
+			}
 		}
 		arrayEndPos := m.tokens.Position()
 
-- 
2.43.0


From 161b437ca0c805619ac8f4500cd6f481f01fc217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 07/46] fix: store a value before running the operations that
 follow it

---
 fastMatcher.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 16612e3..0c1acc9 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -605,10 +605,6 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			m.skipValue(token)
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
-			if err == nil && node.After != nil {
-				m.matchAfter(node.After)
-			}
-
 			if shouldReturn {
 				return err
 			}
@@ -692,14 +688,6 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
 	}
 
-	if node.After != nil {
-		m.matchAfter(node.After)
-
-		if m.buckets.IsResolved(0) {
-			return nil
-		}
-	}
-
 	endPos = m.tokens.Position()
 
 	if node.StoreId > 0 {
@@ -708,6 +696,14 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		slotData.size = endPos - startPos
 	}
 
+	if node.After != nil {
+		m.matchAfter(node.After)
+
+		if m.buckets.IsResolved(0) {
+			return nil
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From bba2d2a5f88dedb6e8da5e6821d3b2dbe4e15902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 08/46] fix: do not carry field values over from one loop
 iteration to the next

---
 fastMatcher.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 0c1acc9..afc174d 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -36,6 +36,24 @@ func (m *FastMatcher) Reset() {
 	m.buckets.Reset()
 }
 
+// resetSlots forgets all values stored while executing this node
+func (m *FastMatcher) resetSlots(node *ExecNode) {
+	if node.StoreId > 0 {
+		m.slots[node.StoreId-1] = emptySlotData
+	}
+	for _, elem := range node.Elems {
+		m.resetSlots(elem)
+	}
+	for _, loop := range node.Loops {
+		m.resetSlots(loop.Node)
+	}
+	if node.After != nil {
+		for _, loop := range node.After.Loops {
+			m.resetSlots(loop.Node)
+		}
+	}
+}
+
 func (m *FastMatcher) leaveValue() error {
 	depth := 0
 
@@ -454,6 +472,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 		// Reset the looping node in the binary tree so that previous iterations
 		// of the loop do not impact the results of this iteration
 		m.buckets.ResetNode(loopBucketIdx)
+		m.resetSlots(loop.Node)
 
 		// Run the execution node for this element of the array.
 		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)
-- 
2.43.0


From 578ac1ee8d3de6b69afb636f5eecdd82dca7aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 09/46] fix: a loop over something that is not an array is
 false whatever its body

---
 bintree.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/bintree.go b/bintree.go
index eee2bcd..98a6a1b 100644
--- a/bintree.go
+++ b/bintree.go
@@ -253,24 +253,32 @@ func (state *binTreeState) SetStallIndex(index int) int {
 // Resolve forces the tree to be fully resolved (including cases such as NOT)
 // by doing a depth-first resolution of all unresolved nodes with `false`.
 func (state *binTreeState) Resolve() {
-	// Skip resolving if the full tree is already resolved
-	if state.IsResolved(0) {
+	state.ResolveNode(0)
+}
+
+// ResolveNode forces the node and everything below it to be fully resolved,
+// in the same way as Resolve does for the entire tree.
+func (state *binTreeState) ResolveNode(index int) {
+	if state.IsResolved(index) {
 		return
 	}
 
-	// Do depth-first resolution of the entire tree state
-	treeLength := len(state.data)
-	for i := treeLength - 1; i >= 0; i-- {
-		// If this bucket is not resolved, resolve it with false
-		if state.data[i] == binTreeStateUnknown {
-			state.MarkNode(i, false)
+	// The body of a loop only has a meaning within its iterations, a loop
+	// that was not run is false no matter what its body looks like.
+	defNode := state.tree.data[index]
+	if defNode.NodeType != nodeTypeLoop {
+		if binTreeNodeTypeHasRight(defNode.NodeType) {
+			state.ResolveNode(defNode.Right)
 		}
-
-		// Leave as soon as the root has been resolved
-		if state.data[0] != binTreeStateUnknown {
-			break
+		if binTreeNodeTypeHasLeft(defNode.NodeType) {
+			state.ResolveNode(defNode.Left)
 		}
 	}
+
+	// If this bucket was not resolved by its children, resolve it with false
+	if !state.IsResolved(index) {
+		state.MarkNode(index, false)
+	}
 }
 
 func (state *binTreeState) Reset() {
-- 
2.43.0


From 55acf7617d4884d78f1da1e6d5a96945674ad03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 10/46] fix: resolve undecided expressions at the end of each
 loop iteration

---
 fastMatcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index afc174d..f699ddc 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -480,6 +480,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 			return err
 		}
 
+		// Resolve what this element left undecided, such as a NOT on a field
+		// that does not exist.
+		m.buckets.ResolveNode(loopBucketIdx)
+
 		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
 		if loop.Mode == LoopTypeAny {
 			if iterationMatched {
-- 
2.43.0


From 00bed830fa002094b213d0a39e013765451f5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 11/46] fix: evaluate TRUE and FALSE inside of larger
 expressions

---
 transform.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transform.go b/transform.go
index 1f1037b..080f631 100644
--- a/transform.go
+++ b/transform.go
@@ -514,6 +514,10 @@ func (t *Transformer) transformComparison(expr Expression, op OpType, lhs, rhs E
 	return nil
 }
 
+func (t *Transformer) transformConstant(expr Expression, value bool) *ExecNode {
+	return t.transformComparison(expr, OpTypeEquals, ValueExpr{value}, ValueExpr{true})
+}
+
 func (t *Transformer) transformEquals(expr EqualsExpr) *ExecNode {
 	return t.transformComparison(expr, OpTypeEquals, expr.Lhs, expr.Rhs)
 }
@@ -546,6 +550,10 @@ func (t *Transformer) transformOne(expr Expression) *ExecNode {
 	switch expr := expr.(type) {
 	case mergeExpr:
 		return t.transformMerge(expr)
+	case TrueExpr:
+		return t.transformConstant(expr, true)
+	case FalseExpr:
+		return t.transformConstant(expr, false)
 	case AnyInExpr:
 		return t.transformAnyIn(expr)
 	case EveryInExpr:
-- 
2.43.0


From 5f98f0a172d8cd2f957875e44de0b7787c92a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 12/46] fix: match definitions that contain constant
 expressions

---
 fastMatcher.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index f699ddc..b98b3e3 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -846,6 +846,11 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 		return false, nil
 	}
 
+	if m.def.ParseNode == nil {
+		// Only constant expressions, there is nothing to look for in the data
+		return m.constantMatched(), nil
+	}
+
 	token, tokenData, tokenDataLen, err := m.tokens.Step()
 	if err != nil {
 		return false, err
@@ -860,7 +865,17 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 	// operators such as NOT and NEOR to correctly be resolved.
 	m.buckets.Resolve()
 
-	return m.buckets.IsTrue(0), nil
+	return m.buckets.IsTrue(0) || m.constantMatched(), nil
+}
+
+// constantMatched tells whether one of the expressions is always true
+func (m *FastMatcher) constantMatched() bool {
+	for _, bucketIdx := range m.def.MatchBuckets {
+		if bucketIdx == AlwaysTrueIdent {
+			return true
+		}
+	}
+	return false
 }
 
 func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
@@ -874,6 +889,11 @@ func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
 
 func (m *FastMatcher) ExpressionMatched(expressionIdx int) bool {
 	binTreeIdx := m.def.MatchBuckets[expressionIdx]
+	if binTreeIdx == AlwaysTrueIdent {
+		return true
+	} else if binTreeIdx == AlwaysFalseIdent {
+		return false
+	}
 	return m.buckets.IsResolved(binTreeIdx) &&
 		m.buckets.IsTrue(binTreeIdx)
 }
-- 
2.43.0


From a4da438295d2067d4e2d0872e18930c32caf1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 13/46] fix: clear the collate status when a matcher is reset

---
 fastMatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index b98b3e3..4b9fb0a 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -34,6 +34,7 @@ func (m *FastMatcher) Reset() {
 		m.slots[i] = emptySlotData
 	}
 	m.buckets.Reset()
+	m.collateUsed = false
 }
 
 // resetSlots forgets all values stored while executing this node
-- 
2.43.0


From b7846f4995975e0ecdf31607b35e7121b66a4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 14/46] fix: report malformed documents as errors instead of
 panicking

---
 fastMatcher.go | 90 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 31 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 4b9fb0a..dde23f1 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -13,6 +13,13 @@ type slotData struct {
 
 var emptySlotData slotData
 
+func unexpectedTokenError(token tokenType) error {
+	if token == tknEnd {
+		return ErrUnexpectedEOF
+	}
+	return fmt.Errorf("unexpected %s in the JSON document", tokenToText(token))
+}
+
 type FastMatcher struct {
 	def         MatchDef
 	slots       []slotData
@@ -81,7 +88,7 @@ func (m *FastMatcher) leaveValue() error {
 			}
 			depth--
 		case tknEnd:
-			panic("unexpected EOF")
+			return unexpectedTokenError(token)
 		}
 	}
 }
@@ -107,7 +114,7 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 	case tknArrayStart:
 		return m.leaveValue()
 	}
-	panic(fmt.Sprintf("unexpected value: %v", token))
+	return unexpectedTokenError(token)
 }
 
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
@@ -355,7 +362,7 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 				return nil
 			}
 			if token != tknListDelim {
-				panic("expected object field element delimiter")
+				return unexpectedTokenError(token)
 			}
 		}
 
@@ -373,7 +380,7 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 		} else if token == tknEscString {
 			keyBytes = keyLitParse.ParseEscString(tokenData)
 		} else {
-			panic("expected literal")
+			return unexpectedTokenError(token)
 		}
 
 		token, _, _, err = m.tokens.Step()
@@ -381,7 +388,7 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 			return err
 		}
 		if token != tknObjectKeyDelim {
-			panic("expected object key delimiter")
+			return unexpectedTokenError(token)
 		}
 
 		token, tokenData, tokenDataLen, err := m.tokens.Step()
@@ -392,7 +399,10 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 		if keyElem, ok := elems[string(keyBytes)]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err = m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -402,7 +412,10 @@ func (m *FastMatcher) matchElems(token tokenType, tokenData []byte, elems map[st
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err = m.skipValue(token)
+			if err != nil {
+				return err
+			}
 		}
 	}
 }
@@ -422,8 +435,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 	if m.buckets.IsResolved(loopBucketIdx) {
 		// If the bucket for this op is already resolved  in the binary tree,
 		// we don't need to perform the op and can just skip it.
-		m.skipValue(token)
-		return nil
+		return m.skipValue(token)
 	}
 
 	// We need to keep track of the overall loop result value while the bin tree
@@ -458,7 +470,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				break
 			}
 			if token != tknListDelim {
-				panic(fmt.Sprintf("expected array element delimiter got %s", tokenToText(token)))
+				return unexpectedTokenError(token)
 			}
 		}
 
@@ -493,7 +505,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = true
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeEvery {
@@ -503,7 +518,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeAnyEvery {
@@ -513,7 +531,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				err = m.leaveValue()
+				if err != nil {
+					return err
+				}
 				break
 			} else {
 				// If we encounter a truthy value, we have satisfied the 'any'
@@ -560,6 +581,9 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
+			if err != nil {
+				return err
+			}
 
 			// run the loop matcher
 			err = m.matchLoop(token, tokenData, &loop)
@@ -626,7 +650,10 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		objStartPos := m.tokens.Position() - 1 /* to include the objStart itself*/
 		if len(node.Elems) == 0 {
 			// If we have no element handlers, we can just skip the whole thing...
-			m.skipValue(token)
+			err := m.skipValue(token)
+			if err != nil {
+				return err
+			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if shouldReturn {
@@ -709,7 +736,7 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		}
 	} else {
-		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
+		return unexpectedTokenError(token)
 	}
 
 	endPos = m.tokens.Position()
@@ -721,7 +748,10 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 	}
 
 	if node.After != nil {
-		m.matchAfter(node.After)
+		err := m.matchAfter(node.After)
+		if err != nil {
+			return err
+		}
 
 		if m.buckets.IsResolved(0) {
 			return nil
@@ -758,17 +788,13 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			switch token {
-			case tknObjectEnd:
-				return nil, false
-			case tknArrayEnd:
+			case endToken:
 				return nil, false
-			case tknEnd:
-				return nil, true
 			case tknListDelim:
 				arrayIndex++
 			// nothing
 			default:
-				panic(fmt.Sprintf("expected object field element delimiter, received: %v", token))
+				return unexpectedTokenError(token), true
 			}
 		}
 
@@ -790,14 +816,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			keyBytes = keyLitParse.ParseStringWLen(tokenData, tokenDataLen)
 		case tknEscString:
 			keyBytes = keyLitParse.ParseEscStringWLen(tokenData, tokenDataLen)
-		case tknArrayStart:
-			// Do nothing
-		case tknObjectStart:
-			// Do nothing
 		default:
-			// If it's an array, it's possible that we're grabbing a literal like int or float, and we should not panic
+			// If it's an array, it's possible that we're grabbing a value like int or float, and we should not fail
 			if !arrayMode {
-				panic(fmt.Sprintf("expected literal, received: %v", token))
+				return unexpectedTokenError(token), true
 			}
 		}
 
@@ -811,7 +833,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			if token != tknObjectKeyDelim {
-				panic(fmt.Sprintf("expected object key delimiter: got %v, %v", token, string(tokenData)))
+				return unexpectedTokenError(token), true
 			}
 
 			token, tokenData, tokenDataLen, err = m.tokens.Step()
@@ -824,7 +846,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		if keyElem, ok := node.Elems[keyString]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err = m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err, true
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -834,7 +859,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err = m.skipValue(token)
+			if err != nil {
+				return err, true
+			}
 		}
 	}
 	return nil, false
-- 
2.43.0


From 4f437900e2760b768d254bb43c98bdce1809f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 15/46] fix: do not share a conversion buffer between
 comparisons

---
 fastval.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/fastval.go b/fastval.go
index 9734acb..ca0b9e3 100644
--- a/fastval.go
+++ b/fastval.go
@@ -87,8 +87,6 @@ var FalseValueBytes = []byte(FalseString)
 var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
 var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
 
-var toJsonStringBuffer []byte
-
 type FastVal struct {
 	dataType    ValueType
 	data        interface{}
@@ -423,26 +421,18 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	return val, errors.New("invalid type coercion")
 }
 
-// The following reuse an internal buffer so this should be hidden from outside callers
-// Internally, this must be called only once per comparison, and should be used for implicit comversion
-// (i.e. no double implicit conversion to string from the following 3 types)
+// This should be used for implicit conversion to a string
 func (val FastVal) toJsonStringInternal() (FastVal, error) {
 	val, err := val.ToJsonString()
 
 	if err != nil {
 		switch val.dataType {
 		case UintValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendUint(toJsonStringBuffer, val.GetUint(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendUint(nil, val.GetUint(), 10)), nil
 		case IntValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendInt(toJsonStringBuffer, val.GetInt(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendInt(nil, val.GetInt(), 10)), nil
 		case FloatValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendFloat(toJsonStringBuffer, val.GetFloat(), 'E', -1, 64)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendFloat(nil, val.GetFloat(), 'E', -1, 64)), nil
 		}
 	}
 
-- 
2.43.0


From 6b296740ba00fb3db14e5da077848d78e568bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 16/46] fix: compare signed and unsigned integers by value

An unsigned value above MaxInt64 was compared as a negative number, and a
signed zero was not accepted as an unsigned value.
---
 fastval.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/fastval.go b/fastval.go
index ca0b9e3..0ef1196 100644
--- a/fastval.go
+++ b/fastval.go
@@ -253,7 +253,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 	switch val.dataType {
 	case IntValue:
 		intVal := val.GetInt()
-		if intVal > 0 {
+		if intVal >= 0 {
 			return uint64(intVal), true
 		} else {
 			return 0, false
@@ -264,7 +264,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 		return uint64(val.GetFloat()), false
 	case JsonIntValue:
 		parsedVal, err := strconv.ParseInt(string(val.sliceData), 10, 64)
-		if err == nil && parsedVal > 0 {
+		if err == nil && parsedVal >= 0 {
 			return uint64(parsedVal), true
 		} else {
 			return 0, false
@@ -744,12 +744,13 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case UintValue:
 			fallthrough
 		case JsonUintValue:
-			intVal, _ := val.AsInt()
-			if intVal >= 0 {
-				return val.compareUint(other)
-			} else {
-				return val.compareInt(other)
+			intVal, valid := val.AsInt()
+			if valid && intVal < 0 {
+				// A negative value is less than any unsigned one
+				_, valid2 := other.AsUint()
+				return -1, valid2
 			}
+			return val.compareUint(other)
 		default:
 			return val.compareInt(other)
 		}
@@ -760,12 +761,13 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
-			intVal, _ := val.AsInt()
-			if intVal >= 0 {
-				return val.compareUint(other)
-			} else {
-				return val.compareInt(other)
+			intOval, valid2 := other.AsInt()
+			if valid2 && intOval < 0 {
+				// Any unsigned value is greater than a negative one
+				_, valid := val.AsUint()
+				return 1, valid
 			}
+			return val.compareUint(other)
 		case FloatValue:
 			fallthrough
 		case JsonFloatValue:
-- 
2.43.0


From 5197e49ac675c69eb8ed89328b1f2ece2dd700b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 17/46] fix: decode integers that do not fit 64 bits without
 wrapping around

---
 fastlitparse.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fastlitparse.go b/fastlitparse.go
index 7f6ce30..d35e317 100644
--- a/fastlitparse.go
+++ b/fastlitparse.go
@@ -42,6 +42,22 @@ func (p *fastLitParser) ParseInt(bytes []byte) int64 {
 	}
 }
 
+// ParseInteger gives the value of an integer literal of any size.  Values that
+// do not fit an integer type become the nearest float.
+func (p *fastLitParser) ParseInteger(bytes []byte) FastVal {
+	if len(bytes) <= 18 {
+		// Cannot overflow
+		return NewIntFastVal(p.ParseInt(bytes))
+	}
+	if intVal, err := strconv.ParseInt(string(bytes), 10, 64); err == nil {
+		return NewIntFastVal(intVal)
+	}
+	if uintVal, err := strconv.ParseUint(string(bytes), 10, 64); err == nil {
+		return NewUintFastVal(uintVal)
+	}
+	return NewFloatFastVal(p.ParseNumber(bytes))
+}
+
 func (p *fastLitParser) ParseNumber(bytes []byte) float64 {
 	val, _ := strconv.ParseFloat(string(bytes), 64)
 	return val
@@ -72,7 +88,7 @@ func (p *fastLitParser) Parse(token tokenType, bytes []byte) FastVal {
 	case tknEscString:
 		return NewBinStringFastVal(p.ParseEscString(bytes))
 	case tknInteger:
-		return NewIntFastVal(p.ParseInt(bytes))
+		return p.ParseInteger(bytes)
 	case tknNumber:
 		return NewFloatFastVal(p.ParseNumber(bytes))
 	case tknNull:
-- 
2.43.0


From 104a551a651f1a65ece3d02fe41f8613f3706886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 18/46] fix: decode unpaired surrogate escapes as the
 replacement character

---
 fastlitescape.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/fastlitescape.go b/fastlitescape.go
index a752c17..92e98f0 100644
--- a/fastlitescape.go
+++ b/fastlitescape.go
@@ -67,22 +67,24 @@ func isUTF16EncodedRune(r rune) bool {
 }
 
 func decodeUnicodeEscape(in []byte) (rune, int) {
-	if r, ok := decodeSingleUnicodeEscape(in); !ok {
+	r, ok := decodeSingleUnicodeEscape(in)
+	if !ok {
 		// Invalid Unicode escape
 		return utf8.RuneError, -1
-	} else if r <= basicMultilingualPlaneOffset && !isUTF16EncodedRune(r) {
+	}
+	if !isUTF16EncodedRune(r) {
 		// Valid Unicode escape in Basic Multilingual Plane
 		return r, 6
-	} else if r2, ok := decodeSingleUnicodeEscape(in[6:]); !ok { // Note: previous decodeSingleUnicodeEscape success guarantees at least 6 bytes remain
-		// UTF16 "high surrogate" without manditory valid following Unicode escape for the "low surrogate"
-		return utf8.RuneError, -1
-	} else if r2 < lowSurrogateOffset {
-		// Invalid UTF16 "low surrogate"
-		return utf8.RuneError, -1
-	} else {
-		// Valid UTF16 surrogate pair
-		return combineUTF16Surrogates(r, r2), 12
 	}
+	if r < lowSurrogateOffset && len(in) >= 12 && in[6] == '\\' && in[7] == 'u' {
+		r2, ok := decodeSingleUnicodeEscape(in[6:])
+		if ok && lowSurrogateOffset <= r2 && r2 <= basicMultilingualPlaneReservedOffset {
+			// Valid UTF16 surrogate pair
+			return combineUTF16Surrogates(r, r2), 12
+		}
+	}
+	// A surrogate that is not part of a pair stands for no character
+	return utf8.RuneError, 6
 }
 
 // backslashCharEscapeTable: when '\X' is found for some byte X, it is to be replaced with backslashCharEscapeTable[X]
-- 
2.43.0


From 079c7f6b4bfd7e66664189bfd015b2f39b703c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 19/46] fix: compare and match strings by their characters, not
 by a quoted form

---
 fastval.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/fastval.go b/fastval.go
index 0ef1196..a5d6fc8 100644
--- a/fastval.go
+++ b/fastval.go
@@ -3,6 +3,7 @@
 package gojsonsm
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"math"
@@ -414,8 +415,18 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	case BinStringValue:
 		return val, nil
 	case JsonStringValue:
-		// TODO: MUST DO - Unescape!
-		return val, nil
+		if bytes.IndexByte(val.sliceData, '\\') == -1 {
+			return NewBinStringFastVal(val.sliceData), nil
+		}
+		// Either quoted by ToJsonString or taken from JSON text
+		if text, err := strconv.Unquote(`"` + string(val.sliceData) + `"`); err == nil {
+			return NewBinStringFastVal([]byte(text)), nil
+		}
+		text, err := unescapeJsonString(val.sliceData, nil)
+		if err != nil {
+			return NewInvalidFastVal(), err
+		}
+		return NewBinStringFastVal(text), nil
 	}
 
 	return val, errors.New("invalid type coercion")
@@ -570,7 +581,13 @@ func (val FastVal) compareBoolean(other FastVal) (int, bool) {
 }
 
 func (val FastVal) compareStrings(other FastVal) (int, bool) {
-	if other.IsString() || other.IsNumeric() {
+	if other.IsString() {
+		binVal, err := val.ToBinString()
+		binOval, err1 := other.ToBinString()
+
+		result := bytes.Compare(binVal.sliceData, binOval.sliceData)
+		return result, err == nil && err1 == nil
+	} else if other.IsNumeric() {
 		escVal, err := val.toJsonStringInternal()
 		escOval, err1 := other.toJsonStringInternal()
 
@@ -896,7 +913,7 @@ func (val FastVal) Equals(other FastVal) (bool, bool) {
 }
 
 func (val FastVal) matchStrings(other FastVal) (bool, bool) {
-	escVal, err := val.toJsonStringInternal()
+	binVal, err := val.ToBinString()
 	if err != nil {
 		return false, false
 	}
@@ -905,7 +922,7 @@ func (val FastVal) matchStrings(other FastVal) (bool, bool) {
 	if !valid {
 		return false, valid
 	} else {
-		return regex.Match(escVal.sliceData), true
+		return regex.Match(binVal.sliceData), true
 	}
 }
 
-- 
2.43.0


From e15236eaf6b9d7a1e81c2483a91cb49ba72f6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 20/46] fix: integer arithmetic neither wraps around nor panics
 on division by zero

---
 fastval_math.go | 442 ++++++++----------------------------------------
 1 file changed, 72 insertions(+), 370 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 0b7ef9a..049284a 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -56,9 +56,13 @@ func FastValMathAbs(val FastVal) FastVal {
 	return NewInvalidFastVal()
 }
 
-type intToIntOp func(int64) int64
-type int2ToIntOp func(int64, int64) int64
-type uint2ToUintOp func(uint64, uint64) uint64
+// fastValInteger is an integer of either sign whose magnitude fits 64 bits.
+type fastValInteger struct {
+	neg bool
+	mag uint64
+}
+
+type integer2ToIntegerOp func(a, b fastValInteger) (result fastValInteger, fits bool)
 type floatToFloatOp func(float64) float64
 type float2ToFloatOp func(float64, float64) float64
 
@@ -66,93 +70,93 @@ func fastValMathAdd(a, b float64) float64 {
 	return a + b
 }
 
-func fastValMathAddInt(a, b int64) int64 {
-	return a + b
-}
-
-func fastValMathAddUint(a, b uint64) uint64 {
-	return a + b
+func fastValMathAddInteger(a, b fastValInteger) (fastValInteger, bool) {
+	if a.neg == b.neg {
+		sum := a.mag + b.mag
+		return fastValInteger{a.neg, sum}, sum >= a.mag
+	}
+	if a.mag >= b.mag {
+		return fastValInteger{a.neg, a.mag - b.mag}, true
+	}
+	return fastValInteger{b.neg, b.mag - a.mag}, true
 }
 
 func fastValMathSub(a, b float64) float64 {
 	return a - b
 }
 
-func fastValMathSubInt(a, b int64) int64 {
-	return a - b
-}
-
-func fastValMathSubUint(a, b uint64) uint64 {
-	return a - b
+func fastValMathSubInteger(a, b fastValInteger) (fastValInteger, bool) {
+	return fastValMathAddInteger(a, fastValInteger{!b.neg, b.mag})
 }
 
 func fastValMathMult(a, b float64) float64 {
 	return a * b
 }
 
-func fastValMathMultInt(a, b int64) int64 {
-	return a * b
-}
-
-func fastValMathMultUint(a, b uint64) uint64 {
-	return a * b
+func fastValMathMultInteger(a, b fastValInteger) (fastValInteger, bool) {
+	if b.mag != 0 && a.mag > math.MaxUint64/b.mag {
+		return fastValInteger{}, false
+	}
+	return fastValInteger{a.neg != b.neg, a.mag * b.mag}, true
 }
 
 func fastValMathDiv(a, b float64) float64 {
 	return a / b
 }
 
-func fastValMathDivInt(a, b int64) int64 {
-	return a / b
+func fastValMathDivInteger(a, b fastValInteger) (fastValInteger, bool) {
+	return fastValInteger{a.neg != b.neg, a.mag / b.mag}, true
 }
 
-func fastValMathDivUint(a, b uint64) uint64 {
-	return a / b
-}
-
-func fastValMathMod(a, b int64) int64 {
-	return a % b
-}
-
-func fastValMathModUint(a, b uint64) uint64 {
-	return a % b
+func fastValMathModInteger(a, b fastValInteger) (fastValInteger, bool) {
+	return fastValInteger{a.neg, a.mag % b.mag}, true
 }
 
 func fastValNegate(a float64) float64 {
 	return -1.0 * a
 }
 
-func fastValNegateInt(a int64) int64 {
-	return -1 * a
-}
-
-func genericFastVal2IntsOp(val, val1 FastVal, op int2ToIntOp) FastVal {
-	valInt, valid := val.AsInt()
-	val1Int, valid2 := val1.AsInt()
-	if !val.IsNumeric() || !val1.IsNumeric() || !valid || !valid2 {
-		return NewInvalidFastVal()
+// asInteger gives the value of an integer of either type
+func (val FastVal) asInteger() (fastValInteger, bool) {
+	if val.IsUInt() {
+		uintVal, valid := val.AsUint()
+		return fastValInteger{false, uintVal}, valid
+	} else if val.IsInt() {
+		intVal, valid := val.AsInt()
+		if intVal < 0 {
+			return fastValInteger{true, -uint64(intVal)}, valid
+		}
+		return fastValInteger{false, uint64(intVal)}, valid
 	}
 
-	return NewIntFastVal(op(valInt, val1Int))
+	return fastValInteger{}, false
 }
 
-func genericFastVal2UintsOp(val, val1 FastVal, op uint2ToUintOp) FastVal {
-	valUint, valid := val.AsUint()
-	val1Uint, valid2 := val1.AsUint()
-	if !val.IsNumeric() || !val1.IsNumeric() || !valid || !valid2 {
-		return NewInvalidFastVal()
+// fastVal makes a value of the type the integer fits
+func (i fastValInteger) fastVal() (FastVal, bool) {
+	if i.neg && i.mag != 0 {
+		return NewIntFastVal(int64(-i.mag)), i.mag <= 1<<63
+	} else if i.mag <= math.MaxInt64 {
+		return NewIntFastVal(int64(i.mag)), true
 	}
 
-	return NewUintFastVal(op(valUint, val1Uint))
+	return NewUintFastVal(i.mag), true
 }
 
-func genericFastValIntOp(val FastVal, op intToIntOp) FastVal {
-	intVal, valid := val.AsInt()
-	if valid && val.IsNumeric() {
-		return NewIntFastVal(op(intVal))
+// genericFastVal2NumbersOp computes with integers exactly. If the result does
+// not fit any integer type, best effort and let float take care of it
+func genericFastVal2NumbersOp(val, val1 FastVal, op integer2ToIntegerOp, floatOp float2ToFloatOp) FastVal {
+	valInteger, valid := val.asInteger()
+	val1Integer, valid1 := val1.asInteger()
+	if valid && valid1 {
+		if integer, fits := op(valInteger, val1Integer); fits {
+			if result, fits := integer.fastVal(); fits {
+				return result
+			}
+		}
 	}
 
-	return NewInvalidFastVal()
+	return genericFastVal2FloatsOp(val, val1, floatOp)
 }
 
 func genericFastValFloatOp(val FastVal, op floatToFloatOp) FastVal {
@@ -238,341 +242,39 @@ func FastValMathRadians(val FastVal) FastVal {
 	return genericFastValFloatOp(val, mathRadiansFunc)
 }
 
-func fastValMathAddMultSharedLogic(val, val1 FastVal, intOp int2ToIntOp, uintOp uint2ToUintOp, floatOp float2ToFloatOp) FastVal {
-	switch val.dataType {
-	case UintValue:
-		fallthrough
-	case JsonUintValue:
-		switch val1.dataType {
-		case UintValue:
-			fallthrough
-		case JsonUintValue:
-			return genericFastVal2UintsOp(val, val1, uintOp)
-		case IntValue:
-			fallthrough
-		case JsonIntValue:
-			intCheck, valid := val1.AsInt()
-			if !valid {
-				return NewInvalidFastVal()
-			}
-			if intCheck >= 0 {
-				return genericFastVal2UintsOp(val, val1, uintOp)
-			} else {
-				uintCheck, valid1 := val.AsUint()
-				if !valid1 || uintCheck > math.MaxInt64 {
-					return NewInvalidFastVal()
-				}
-				return genericFastVal2IntsOp(val, val1, intOp)
-			}
-		case FloatValue:
-			fallthrough
-		case JsonFloatValue:
-			return genericFastVal2FloatsOp(val, val1, floatOp)
-		default:
-			return NewInvalidFastVal()
-		}
-	case IntValue:
-		fallthrough
-	case JsonIntValue:
-		switch val1.dataType {
-		case UintValue:
-			fallthrough
-		case JsonUintValue:
-			intCheck, valid := val.AsInt()
-			if !valid {
-				return NewInvalidFastVal()
-			}
-			if intCheck >= 0 {
-				return genericFastVal2UintsOp(val, val1, uintOp)
-			} else {
-				uint1Check, valid1 := val1.AsUint()
-				if !valid1 || uint1Check > math.MaxInt64 {
-					return NewInvalidFastVal()
-				}
-				return genericFastVal2IntsOp(val, val1, intOp)
-			}
-		case IntValue:
-			fallthrough
-		case JsonIntValue:
-			return genericFastVal2IntsOp(val, val1, intOp)
-		case FloatValue:
-			fallthrough
-		case JsonFloatValue:
-			return genericFastVal2FloatsOp(val, val1, floatOp)
-		default:
-			return NewInvalidFastVal()
-		}
-	case FloatValue:
-		fallthrough
-	case JsonFloatValue:
-		return genericFastVal2FloatsOp(val, val1, floatOp)
-	default:
-		return NewInvalidFastVal()
-	}
-}
-
 func FastValMathAdd(val, val1 FastVal) FastVal {
-	return fastValMathAddMultSharedLogic(val, val1, fastValMathAddInt, fastValMathAddUint, fastValMathAdd)
+	return genericFastVal2NumbersOp(val, val1, fastValMathAddInteger, fastValMathAdd)
 }
 
 func FastValMathMul(val, val1 FastVal) FastVal {
-	return fastValMathAddMultSharedLogic(val, val1, fastValMathMultInt, fastValMathMultUint, fastValMathMult)
+	return genericFastVal2NumbersOp(val, val1, fastValMathMultInteger, fastValMathMult)
 }
 
 func FastValMathSub(val, val1 FastVal) FastVal {
-	switch val.dataType {
-	case UintValue:
-		fallthrough
-	case JsonUintValue:
-		switch val1.dataType {
-		case UintValue:
-			fallthrough
-		case JsonUintValue:
-			uintCheck, valid := val.AsUint()
-			uint1Check, valid1 := val1.AsUint()
-			if !valid || !valid1 {
-				return NewInvalidFastVal()
-			}
-			if uintCheck >= uint1Check {
-				return genericFastVal2UintsOp(val, val1, fastValMathSubUint)
-			} else {
-				// Negative result
-				return genericFastVal2IntsOp(val, val1, fastValMathSubInt)
-			}
-		case IntValue:
-			fallthrough
-		case JsonIntValue:
-			uintCheck, valid := val.AsUint()
-			int1Check, valid1 := val1.AsInt()
-			if !valid || !valid1 {
-				return NewInvalidFastVal()
-			}
-			if int1Check >= 0 {
-				int1AsUint, valid := val1.AsUint()
-				if !valid {
-					return NewInvalidFastVal()
-				}
-				if int1AsUint > uintCheck {
-					// Result will be negative
-					return genericFastVal2IntsOp(val, val1, fastValMathSubInt)
-				} else {
-					return genericFastVal2UintsOp(val, val1, fastValMathSubUint)
-				}
-			} else {
-				// Subtracting a neg int == adding int to uint to be prevent potential overflow
-				positiveIntFastVal := NewIntFastVal(fastValNegateInt(int1Check))
-				return genericFastVal2UintsOp(val, positiveIntFastVal, fastValMathAddUint)
-			}
-		case FloatValue:
-			fallthrough
-		case JsonFloatValue:
-			return genericFastVal2FloatsOp(val, val1, fastValMathSub)
-		default:
-			return NewInvalidFastVal()
-		}
-	case IntValue:
-		fallthrough
-	case JsonIntValue:
-		switch val1.dataType {
-		case UintValue:
-			fallthrough
-		case JsonUintValue:
-			intCheck, valid := val.AsInt()
-			uint1Check, valid1 := val1.AsUint()
-			if !valid || !valid1 {
-				return NewInvalidFastVal()
-			}
-			if uint1Check > math.MaxInt64 {
-				// Instead of invalid - best effort and let float take care of it
-				return genericFastVal2FloatsOp(val, val1, fastValMathSub)
-			}
-			if intCheck >= 0 {
-				uint1AsInt, _ := val1.AsInt()
-				if intCheck > uint1AsInt {
-					// positive result
-					return genericFastVal2UintsOp(val, val1, fastValMathSubUint)
-				} else {
-					return genericFastVal2IntsOp(val, val1, fastValMathSubInt)
-				}
-			} else {
-				// Result will be negative
-				return genericFastVal2IntsOp(val, val1, fastValMathSubInt)
-			}
-		case IntValue:
-			fallthrough
-		case JsonIntValue:
-			return genericFastVal2IntsOp(val, val1, fastValMathSubInt)
-		case FloatValue:
-			fallthrough
-		case JsonFloatValue:
-			return genericFastVal2FloatsOp(val, val1, fastValMathSub)
-		default:
-			return NewInvalidFastVal()
-		}
-	case FloatValue:
-		fallthrough
-	case JsonFloatValue:
-		return genericFastVal2FloatsOp(val, val1, fastValMathSub)
-	default:
-		return NewInvalidFastVal()
-	}
+	return genericFastVal2NumbersOp(val, val1, fastValMathSubInteger, fastValMathSub)
 }
 
 func FastValMathDiv(val, val1 FastVal) FastVal {
-	switch val.dataType {
-	case UintValue:
-		fallthrough
-	case JsonUintValue:
-		switch val1.dataType {
-		case UintValue:
-			fallthrough
-		case JsonUintValue:
-			val1Check, valid := val1.AsUint()
-			if !valid || val1Check == 0 {
-				return NewInvalidFastVal()
-			}
-			return genericFastVal2UintsOp(val, val1, fastValMathDivUint)
-		case IntValue:
-			fallthrough
-		case JsonIntValue:
-			int1Check, valid1 := val1.AsInt()
-			if !valid1 || int1Check == 0 {
-				return NewInvalidFastVal()
-			} else if int1Check > 0 {
-				return genericFastVal2UintsOp(val, val1, fastValMathDivUint)
-			} else {
-				return genericFastVal2IntsOp(val, val1, fastValMathDivInt)
-			}
-		case FloatValue:
-			fallthrough
-		case JsonFloatValue:
-			return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
-		default:
-			return NewInvalidFastVal()
-		}
-	case IntValue:
-		fallthrough
-	case JsonIntValue:
-		intCheck, valid := val.AsInt()
-		if !valid {
-			return NewInvalidFastVal()
-		}
-		switch val1.dataType {
-		case UintValue:
-			fallthrough
-		case JsonUintValue:
-			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
-				// Cannot convert to int type
-				return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
-			} else {
-				if intCheck >= 0 {
-					return genericFastVal2UintsOp(val, val1, fastValMathDivUint)
-				} else {
-					return genericFastVal2IntsOp(val, val1, fastValMathDivInt)
-				}
-			}
-		case IntValue:
-			fallthrough
-		case JsonIntValue:
-			return genericFastVal2IntsOp(val, val1, fastValMathDivInt)
-		case FloatValue:
-			fallthrough
-		case JsonFloatValue:
-			return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
-		default:
-			return NewInvalidFastVal()
-		}
-	case FloatValue:
-		fallthrough
-	case JsonFloatValue:
-		return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
-	default:
+	if val1Integer, valid := val1.asInteger(); valid && val1Integer.mag == 0 && !val.IsFloat() {
 		return NewInvalidFastVal()
 	}
+
+	return genericFastVal2NumbersOp(val, val1, fastValMathDivInteger, fastValMathDiv)
 }
 
 func FastValMathMod(val, val1 FastVal) FastVal {
-	switch val.dataType {
-	case UintValue:
-		fallthrough
-	case JsonUintValue:
-		switch val1.dataType {
-		case UintValue:
-			fallthrough
-		case JsonUintValue:
-			val1Check, valid := val1.AsUint()
-			if !valid || val1Check == 0 {
-				return NewInvalidFastVal()
-			}
-			return genericFastVal2UintsOp(val, val1, fastValMathModUint)
-		case IntValue:
-			fallthrough
-		case JsonIntValue:
-			int1Check, valid1 := val1.AsInt()
-			if !valid1 || int1Check == 0 {
-				return NewInvalidFastVal()
-			} else if int1Check > 0 {
-				return genericFastVal2UintsOp(val, val1, fastValMathModUint)
-			} else {
-				return genericFastVal2IntsOp(val, val1, fastValMathMod)
-			}
-		default:
-			return NewInvalidFastVal()
-		}
-	case IntValue:
-		fallthrough
-	case JsonIntValue:
-		intCheck, valid := val.AsInt()
-		if !valid {
-			return NewInvalidFastVal()
-		}
-		switch val1.dataType {
-		case UintValue:
-			fallthrough
-		case JsonUintValue:
-			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
-				// Cannot convert to int type
-				return NewInvalidFastVal()
-			} else {
-				if intCheck >= 0 {
-					return genericFastVal2UintsOp(val, val1, fastValMathModUint)
-				} else {
-					return genericFastVal2IntsOp(val, val1, fastValMathMod)
-				}
-			}
-		case IntValue:
-			fallthrough
-		case JsonIntValue:
-			return genericFastVal2IntsOp(val, val1, fastValMathMod)
-		default:
-			return NewInvalidFastVal()
-		}
-	default:
+	val1Integer, valid := val1.asInteger()
+	if !val.IsIntegral() || !valid || val1Integer.mag == 0 {
 		return NewInvalidFastVal()
 	}
+
+	return genericFastVal2NumbersOp(val, val1, fastValMathModInteger, math.Mod)
 }
 
 func FastValMathNeg(val FastVal) FastVal {
-	switch val.dataType {
-	case UintValue:
-		fallthrough
-	case JsonUintValue:
-		checkUint, _ := val.AsUint()
-		if checkUint > math.MaxInt64 {
-			return NewInvalidFastVal()
-		}
-		fallthrough
-	case IntValue:
-		fallthrough
-	case JsonIntValue:
-		return genericFastValIntOp(val, fastValNegateInt)
-	case FloatValue:
-		fallthrough
-	case JsonFloatValue:
-		return genericFastValFloatOp(val, fastValNegate)
-	default:
-		return NewInvalidFastVal()
+	if val.IsIntegral() {
+		return FastValMathSub(NewIntFastVal(0), val)
 	}
+
+	return genericFastValFloatOp(val, fastValNegate)
 }
-- 
2.43.0


From 08ed3e319f32cbfe2a96c3043f160f7775959b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 21/46] fix: ROUND and ABS of numbers beyond 2^53

---
 fastval_math.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 049284a..336e3e0 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -4,15 +4,6 @@ import (
 	"math"
 )
 
-// floatRound implements math.Round for Go versions older than
-// 1.10 which did not have the function... Wat?
-func floatMathRound(val float64) float64 {
-	if val < 0 {
-		return float64(int(val - 0.5))
-	}
-	return float64(int(val + 0.5))
-}
-
 var mathDegreeFunc func(float64) float64 = func(rad float64) float64 {
 	return rad * 180 / math.Pi
 }
@@ -27,7 +18,7 @@ func FastValMathRound(val FastVal) FastVal {
 		if !valid {
 			return NewInvalidFastVal()
 		}
-		roundedValue := floatMathRound(originalValue)
+		roundedValue := math.Round(originalValue)
 		return NewFloatFastVal(roundedValue)
 	} else if val.IsInt() || val.IsUInt() {
 		// These values are already rounded, no need for any work
@@ -49,7 +40,10 @@ func FastValMathAbs(val FastVal) FastVal {
 		if val.IsFloat() {
 			return NewFloatFastVal(math.Abs(floatVal))
 		} else if val.IsInt() {
-			return NewIntFastVal(int64(math.Abs(floatVal)))
+			if intVal, valid := val.AsInt(); valid && intVal >= 0 {
+				return val
+			}
+			return FastValMathNeg(val)
 		}
 	}
 
-- 
2.43.0


From b3caafa07379703c1ef8d81efe1b583e4c2d7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 22/46] fix: an invalid comparison is neither <= nor >=

---
 fastMatcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index dde23f1..37cece7 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -305,13 +305,13 @@ func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
 		opRes = compareOut < 0
 	case OpTypeLessEquals:
 		compareOut, validOp = lhsVal.Compare(rhsVal)
-		opRes = compareOut <= 0
+		opRes = compareOut < 0 || compareOut == 0 && validOp
 	case OpTypeGreaterThan:
 		compareOut, validOp = lhsVal.Compare(rhsVal)
 		opRes = compareOut > 0
 	case OpTypeGreaterEquals:
 		compareOut, validOp = lhsVal.Compare(rhsVal)
-		opRes = compareOut >= 0
+		opRes = compareOut > 0 || compareOut == 0 && validOp
 	case OpTypeMatches:
 		opRes, validOp = lhsVal.Matches(rhsVal)
 	case OpTypeExists:
-- 
2.43.0


From 5e88cbb3e0e5305e9f11a6f793b524b93f799d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 23/46] fix: removing items failed for arrays that end with a
 string

---
 jsonComposer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index d517fac..41d8755 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -130,7 +130,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(err)
 				}
 
-				if tknType2 == tknObjectEnd {
+				if tknType2 == tknObjectEnd || tknType2 == tknArrayEnd {
 					depth--
 					if depth < 0 {
 						return handleError(ErrInvalidJSON)
-- 
2.43.0


From c407bd31975a246b2a310083103d605d2674b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 24/46] fix: removing items given twice removed what follows as
 well

---
 jsonComposer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 41d8755..7eb00c9 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -257,6 +257,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 			} else if tknType4 == tknUnknown {
 				return handleError(ErrUnrecognisedToken)
 			}
+			break
 		}
 
 		if !matched {
-- 
2.43.0


From 57372c37ae892222a1bb389d4079a4905569d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 25/46] fix: removing items wrote beyond dst or panicked when
 it is too short

---
 jsonComposer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 7eb00c9..e65f7e1 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -41,11 +41,10 @@ func (composer *jsonObjComposer) Write(data []byte, tknType tokenType) error {
 	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
 		composer.pos--
 	}
-	n := copy(composer.body[composer.pos:composer.pos+len(data)], data)
-	if n != len(data) {
+	if len(data) > len(composer.body)-composer.pos {
 		return ErrInsufficientMemory
 	}
-	composer.pos += len(data)
+	composer.pos += copy(composer.body[composer.pos:], data)
 	composer.prevTokenType = tknType
 	return nil
 }
-- 
2.43.0


From 55ef60d6b3711ef4577cbff0b6e1e21c7883a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 26/46] fix: compacting a loop over a constant ignored whether
 there are elements

---
 expression_compact.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/expression_compact.go b/expression_compact.go
index e292482..ce18628 100644
--- a/expression_compact.go
+++ b/expression_compact.go
@@ -42,21 +42,16 @@ func compactExpressionAnd(expr AndExpr) Expression {
 
 func compactExpressionAnyIn(expr AnyInExpr) Expression {
 	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
 	case FalseExpr:
 		return FalseExpr{}
 	}
+	// With a TrueExpr the result still depends on the array having elements
 	return expr
 }
 
 func compactExpressionEveryIn(expr EveryInExpr) Expression {
-	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
-	case FalseExpr:
-		return FalseExpr{}
-	}
+	// Even with a constant the result depends on the array: it must be one for
+	// a TrueExpr, and an empty one satisfies a FalseExpr
 	return expr
 }
 
-- 
2.43.0


From 2104de3f843899cc0ac68462e3cfa7a8489706b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 27/46] fix: report malformed JSON expressions as errors
 instead of panicking

---
 expression_json.go | 49 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 36ca66e..0d90556 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -16,9 +16,11 @@ func parseJsonValue(data []interface{}) (Expression, error) {
 func parseJsonField(data []interface{}) (Expression, error) {
 	var out FieldExpr
 	pos := 1
-	if dataRoot, ok := data[pos].(float64); ok {
-		out.Root = VariableID(dataRoot)
-		pos++
+	if pos < len(data) {
+		if dataRoot, ok := data[pos].(float64); ok {
+			out.Root = VariableID(dataRoot)
+			pos++
+		}
 	}
 	for ; pos < len(data); pos++ {
 		dataElem, ok := data[pos].(string)
@@ -33,13 +35,16 @@ func parseJsonField(data []interface{}) (Expression, error) {
 
 func parseJsonFunc(data []interface{}) (Expression, error) {
 	var out FuncExpr
-	pos := 1
-	if funcName, ok := data[pos].(string); ok {
-		out.FuncName = funcName
-		pos++
+	funcName, ok := data[1].(string)
+	if !ok {
+		return nil, errors.New("invalid function name format")
 	}
-	for ; pos < len(data); pos++ {
-		paramData := data[pos].([]interface{})
+	out.FuncName = funcName
+	for pos := 2; pos < len(data); pos++ {
+		paramData, ok := data[pos].([]interface{})
+		if !ok {
+			return nil, errors.New("invalid function parameter format")
+		}
 		param, err := parseJsonSubexpr(paramData)
 		if err != nil {
 			return nil, err
@@ -277,13 +282,16 @@ func parseJsonLike(data []interface{}) (Expression, error) {
 }
 
 func parseJsonRegex(data []interface{}) (Expression, error) {
+	if _, ok := data[1].(string); !ok {
+		return nil, errors.New("invalid regex expression format")
+	}
 	return RegexExpr{
 		data[1],
 	}, nil
 }
 
 func parseJsonTime(data []interface{}) (Expression, error) {
-	if dateStr, ok := data[1].(string); ok && !validTimeChecker(dateStr) {
+	if dateStr, ok := data[1].(string); !ok || !validTimeChecker(dateStr) {
 		return nil, ErrorInvalidTimeFormat
 	}
 	return TimeExpr{
@@ -291,13 +299,34 @@ func parseJsonTime(data []interface{}) (Expression, error) {
 	}, nil
 }
 
+// The number of operands that an expression of a type has at least
+func jsonExprOperands(exprType string) int {
+	switch exprType {
+	case "field", "or", "and":
+		return 0
+	case "anyin", "everyin", "anyeveryin":
+		return 3
+	case "equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals", "like":
+		return 2
+	}
+	return 1
+}
+
 func parseJsonSubexpr(data []interface{}) (Expression, error) {
+	if len(data) == 0 {
+		return nil, errors.New("invalid expression format")
+	}
+
 	exprType, ok := data[0].(string)
 	if !ok {
 
 		return nil, errors.New("invalid expression type format")
 	}
 
+	if len(data)-1 < jsonExprOperands(exprType) {
+		return nil, errors.New("missing operand of " + exprType + " expression")
+	}
+
 	switch exprType {
 	case "value":
 		return parseJsonValue(data)
-- 
2.43.0


From b44cc9f7f9cf9532e261306444157033e37a1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 28/46] fix: reject unknown functions and missing parameters in
 JSON expressions

---
 expression_json.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/expression_json.go b/expression_json.go
index 0d90556..9cd3cb1 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -53,9 +53,26 @@ func parseJsonFunc(data []interface{}) (Expression, error) {
 		out.Params = append(out.Params, param)
 	}
 
+	if params := funcParams(funcName); params == 0 || len(out.Params) < params {
+		return nil, errors.New("unknown function or missing parameters: " + funcName)
+	}
+
 	return out, nil
 }
 
+// The number of parameters of a function, or 0 if it cannot be executed
+func funcParams(funcName string) int {
+	switch funcName {
+	case DateFunc, MathFuncAbs, MathFuncAcos, MathFuncAsin, MathFuncAtan, MathFuncCeil, MathFuncCos, MathFuncDegrees,
+		MathFuncExp, MathFuncFloor, MathFuncLog, MathFuncLn, MathFuncRadians, MathFuncRound, MathFuncSin, MathFuncSqrt,
+		MathFuncTan, MathFuncNeg:
+		return 1
+	case MathFuncAtan2, MathFuncPow, MathFuncAdd, MathFuncSub, MathFuncMul, MathFuncDiv, MathFuncMod:
+		return 2
+	}
+	return 0
+}
+
 func parseJsonExists(data []interface{}) (Expression, error) {
 	subExprData, ok := data[1].([]interface{})
 	if !ok {
-- 
2.43.0


From f1f264e5bcf3972e20747ad656d5fa470fe5ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 29/46] fix: compile AND and OR without operands instead of
 panicking

---
 transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transform.go b/transform.go
index 080f631..c97cb75 100644
--- a/transform.go
+++ b/transform.go
@@ -380,6 +380,9 @@ func (t *Transformer) transformNot(expr NotExpr) *ExecNode {
 }
 
 func (t *Transformer) transformOr(expr OrExpr) *ExecNode {
+	if len(expr) == 0 {
+		return t.transformOne(FalseExpr{})
+	}
 	if len(expr) == 1 {
 		return t.transformOne(expr[0])
 	}
@@ -400,6 +403,9 @@ func (t *Transformer) transformOr(expr OrExpr) *ExecNode {
 }
 
 func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
+	if len(expr) == 0 {
+		return t.transformOne(TrueExpr{})
+	}
 	if len(expr) == 1 {
 		return t.transformOne(expr[0])
 	}
-- 
2.43.0


From 1e699a4bd4028e18e4c2acacd437d61e6d157540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 30/46] fix: expression statistics panicked on NOT, LIKE,
 constants, times and patterns

---
 expressionstats.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expressionstats.go b/expressionstats.go
index fe2e5a6..1b503ed 100644
--- a/expressionstats.go
+++ b/expressionstats.go
@@ -40,6 +40,10 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 		for _, subexpr := range expr.Params {
 			stats.scanOne(subexpr, loopDepth)
 		}
+	case TrueExpr, FalseExpr, TimeExpr, RegexExpr, PcreExpr:
+		// not counted
+	case NotExpr:
+		stats.scanOne(expr.SubExpr, loopDepth)
 	case AndExpr:
 		stats.NumAnds++
 		for _, subexpr := range expr {
@@ -93,6 +97,9 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 	case GreaterEqualsExpr:
 		stats.scanOne(expr.Lhs, loopDepth)
 		stats.scanOne(expr.Rhs, loopDepth)
+	case LikeExpr:
+		stats.scanOne(expr.Lhs, loopDepth)
+		stats.scanOne(expr.Rhs, loopDepth)
 	default:
 		panic("unexpected expression type")
 	}
-- 
2.43.0


From 5e87aef459fff8d0e266b6782e169fd0710e214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 31/46] fix: arithmetic with several operators kept only the
 last one in filter expressions

---
 filterExprParser.go | 106 ++++++++++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 34 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 0ae5962..869337f 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -24,7 +24,8 @@ import (
 // CheckOp                  = ( "IS" [ "NOT" ] ( NULL | MISSING ) )
 // FieldWithMath            = FieldWMathType0 | FieldWMathType1
 // FieldWMathType0          = MathValue MathOp Field
-// FieldWMathType1          = Field { MathOp ( MathValue | Field ) }
+// FieldWMathType1          = Field [ MathOp ( MathValue | Field ) { MathOperation } ]
+// MathOperation            = MathOp ( MathValue | Field )
 // Field                    = { @"-" } OnePath { "." OnePath }
 // OnePath                  = ( PathFuncExpression | StringType ){ ArrayIndex }
 // StringType               = @Ident | @RawString | @Char
@@ -512,9 +513,18 @@ func (f *FEFieldWithMathType0) OutputExpression() (Expression, error) {
 
 type FEFieldWithMathType1 struct {
 	Field      *FEField            `( @@`
-	MathOp     *FEMathArithmeticOp `{ @@`
-	MathValue  *FEMathValue        `( @@ | `
-	OtherField *FEField            `@@ ) } )`
+	MathOp     *FEMathArithmeticOp `[ @@`
+	MathValue  *FEMathValue        `( @@ |`
+	OtherField *FEField            `@@ )`
+	Operations []*FEMathOperation  `{ @@ } ] )`
+}
+
+// All operations on the field
+func (f *FEFieldWithMathType1) allOperations() []*FEMathOperation {
+	if f.MathOp == nil {
+		return nil
+	}
+	return append([]*FEMathOperation{{f.MathOp, f.MathValue, f.OtherField}}, f.Operations...)
 }
 
 func (f *FEFieldWithMathType1) String() string {
@@ -522,13 +532,8 @@ func (f *FEFieldWithMathType1) String() string {
 	if f.Field != nil {
 		output = append(output, f.Field.String())
 	}
-	if f.MathValue != nil && (f.MathOp != nil || f.OtherField != nil) {
-		output = append(output, f.MathOp.String())
-		if f.MathOp != nil {
-			output = append(output, f.MathValue.String())
-		} else {
-			output = append(output, f.OtherField.String())
-		}
+	for _, operation := range f.allOperations() {
+		output = append(output, operation.String())
 	}
 	return strings.Join(output, " ")
 }
@@ -538,38 +543,71 @@ func (f *FEFieldWithMathType1) OutputExpression() (Expression, error) {
 		return nil, fmt.Errorf("Invalid FEFieldWithMathType1 %v", f.String())
 	}
 
-	if f.MathOp != nil && (f.MathValue != nil || f.OtherField != nil) {
-		var mathOutExpr FuncExpr
-		mathOpExpr, err := f.MathOp.OutputExpression()
-		if err != nil {
-			return nil, err
-		}
-		mathOutExpr = mathOpExpr.(FuncExpr)
+	term, err := f.Field.OutputExpression()
+	if err != nil {
+		return nil, err
+	}
 
-		fieldExpr, err := f.Field.OutputExpression()
+	// Operations of the same precedence apply from left to right. The sum so far is kept apart from the
+	// term that further multiplications apply to
+	var sum *FuncExpr
+	for _, operation := range f.allOperations() {
+		mathExpr, operand, err := operation.outputParts()
 		if err != nil {
 			return nil, err
 		}
-		mathOutExpr.Params = append(mathOutExpr.Params, fieldExpr)
-
-		if f.MathValue != nil {
-			valueExpr, err := f.MathValue.OutputExpression()
-			if err != nil {
-				return nil, err
+		if mathExpr.FuncName == MathFuncAdd || mathExpr.FuncName == MathFuncSub {
+			if sum != nil {
+				sum.Params = append(sum.Params, term)
+				term = *sum
 			}
-			mathOutExpr.Params = append(mathOutExpr.Params, valueExpr)
+			mathExpr.Params = append(mathExpr.Params, term)
+			sum = &mathExpr
+			term = operand
 		} else {
-			field2Expr, err := f.OtherField.OutputExpression()
-			if err != nil {
-				return nil, err
-			}
-			mathOutExpr.Params = append(mathOutExpr.Params, field2Expr)
+			mathExpr.Params = append(mathExpr.Params, term, operand)
+			term = mathExpr
 		}
-		return mathOutExpr, nil
+	}
+	if sum != nil {
+		sum.Params = append(sum.Params, term)
+		term = *sum
+	}
+	return term, nil
+}
+
+type FEMathOperation struct {
+	MathOp     *FEMathArithmeticOp `@@`
+	MathValue  *FEMathValue        `( @@ |`
+	OtherField *FEField            `@@ )`
+}
+
+func (f *FEMathOperation) String() string {
+	if f.MathOp != nil && f.MathValue != nil {
+		return f.MathOp.String() + " " + f.MathValue.String()
+	} else if f.MathOp != nil && f.OtherField != nil {
+		return f.MathOp.String() + " " + f.OtherField.String()
+	} else {
+		return "?? (FEMathOperation)"
+	}
+}
+
+// Outputs the operation, which lacks its operands yet, and its right hand operand
+func (f *FEMathOperation) outputParts() (FuncExpr, Expression, error) {
+	if f.MathOp == nil || (f.MathValue == nil && f.OtherField == nil) {
+		return FuncExpr{}, nil, fmt.Errorf("Invalid FEMathOperation %v", f.String())
+	}
+	mathOpExpr, err := f.MathOp.OutputExpression()
+	if err != nil {
+		return FuncExpr{}, nil, err
+	}
+	var operand Expression
+	if f.MathValue != nil {
+		operand, err = f.MathValue.OutputExpression()
 	} else {
-		// No math
-		return f.Field.OutputExpression()
+		operand, err = f.OtherField.OutputExpression()
 	}
+	return mathOpExpr.(FuncExpr), operand, err
 }
 
 type FEField struct {
-- 
2.43.0


From 44970373547701cd3d4ff336379df15ebdbbf538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 32/46] fix: report invalid regular expressions as errors
 instead of panicking while compiling

---
 expression_json.go  | 7 ++++++-
 filterExprParser.go | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/expression_json.go b/expression_json.go
index 9cd3cb1..cfd3724 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -5,6 +5,7 @@ package gojsonsm
 import (
 	"encoding/json"
 	"errors"
+	"regexp"
 )
 
 func parseJsonValue(data []interface{}) (Expression, error) {
@@ -299,9 +300,13 @@ func parseJsonLike(data []interface{}) (Expression, error) {
 }
 
 func parseJsonRegex(data []interface{}) (Expression, error) {
-	if _, ok := data[1].(string); !ok {
+	pattern, ok := data[1].(string)
+	if !ok {
 		return nil, errors.New("invalid regex expression format")
 	}
+	if _, err := regexp.Compile(pattern); err != nil {
+		return nil, err
+	}
 	return RegexExpr{
 		data[1],
 	}, nil
diff --git a/filterExprParser.go b/filterExprParser.go
index 869337f..1ce4f72 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle"
 	"math"
+	"regexp"
 	"strings"
 )
 
@@ -1225,6 +1226,9 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 	if tokenIsPcreValueType(f.Argument.String()) {
 		return MakePcreExpression(f.Argument.String())
 	} else {
+		if _, err := regexp.Compile(f.Argument.String()); err != nil {
+			return nil, err
+		}
 		return RegexExpr{f.Argument.String()}, nil
 	}
 }
-- 
2.43.0


From b82618c178d1ffcd3508121a8c8c62e504633e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 33/46] fix: accept negative numbers on the left of a
 comparison and as arguments in filter expressions

---
 filterExprParser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 1ce4f72..210e2ae 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -27,12 +27,12 @@ import (
 // FieldWMathType0          = MathValue MathOp Field
 // FieldWMathType1          = Field [ MathOp ( MathValue | Field ) { MathOperation } ]
 // MathOperation            = MathOp ( MathValue | Field )
-// Field                    = { @"-" } OnePath { "." OnePath }
+// Field                    = [ @"-" ] OnePath { "." OnePath }
 // OnePath                  = ( PathFuncExpression | StringType ){ ArrayIndex }
 // StringType               = @Ident | @RawString | @Char
 // ArrayIndex               = "[" @Int "]"
 // Value                    = @MathValue | @String
-// ConstFuncExpr            = { @"-" } ( ConstFuncNoArg | ConstFuncOneArg | ConstFuncTwoArgs )
+// ConstFuncExpr            = [ @"-" ] ( ConstFuncNoArg | ConstFuncOneArg | ConstFuncTwoArgs )
 // ConstFuncNoArg           = ConstFuncNoArgName "(" ")"
 // ConstFuncNoArgName       = "PI" | "E"
 // ConstFuncOneArg          = ConstFuncOneArgName "(" ConstFuncArgument ")"
@@ -44,7 +44,7 @@ import (
 // PathFuncExpression       = OnePathFuncNoArg
 // OnePathFuncNoArg         = OnePathFuncNoArgName "(" ")"
 // MathOp                   = @"+" | @"-" | @"*" | @"/" | @"%"
-// MathValue                = { @"-" } ( @Int | @Float )
+// MathValue                = [ @"-" ] ( @Int | @Float )
 // OnePathFuncNoArgName     = "META"
 // BooleanFuncExpr          = BooleanFuncTwoArgs | ExistsClause
 // BooleanFuncTwoArgs       = BooleanFuncTwoArgsName "(" ConstFuncArgument "," ConstFuncArgumentRHS ")"
@@ -612,7 +612,7 @@ func (f *FEMathOperation) outputParts() (FuncExpr, Expression, error) {
 }
 
 type FEField struct {
-	MathNeg *bool        `{ @"-" }`
+	MathNeg *bool        `[ @"-" ]`
 	Path    []*FEOnePath `@@ { "." @@ }`
 }
 
@@ -801,7 +801,7 @@ func (f *FEMathArithmeticOp) OutputExpression() (Expression, error) {
 }
 
 type FEMathValue struct {
-	MathNeg    *bool    `{ @"-" }`
+	MathNeg    *bool    `[ @"-" ]`
 	IntValue   *int     `( @Int |`
 	FloatValue *float64 `@Float )`
 }
@@ -1074,7 +1074,7 @@ func (f *FECheckOp) OutputExpression(subExpr Expression) (Expression, error) {
 // Technically we could have an slice of arguments, but having OneArg vs NoArg vs TwoArg could
 // allow us to do more strict function check (i.e. certain funcs should only allow one argument, etc, at this level)
 type FEConstFuncExpression struct {
-	MathNeg          *bool               `{ @"-" }`
+	MathNeg          *bool               `[ @"-" ]`
 	ConstFuncNoArg   *FEConstFuncNoArg   `( @@ |`
 	ConstFuncOneArg  *FEConstFuncOneArg  `@@ |`
 	ConstFuncTwoArgs *FEConstFuncTwoArgs `@@ )`
@@ -1558,7 +1558,7 @@ func NewFilterExpressionParser(expression string) (*participle.Parser, *FilterEx
 		return nil, fe, ErrorEmptyInput
 	}
 
-	parser, err := participle.Build(fe)
+	parser, err := participle.Build(fe, participle.UseLookahead(2))
 	if err != nil {
 		return parser, fe, err
 	}
-- 
2.43.0


From 0b85aef8f7ec7172fd83b16481966267f82ad7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 34/46] fix: simple expressions that mix the spellings of AND
 and OR were not evaluated left to right

---
 simpleParser.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 63bf698..3c69623 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1149,16 +1149,20 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 func (ctx *expressionParserContext) enableShortCircuitEvalIfPossible() {
 	var operator string
 	for i := 0; i < len(ctx.tokens); i++ {
-		if ctx.tokens[i] == TokenOperatorOr || ctx.tokens[i] == TokenOperatorAnd {
-			if len(operator) == 0 {
-				ctx.shortCircuitEnabled = true
-				operator = ctx.tokens[i]
-			} else {
-				if ctx.tokens[i] != operator {
-					ctx.shortCircuitEnabled = false
-					return
-				}
-			}
+		token := ctx.tokens[i]
+		if token == TokenOperatorOr || token == TokenOperatorAnd {
+			ctx.shortCircuitEnabled = true
+		}
+		// The other spelling, or an operator that is not separated from its operands, makes a mix just the same
+		isOr := token == TokenOperatorOr2 || strings.Contains(token, TokenOperatorOr)
+		isAnd := token == TokenOperatorAnd2 || strings.Contains(token, TokenOperatorAnd)
+		if isOr && isAnd || isOr && operator == TokenOperatorAnd || isAnd && operator == TokenOperatorOr {
+			ctx.shortCircuitEnabled = false
+			return
+		} else if isOr {
+			operator = TokenOperatorOr
+		} else if isAnd {
+			operator = TokenOperatorAnd
 		}
 	}
 }
-- 
2.43.0


From 37c5d2be95ac88be2eb543969d949022d0cd0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:42 +0000
Subject: [PATCH 35/46] fix: operands that follow AND and OR in simple
 expressions

Groups in parentheses could not be followed by an operator, true and false
were dropped or never matched, EXISTS and IS took over the operators that
follow, and fields without a condition made the parser panic.
---
 simpleParser.go | 66 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 3c69623..e24d027 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -528,12 +528,19 @@ func (ctx *expressionParserContext) advanceToken() error {
 	// context mode transition
 	switch ctx.subCtx.currentMode {
 	case fieldMode:
+		if ctx.subCtx.oneLayerMode && ctx.subCtx.fieldIsTrueOrFalse {
+			// true and false are complete expressions
+			return ctx.oneLayerDone()
+		}
 		// After the field mode, the next token *must* be an op
 		ctx.subCtx.currentMode = opMode
 	case opMode:
 		switch ctx.subCtx.opTokenContext {
 		case noFieldOp:
 			// These ops do not have fields
+			if ctx.subCtx.oneLayerMode {
+				return ctx.oneLayerDone()
+			}
 			ctx.subCtx.currentMode = chainMode
 		case chainOp:
 			ctx.subCtx.currentMode = fieldMode
@@ -545,8 +552,7 @@ func (ctx *expressionParserContext) advanceToken() error {
 	case valueMode:
 		if ctx.subCtx.oneLayerMode {
 			// One layer mode means that we should return as soon as this value is done so we can merge
-			ctx.currentTokenIndex = ctx.currentTokenIndex - 1
-			return NonErrorOneLayerDone
+			return ctx.oneLayerDone()
 		} else {
 			// After the value is finished, this subcompletion becomes a "field", so the next mode should be
 			// a op
@@ -563,6 +569,12 @@ func (ctx *expressionParserContext) advanceToken() error {
 	return nil
 }
 
+// The token that completed the layer is to be advanced from again, by the context that started the layer
+func (ctx *expressionParserContext) oneLayerDone() error {
+	ctx.currentTokenIndex = ctx.currentTokenIndex - 1
+	return NonErrorOneLayerDone
+}
+
 func (ctx *expressionParserContext) handleParenPrefix(paren string) error {
 	// Strip the "(" or ")" from this token and into its own element
 	ctx.tokens = append(ctx.tokens, "")
@@ -1017,6 +1029,8 @@ func (ctx *expressionParserContext) checkTokenTypeWithinContext(tokenType ParseT
 			return ctx.getErrorNeedToStartNewCtx()
 		} else if !tokenType.isFieldType() && !tokenType.isBoolType() {
 			return fmt.Errorf("Error: For field mode, expecting a field type. Received: %v(%v)", token, tokenType)
+		} else if tokenType.isBoolType() && ctx.subCtx.opTokenContext.isChainOp() {
+			return ctx.getErrorNeedToStartOneNewCtx()
 		}
 		fallthrough
 	case valueMode:
@@ -1107,32 +1121,32 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 		return nil
 	}
 
-	// If user enters a true/false and enclosed it in paren, don't merge
-	if !ctx.subCtx.oneLayerMode && olderSubCtx.fieldIsTrueOrFalse {
-		return nil
-	}
-
 	// Boundary check
-	if olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if olderSubCtx.lastOpIndex < 0 || olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
-	if ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	newHeadIndex := ctx.subCtx.lastOpIndex
+	if newHeadIndex == -1 && ctx.subCtx.fieldIsTrueOrFalse {
+		// Nothing but true or false
+		newHeadIndex = ctx.subCtx.lastFieldIndex
+	}
+	if newHeadIndex < 0 || newHeadIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
 
 	// Note that the subContext within *ctx is considered newer spawned
 	lastOpNodeOfOlderSubCtx := &ctx.parserTree.data[olderSubCtx.lastOpIndex]
-	lastOpNodeOfNewContext := &ctx.parserTree.data[ctx.subCtx.lastOpIndex]
+	headNodeOfNewContext := &ctx.parserTree.data[newHeadIndex]
 
 	if lastOpNodeOfOlderSubCtx.Right != -1 {
 		return fmt.Errorf("Merging sub-context should expect value to be unassigned, but currently assigned to: %v", lastOpNodeOfOlderSubCtx.Right)
 	}
-	lastOpNodeOfOlderSubCtx.Right = ctx.subCtx.lastOpIndex
+	lastOpNodeOfOlderSubCtx.Right = newHeadIndex
 
-	if lastOpNodeOfNewContext.ParentIdx != -1 {
-		return fmt.Errorf("Merging sub-context should expect parent to be unassigned, but currently assigned to: %v", lastOpNodeOfNewContext.ParentIdx)
+	if headNodeOfNewContext.ParentIdx != -1 {
+		return fmt.Errorf("Merging sub-context should expect parent to be unassigned, but currently assigned to: %v", headNodeOfNewContext.ParentIdx)
 	}
-	lastOpNodeOfNewContext.ParentIdx = olderSubCtx.lastOpIndex
+	headNodeOfNewContext.ParentIdx = olderSubCtx.lastOpIndex
 
 	// When merging, figure out the actual head and update it - the op that no longer merges to a parent is to be the new head
 	lastOpIndexNode := ctx.parserTree.data[olderSubCtx.lastOpIndex]
@@ -1214,6 +1228,11 @@ func (ctx *expressionParserContext) parse() error {
 			if err != nil {
 				break
 			}
+			// Only a chain operator or the end of this context can follow a completed sub context
+			ctx.advTokenPositionOnly = true
+			ctx.subCtx.funcHelperCtx = nil
+			ctx.subCtx.currentMode = chainMode
+			ctx.subCtx.opTokenContext.clear()
 		} else {
 			break
 		}
@@ -1630,17 +1649,28 @@ func (ctx *expressionParserContext) outputIsNotNull(node ParserTreeNode, pos int
 	}, nil
 }
 
+// true and false are values to compare with, but conditions of their own to an AND or an OR
+func (ctx *expressionParserContext) outputCondition(node ParserTreeNode, pos int) (Expression, error) {
+	switch node.tokenType {
+	case TokenTypeTrue:
+		return TrueExpr{}, nil
+	case TokenTypeFalse:
+		return FalseExpr{}, nil
+	}
+	return ctx.outputNode(node, pos)
+}
+
 func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Expression, error) {
 	var out AndExpr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 	rightNode, rightPos := ctx.getRightOutputNode(pos)
 
-	leftSubExpr, err := ctx.outputNode(leftNode, leftPos)
+	leftSubExpr, err := ctx.outputCondition(leftNode, leftPos)
 	if err != nil {
 		return out, err
 	}
 
-	rightSubExpr, err := ctx.outputNode(rightNode, rightPos)
+	rightSubExpr, err := ctx.outputCondition(rightNode, rightPos)
 	if err != nil {
 		return out, err
 	}
@@ -1656,11 +1686,11 @@ func (ctx *expressionParserContext) outputOr(node ParserTreeNode, pos int) (Expr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 	rightNode, rightPos := ctx.getRightOutputNode(pos)
 
-	leftSubExpr, err := ctx.outputNode(leftNode, leftPos)
+	leftSubExpr, err := ctx.outputCondition(leftNode, leftPos)
 	if err != nil {
 		return out, err
 	}
-	rightSubExpr, err := ctx.outputNode(rightNode, rightPos)
+	rightSubExpr, err := ctx.outputCondition(rightNode, rightPos)
 	if err != nil {
 		return out, err
 	}
-- 
2.43.0


From 0f483650e71491a4a3a2d4306071171c5bb4d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 36/46] fix: simple expressions rejected element 0 and misread
 members of elements

---
 simpleParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index e24d027..8e90835 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -935,7 +935,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 				if pos == beginPos {
 					continue
 				}
-				if pos == beginPos+1 && string(token[pos]) == "0" {
+				if pos == beginPos+1 && string(token[pos]) == "0" && !strings.HasPrefix(token[pos+1:], fieldNestedEnd) {
 					return outputToken, ErrorLeadingZeroes
 				} else if !fieldTokenInt.MatchString(string(token[pos])) && string(token[pos]) != fieldNestedEnd {
 					return outputToken, ErrorAllInts
@@ -955,7 +955,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					} else {
 						skipAppend = false
 					}
-					if pos == len(token)-1 || (pos < len(token)-1 && string(token[pos+1]) == fieldNestedStart) {
+					if pos == len(token)-1 || string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator {
 						skipAppend = true
 					}
 				case fieldSeparator:
-- 
2.43.0


From fa26e882bb54fadf979a5eed3506b54606bf80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 37/46] fix: nested functions in simple expressions took the
 wrong arguments or panicked

---
 simpleParser.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 8e90835..29ccad3 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1416,7 +1416,7 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			if err != nil {
 				return out, fmt.Errorf("Error: Unable to output subFx: %v", err)
 			}
-			out.Params = append(out.Params, subFuncExpr.(FuncExpr))
+			out.Params = append(out.Params, subFuncExpr)
 		} else if fieldTokens, isField := helper.args[curLevel][i].([]string); isField {
 			var argField FieldExpr
 			argField.Path = fieldTokens
@@ -1733,13 +1733,18 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	helper.args[helper.lvlMarker] = append(helper.args[helper.lvlMarker], lastFunc)
 
 	subMatches := regex.FindStringSubmatch(token)
+	if len(subMatches) == 3 {
+		subMatches[1], subMatches[2] = splitFuncArgs(subMatches[1], subMatches[2])
+	}
 
 	// Then given the arguments of the functions, populate them if there are any
 	fxIdx := helper.lvlMarker
 	for i := 1; i < len(subMatches); i++ {
 		if isFunc, key := helper.recursiveKeyFunc(subMatches[i]); isFunc {
 			nextFuncLvl := helper.makeNewFuncLevel()
-			helper.resolveRecursiveFuncs(subMatches[1], key)
+			if err := helper.resolveRecursiveFuncs(subMatches[i], key); err != nil {
+				return err
+			}
 			helper.args[fxIdx] = append(helper.args[fxIdx], funcRecursiveIdx(nextFuncLvl))
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
@@ -1764,6 +1769,26 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	return nil
 }
 
+// The pattern of a two variables function takes the last comma to be the one between them,
+// which it is not if the second variable is such a function, too
+func splitFuncArgs(first, second string) (string, string) {
+	args := first + "," + second
+	depth := 0
+	for i := 0; i < len(args); i++ {
+		switch args[i] {
+		case '(':
+			depth++
+		case ')':
+			depth--
+		case ',':
+			if depth == 0 {
+				return args[:i], strings.TrimLeft(args[i+1:], " ")
+			}
+		}
+	}
+	return first, second
+}
+
 func (helper *funcOutputHelper) makeNewFuncLevel() int {
 	helper.lvlMarker = len(helper.args)
 	helper.args = append(helper.args, make([]interface{}, 0))
-- 
2.43.0


From 3126cb151a211936c9e8082d4579626b60fd38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 38/46] fix: simple expressions with unfinished or PCRE values
 hung or panicked

An unfinished value within parentheses made the parser loop forever, and PCRE
values made the transformer panic where there is no support for them.
---
 simpleParser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 29ccad3..bec29ff 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -800,7 +800,7 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
 		var breakout bool
 		token := ctx.tokens[ctx.currentTokenIndex]
-		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") {
+		if ctx.parenDepth > 0 && token != ")" && strings.HasSuffix(token, ")") {
 			ctx.handleParenSuffix(")")
 			tokensLen = len(ctx.tokens)
 			token = ctx.tokens[ctx.currentTokenIndex]
@@ -1370,7 +1370,11 @@ func (ctx *expressionParserContext) outputRegex(node ParserTreeNode) (Expression
 }
 
 func (ctx *expressionParserContext) outputPcre(node ParserTreeNode) (Expression, error) {
-	return PcreExpr{node.data}, nil
+	expr, ok := node.data.(string)
+	if !ok {
+		return emptyExpression, fmt.Errorf("Unable to parse internal tree data structure")
+	}
+	return MakePcreExpression(expr)
 }
 
 func (ctx *expressionParserContext) outputField(pos int) (Expression, error) {
-- 
2.43.0


From e1463a6349d039959cba7df5781e6f0bdeb7d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 39/46] fix: names that contain operators or parentheses were
 split in simple expressions

---
 simpleParser.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index bec29ff..fcf0771 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -213,6 +213,9 @@ type opSeeker struct {
 	opFound bool
 	//	opFoundLastIdx int
 	opMatched string
+
+	// Whether the token starts with a field, whose name may contain operators that are words
+	inField bool
 }
 
 func NewOpSeeker(token string) *opSeeker {
@@ -221,9 +224,19 @@ func NewOpSeeker(token string) *opSeeker {
 }
 
 func (os *opSeeker) Seek() bool {
+	var inLiteral bool
 	for i := 0; i < len(os.completeToken); i++ {
+		if string(os.completeToken[i]) == fieldLiteral {
+			inLiteral = !inLiteral
+		}
+		if inLiteral {
+			continue
+		}
 		os.idx = i
 		os.seekInternal(i)
+		if os.opFound && os.isPartOfName() {
+			os.opFound = false
+		}
 		if os.opFound {
 			return true
 		}
@@ -231,6 +244,14 @@ func (os *opSeeker) Seek() bool {
 	return false
 }
 
+// ORDER and BRAND are names, but `name`OR is not
+func (os *opSeeker) isPartOfName() bool {
+	if !os.inField || os.opMatched[0] < 'A' || os.opMatched[0] > 'Z' {
+		return false
+	}
+	return os.idx == 0 || !strings.Contains("`])", os.completeToken[os.idx-1:os.idx])
+}
+
 func (os *opSeeker) GetToken() string {
 	return os.opMatched
 }
@@ -774,7 +795,7 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return ctx.getTrueFalseValue(token)
 	} else if isFunc, key := ctx.tokenIsBuiltInFuncType(token); isFunc {
 		return ctx.getFuncFieldTokenHelper(token, key)
-	} else if strings.Contains(token, "(") || strings.Contains(token, ")") {
+	} else if containsParen(token) {
 		return ctx.getCurrentTokenParenHelper(token)
 	} else if delim, unfinished := tokenIsUnfinishedValueType(token); ctx.subCtx.currentMode == valueMode && unfinished {
 		return ctx.getUnfinishedValueHelper(delim)
@@ -785,6 +806,19 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 	}
 }
 
+// Whether there is a parenthesis that is not part of an escaped field
+func containsParen(token string) bool {
+	var inLiteral bool
+	for i := 0; i < len(token); i++ {
+		if string(token[i]) == fieldLiteral {
+			inLiteral = !inLiteral
+		} else if !inLiteral && (token[i] == '(' || token[i] == ')') {
+			return true
+		}
+	}
+	return false
+}
+
 func tokenIsUnfinishedValueType(token string) (string, bool) {
 	if strings.HasPrefix(token, `"`) && !strings.HasSuffix(token, `"`) {
 		return `"`, true
@@ -1251,6 +1285,7 @@ func (ctx *expressionParserContext) parse() error {
 // can separate it just enough to get the supposed token
 func (ctx *expressionParserContext) checkPotentialSeparation(token string) bool {
 	ctx.subCtx.lastSeeker = NewOpSeeker(token)
+	ctx.subCtx.lastSeeker.inField = ctx.subCtx.currentMode == fieldMode
 	return ctx.subCtx.lastSeeker.Seek()
 }
 
@@ -1259,7 +1294,12 @@ func (ctx *expressionParserContext) getAndSeparateToken() (string, ParseTokenTyp
 	delim := lastSeeker.GetToken()
 	token := ctx.tokens[ctx.currentTokenIndex]
 
-	tokenSplitSlice := StringSplitFirstInst(token, delim)
+	var tokenSplitSlice []string
+	for _, part := range []string{token[:lastSeeker.idx], delim, token[lastSeeker.idx+len(delim):]} {
+		if len(part) > 0 {
+			tokenSplitSlice = append(tokenSplitSlice, part)
+		}
+	}
 	lenSlice := len(tokenSplitSlice)
 	if lenSlice > 1 {
 		numToInsert := lenSlice - 1
-- 
2.43.0


From 3ce4983e00480279d4bb21d462344a6c46cca65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 40/46] fix: keep white space and parentheses of quoted values
 in simple expressions

---
 simpleParser.go | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index fcf0771..68a4058 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -9,6 +9,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 )
 
 /**
@@ -43,8 +45,8 @@ import (
  */
 
 // Values by def should be enclosed within double quotes or single quotes
-var valueRegex *regexp.Regexp = regexp.MustCompile(`^\".*\"$`)
-var valueRegex2 *regexp.Regexp = regexp.MustCompile(`^\'.*\'$`)
+var valueRegex *regexp.Regexp = regexp.MustCompile(`(?s)^\".*\"$`)
+var valueRegex2 *regexp.Regexp = regexp.MustCompile(`(?s)^\'.*\'$`)
 
 // Or Values can be int or floats by themselves (w/o alpha char)
 var valueNumRegex *regexp.Regexp = regexp.MustCompile(`^(-?)(0|([1-9][0-9]*))(\.[0-9]+)?$`)
@@ -332,7 +334,7 @@ const (
 func NewExpressionParserCtx(strExpression string) (*expressionParserContext, error) {
 	subCtx := NewParserSubContext()
 	ctx := &expressionParserContext{
-		tokens:            strings.Fields(strExpression),
+		tokens:            splitTokens(strExpression),
 		subCtx:            subCtx,
 		treeHeadIndex:     -1,
 		fieldTokenPaths:   make(map[int][]string),
@@ -354,6 +356,44 @@ func NewExpressionParserCtx(strExpression string) (*expressionParserContext, err
 	return ctx, nil
 }
 
+// Separates the expression at its white space, except for the white space within values and escaped fields
+func splitTokens(str string) []string {
+	var tokens []string
+	begin := 0
+	for i := 0; i < len(str); {
+		c, size := utf8.DecodeRuneInString(str[i:])
+		switch {
+		case unicode.IsSpace(c):
+			if begin < i {
+				tokens = append(tokens, str[begin:i])
+			}
+			begin = i + size
+		case c == '"' || c == '\'':
+			if i == begin || strings.IndexByte("(,=~<>", str[i-1]) >= 0 {
+				i = endOfQuoted(str, i, " \t\n\v\f\r),|&")
+			}
+		case c == '`':
+			i = endOfQuoted(str, i, "")
+		}
+		i += size
+	}
+	if begin < len(str) {
+		tokens = append(tokens, str[begin:])
+	}
+	return tokens
+}
+
+// The position of the quote that ends what the one at pos begins, or pos if there is none.
+// Quotes that none of the characters of after follows do not end it
+func endOfQuoted(str string, pos int, after string) int {
+	for i := pos + 1; i < len(str); i++ {
+		if str[i] == str[pos] && (after == "" || i+1 == len(str) || strings.IndexByte(after, str[i+1]) >= 0) {
+			return i
+		}
+	}
+	return pos
+}
+
 type ParseTokenType int
 
 const (
-- 
2.43.0


From 769d99117b3a33aa39c74f65109961248316c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 41/46] fix: quoted numbers in simple expressions are strings

---
 simpleParser.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 68a4058..e0c1e70 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -310,6 +310,10 @@ type expressionParserContext struct {
 	// to Path for field expressions. This map stores the information. Key is the index of ParserTreeNode
 	fieldTokenPaths map[int][]string
 
+	// Values within quotes are strings even if they look like numbers. The key is the index of ParserTreeNode
+	currentTokenIsQuoted bool
+	quotedValues         map[int]bool
+
 	// Functions are essentially like augmented fields/values.
 	// Each element in this map that is a field must have a counter part in the fieldTOkensPaths map above
 	// If it's a value, then it's indicated in the pair, and the value interface is used
@@ -338,6 +342,7 @@ func NewExpressionParserCtx(strExpression string) (*expressionParserContext, err
 		subCtx:            subCtx,
 		treeHeadIndex:     -1,
 		fieldTokenPaths:   make(map[int][]string),
+		quotedValues:      make(map[int]bool),
 		builtInFuncRegex:  make(map[string]*regexp.Regexp),
 		funcOutputContext: make(map[int]*funcOutputHelper),
 	}
@@ -784,6 +789,7 @@ func (ctx *expressionParserContext) getTokenValueSubtype() ParseTokenType {
 
 func (ctx *expressionParserContext) getValueTokenHelper(delim string) (string, ParseTokenType, error) {
 	token := ctx.tokens[ctx.currentTokenIndex]
+	ctx.currentTokenIsQuoted = true
 
 	// For value, strip the double quotes
 	token = strings.TrimPrefix(token, delim)
@@ -820,6 +826,7 @@ func (ctx *expressionParserContext) getCurrentToken() (string, ParseTokenType, e
 		return "", TokenTypeInvalid, ErrorNoMoreTokens
 	}
 
+	ctx.currentTokenIsQuoted = false
 	token := ctx.tokens[ctx.currentTokenIndex]
 	if ctx.checkIfTokenIsPotentiallyOpType(token) {
 		return ctx.handleMultiTokens()
@@ -869,6 +876,7 @@ func tokenIsUnfinishedValueType(token string) (string, bool) {
 }
 
 func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (string, ParseTokenType, error) {
+	ctx.currentTokenIsQuoted = true
 	outputToken := strings.TrimPrefix(ctx.tokens[ctx.currentTokenIndex], delim)
 	tokensLen := len(ctx.tokens)
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
@@ -1166,6 +1174,7 @@ func (ctx *expressionParserContext) insertNode(newNode ParserTreeNode) error {
 		ctx.subCtx.lastSubFieldNode = ctx.subCtx.lastOpIndex
 	case valueMode:
 		ctx.subCtx.lastValueIndex = ctx.subCtx.lastBinTreeDataNode
+		ctx.quotedValues[ctx.subCtx.lastValueIndex] = ctx.currentTokenIsQuoted
 		// Value mode means that the op's right is the value
 		thisValueNode := &ctx.parserTree.data[ctx.subCtx.lastValueIndex]
 		thisValueNode.ParentIdx = ctx.subCtx.lastOpIndex
@@ -1407,7 +1416,7 @@ func (ctx *expressionParserContext) outputNode(node ParserTreeNode, pos int) (Ex
 	case TokenTypeFalse:
 		return ctx.outputFalse()
 	case TokenTypeValue:
-		return ctx.outputValue(node)
+		return ctx.outputValue(node, pos)
 	case TokenTypeRegex:
 		return ctx.outputRegex(node)
 	case TokenTypeFunc:
@@ -1441,7 +1450,10 @@ func outputValueInternal(data interface{}) (Expression, error) {
 
 }
 
-func (ctx *expressionParserContext) outputValue(node ParserTreeNode) (Expression, error) {
+func (ctx *expressionParserContext) outputValue(node ParserTreeNode, pos int) (Expression, error) {
+	if ctx.quotedValues[pos] {
+		return ValueExpr{node.data}, nil
+	}
 	return outputValueInternal(node.data)
 }
 
@@ -1505,6 +1517,8 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			var argField FieldExpr
 			argField.Path = fieldTokens
 			out.Params = append(out.Params, argField)
+		} else if valueArg, isValue := helper.args[curLevel][i].(ValueExpr); isValue {
+			out.Params = append(out.Params, valueArg)
 		} else if strArg, ok := helper.args[curLevel][i].(string); ok {
 			// value
 			valueExpr, err := outputValueInternal(strArg)
@@ -1833,7 +1847,7 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
 			valueString = strings.TrimSuffix(valueString, delim)
-			helper.args[fxIdx] = append(helper.args[fxIdx], valueString)
+			helper.args[fxIdx] = append(helper.args[fxIdx], ValueExpr{valueString})
 			if lastFunc == FuncDate && !validTimeChecker(valueString) {
 				return ErrorInvalidTimeFormat
 			}
-- 
2.43.0


From 4f6c3b8331ae815364d4a71fe65cbf73696290da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 42/46] fix: times that are no dates were accepted and panicked
 in Transform

---
 fastval_date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval_date.go b/fastval_date.go
index a058fd9..2a80e5e 100644
--- a/fastval_date.go
+++ b/fastval_date.go
@@ -17,8 +17,8 @@ var iso8601CompleteDate *regexp.Regexp = regexp.MustCompile(`^(19|20)\d\d[- /.](
 var cbSampleDateFormat *regexp.Regexp = regexp.MustCompile(`^((19|20)\d\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|3[01])) +(([0-1][0-9]|[2][0-3]):[0-5][0-9]:[0-5][0-9])$`)
 
 func validTimeChecker(s string) bool {
-	_, err := time.Parse(time.RFC3339, s)
-	return err == nil || iso8601Year.MatchString(s) || iso8601YearAndMonth.MatchString(s) || iso8601CompleteDate.MatchString(s)
+	_, err := time.Parse(time.RFC3339, isoToRfc(s))
+	return err == nil
 }
 
 func isoToRfc(str string) string {
-- 
2.43.0


From 68d7b362b96ce2e2c477093bed7ec2d950ba0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 43/46] fix: dates written with slashes, dots or blanks were
 never dates

---
 fastval_date.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/fastval_date.go b/fastval_date.go
index 2a80e5e..f144dee 100644
--- a/fastval_date.go
+++ b/fastval_date.go
@@ -25,13 +25,18 @@ func isoToRfc(str string) string {
 	if iso8601Year.MatchString(str) {
 		str = fmt.Sprintf(`%s-01-01T00:00:00Z`, str)
 	} else if iso8601YearAndMonth.MatchString(str) {
-		str = fmt.Sprintf(`%s-01T00:00:00Z`, str)
+		str = fmt.Sprintf(`%s-%s-01T00:00:00Z`, str[:4], str[5:])
 	} else if iso8601CompleteDate.MatchString(str) {
-		str = fmt.Sprintf(`%sT00:00:00Z`, str)
+		str = fmt.Sprintf(`%sT00:00:00Z`, dashedDate(str))
 	}
 	return str
 }
 
+// RFC 3339 separates the parts of a date by dashes only
+func dashedDate(str string) string {
+	return fmt.Sprintf(`%s-%s-%s`, str[:4], str[5:7], str[8:])
+}
+
 func FastValDateFunc(val FastVal) FastVal {
 	switch val.Type() {
 	case TimeValue:
@@ -41,13 +46,7 @@ func FastValDateFunc(val FastVal) FastVal {
 	case BinStringValue:
 		binVal, _ := val.ToBinString()
 		var str string
-		if iso8601Year.Match(binVal.sliceData) {
-			str = fmt.Sprintf(`%s-01-01T00:00:00Z`, binVal.sliceData)
-		} else if iso8601YearAndMonth.Match(binVal.sliceData) {
-			str = fmt.Sprintf(`%s-01T00:00:00Z`, binVal.sliceData)
-		} else if iso8601CompleteDate.Match(binVal.sliceData) {
-			str = fmt.Sprintf(`%sT00:00:00Z`, binVal.sliceData)
-		} else if cbSampleDateFormat.Match(binVal.sliceData) {
+		if cbSampleDateFormat.Match(binVal.sliceData) {
 			// len() call is very expensive. Use .Match() first then FindSubmatch
 			submatches := cbSampleDateFormat.FindSubmatch(binVal.sliceData)
 			if len(submatches) == 7 {
@@ -59,10 +58,10 @@ func FastValDateFunc(val FastVal) FastVal {
 				// 4: 01
 				// 5: 23:59:59
 				// 6: 23
-				str = fmt.Sprintf(`%sT%sZ`, submatches[1], submatches[5])
+				str = fmt.Sprintf(`%sT%sZ`, dashedDate(string(submatches[1])), submatches[5])
 			}
 		} else {
-			str = fmt.Sprintf(`%s`, binVal.sliceData)
+			str = isoToRfc(string(binVal.sliceData))
 		}
 		timeVal, err := time.Parse(time.RFC3339, str)
 		if err != nil {
-- 
2.43.0


From ff8e4f970a726f5a46b7724d0d8ce26750d4b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:22 +0000
Subject: [PATCH 44/46] fix: texts of documents were never converted to floats
 or truth values

---
 fastval.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fastval.go b/fastval.go
index a5d6fc8..a0a5b00 100644
--- a/fastval.go
+++ b/fastval.go
@@ -304,6 +304,8 @@ func (val FastVal) AsFloat() (float64, bool) {
 	case JsonUintValue:
 		parsedVal, err := strconv.ParseUint(string(val.sliceData), 10, 64)
 		return float64(parsedVal), err == nil
+	case BinStringValue:
+		fallthrough
 	case JsonStringValue:
 		fallthrough
 	case JsonFloatValue:
@@ -319,6 +321,8 @@ func (val FastVal) AsFloat() (float64, bool) {
 
 func (val FastVal) AsBoolean() (bool, bool) {
 	switch val.dataType {
+	case BinStringValue:
+		fallthrough
 	case JsonStringValue:
 		if TrueStringRegex.Match(val.sliceData) {
 			return true, true
-- 
2.43.0


From 4a13f487c822e229b762269659a69165afbe08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 45/46] fix: texts with | in place of a letter were truth
 values

---
 fastval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval.go b/fastval.go
index a0a5b00..6efeb38 100644
--- a/fastval.go
+++ b/fastval.go
@@ -85,8 +85,8 @@ const FalseString = "false"
 var TrueValueBytes = []byte(TrueString)
 var FalseValueBytes = []byte(FalseString)
 
-var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
-var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
+var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[Tt][Rr][Uu][Ee]$")
+var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[Ff][Aa][Ll][Ss][Ee]$")
 
 type FastVal struct {
 	dataType    ValueType
-- 
2.43.0


From 7b3e7510a7a39137ee5bbf2740d18079b73e1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:38 +0000
Subject: [PATCH 46/46] fix: regular expressions that look like PCRE in part
 were rejected in filters

---
 filterExprParser.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 210e2ae..42f2d82 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -1223,14 +1223,13 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 	if f.Argument == nil {
 		return nil, fmt.Errorf("Invalid FEConstFuncArgumentRHS for regex expression %v", f.String())
 	}
-	if tokenIsPcreValueType(f.Argument.String()) {
-		return MakePcreExpression(f.Argument.String())
-	} else {
-		if _, err := regexp.Compile(f.Argument.String()); err != nil {
-			return nil, err
+	if _, err := regexp.Compile(f.Argument.String()); err != nil {
+		if tokenIsPcreValueType(f.Argument.String()) {
+			return MakePcreExpression(f.Argument.String())
 		}
-		return RegexExpr{f.Argument.String()}, nil
+		return nil, err
 	}
+	return RegexExpr{f.Argument.String()}, nil
 }
 
 type FEConstFuncOneArg struct {
-- 
2.43.0

