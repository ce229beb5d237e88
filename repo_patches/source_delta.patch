From 1f4077b9a3bc5acf53cf878c2eace6799f41ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 01/33] fix: match path segment globs by characters and let a
 trailing * match nothing

A pattern segment such as a*bc panicked with index out of range on the
request segment ab, a* did not match a, and ? matched a single byte.
---
 router/path/pattern.go | 112 ++++++++++++-----------------------------
 1 file changed, 31 insertions(+), 81 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8ac019..a1f8962 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const greedyPatternMaxMatchableSegments = math.MaxUint8
@@ -177,96 +178,45 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 	}, nil
 }
 
+// regexSegmentMatch returns true if the whole urlPathSegment matches the patternSegment where,
+// '*' matches zero or more characters and '?' matches exactly one character
 func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensitive bool) bool {
-	var hasStar bool
-	patternSegmentLen := len(patternSegment)
-	urlPathSegmentLen := len(urlPathSegment)
-	for i := 0; i < patternSegmentLen; i++ {
-		if patternSegment[i] == '*' {
-			hasStar = true
-			break
-		}
-	}
-	if !hasStar && urlPathSegmentLen != patternSegmentLen {
-		return false
-	}
-
-	runesMatches := func(uc uint8, pc uint8) bool {
-		if pc == '?' {
-			return true
-		}
-		if caseInsensitive {
-			return unicode.ToUpper(rune(uc)) == unicode.ToUpper(rune(pc))
-		} else {
-			return uc == pc
-		}
-	}
-
 	var pIndex int
 	var uIndex int
-	var checkPointRestore bool
+	// the position after the last '*' and the URL position from where the rest of the pattern was tried
 	pIndexCheckPoint := -1
 	uIndexCheckPoint := -1
-	for {
-		if pIndex == patternSegmentLen && uIndex == urlPathSegmentLen {
-			return true
-		}
-		if pIndex == patternSegmentLen || uIndex == urlPathSegmentLen {
-			checkPointRestore = true
-		}
-
-		if checkPointRestore {
-			// no checkpoint, meaning that no greedy character found
-			if pIndexCheckPoint == -1 || uIndexCheckPoint == -1 {
-				return false
-			}
-			pIndex = pIndexCheckPoint
-			uIndex = uIndexCheckPoint + 1
-		}
-
-		checkPointRestore = false
-		uc := urlPathSegment[uIndex]
-		pc := patternSegment[pIndex]
-		if pc == '?' {
-			pIndex++
-			uIndex++
-		} else if pc == '*' {
-			//skip the next * if exists (example ab****)
-			for i := pIndex + 1; i < patternSegmentLen; i++ {
-				if patternSegment[i] != '*' {
-					pIndex = i - 1
-					break
-				}
+	for uIndex < len(urlPathSegment) {
+		uc, uSize := utf8.DecodeRuneInString(urlPathSegment[uIndex:])
+		if pIndex < len(patternSegment) {
+			pc, pSize := utf8.DecodeRuneInString(patternSegment[pIndex:])
+			if pc == '*' {
+				pIndex += pSize
+				pIndexCheckPoint = pIndex
+				uIndexCheckPoint = uIndex
+				continue
 			}
-
-			if pIndex == patternSegmentLen-1 {
-				//the * is the last character in the pattern and matches the rest of the text
-				return true
-			}
-
-			pIndexCheckPoint = -1
-			uIndexCheckPoint = -1
-			pc = patternSegment[pIndex+1]
-			for ; uIndex < urlPathSegmentLen; uIndex++ {
-				uc = urlPathSegment[uIndex]
-				if runesMatches(uc, pc) {
-					// we save the checkpoint and we continue with the next matching
-					pIndexCheckPoint = pIndex
-					uIndexCheckPoint = uIndex
-					pIndex++
-					break
-				}
-			}
-		} else {
-			if runesMatches(uc, pc) {
-				pIndex++
-				uIndex++
-			} else {
-				checkPointRestore = true
+			if pc == '?' ||
+				urlPathSegment[uIndex:uIndex+uSize] == patternSegment[pIndex:pIndex+pSize] ||
+				(caseInsensitive && unicode.ToUpper(uc) == unicode.ToUpper(pc)) {
+				pIndex += pSize
+				uIndex += uSize
+				continue
 			}
 		}
+		if pIndexCheckPoint == -1 {
+			return false
+		}
+		// the last '*' has to match one character more
+		_, uSize = utf8.DecodeRuneInString(urlPathSegment[uIndexCheckPoint:])
+		uIndexCheckPoint += uSize
+		uIndex = uIndexCheckPoint
+		pIndex = pIndexCheckPoint
 	}
-
+	for pIndex < len(patternSegment) && patternSegment[pIndex] == '*' {
+		pIndex++
+	}
+	return pIndex == len(patternSegment)
 }
 
 func determineMatchTypeForSegment(pathSegment string) MatchType {
-- 
2.43.0


From 7255a66bfa0e4cb27d8253d09ba1b2556a5935d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 02/33] fix: recognise path variables with the same regex
 constraint as the same segment

The regex was compared with the whole segment text, so two identical patterns
with a constrained variable were both accepted.
---
 router/path/matcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2c963d5..4e58ec6 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -81,7 +81,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					child.segment.matchType == MatchTypeMultipleSegments {
 					hasSameVal = true
 				} else if child.segment.matchType == MatchTypeConstraintCaptureVar {
-					hasSameVal = segment.captureVarPattern.String() == child.segment.val
+					hasSameVal = segment.captureVarPattern.String() == child.segment.captureVarPattern.String()
 				} else {
 					if m.caseInsensitive {
 						hasSameVal = strings.EqualFold(segment.val, child.segment.val)
-- 
2.43.0


From bc33893dbb0187aac9474bcbc8fa07a6d9cb1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:59 +0000
Subject: [PATCH 03/33] fix: reject the path patterns with too many segments
 and always finish parsing

Computing the priority of a pattern with more than 19 segments, or with nine
**, never returned, and the segments counter wrapped around at 256.
---
 router/path/encode.go  | 58 +++++++++++++++---------------------------
 router/path/pattern.go |  3 +++
 2 files changed, 24 insertions(+), 37 deletions(-)

diff --git a/router/path/encode.go b/router/path/encode.go
index 2f58c9d..d735e24 100644
--- a/router/path/encode.go
+++ b/router/path/encode.go
@@ -13,56 +13,40 @@ const (
 	MatchTypeMultipleSegments     = MatchType(6)
 )
 
+// computePriority encodes the match types of the segments as a decimal number with MaxPathSegments digits.
+// The greedy segments are repeated until all the digits are used
 func computePriority(segments []*segment) uint64 {
 	var priority uint64
 	var multiplePathsMatcherSegmentsCount int
 	digitsCount := len(segments)
 	for i := 0; i < digitsCount; i++ {
-		mt := segments[i].matchType
-		if mt == MatchTypeMultipleSegments {
+		if segments[i].matchType == MatchTypeMultipleSegments {
 			multiplePathsMatcherSegmentsCount++
 		}
-		priority = priority*10 + uint64(mt)
 	}
 
-	if multiplePathsMatcherSegmentsCount == 0 {
-		return priority * getDecimalDivider(MaxPathSegments-digitsCount)
-	} else {
-		digitsPerSegmentToAdd := (MaxPathSegments - digitsCount) / multiplePathsMatcherSegmentsCount
-		digitsPerSegmentReminderToAdd := (MaxPathSegments - digitsCount) % multiplePathsMatcherSegmentsCount
-
-		var getSplitIndex = func(nr uint64, dividerDigits int) int {
-			var splitIndex int
-			m := getDecimalDivider(dividerDigits)
-			for n := nr; n > 0; n = n / m {
-				if MatchType(n%10) == MatchTypeMultipleSegments {
-					break
-				}
-				splitIndex++
-			}
-			return splitIndex + dividerDigits
-		}
-
-		dividerDigits := 1
-		for i := 0; i < multiplePathsMatcherSegmentsCount; i++ {
-			splitIndex := getSplitIndex(priority, dividerDigits)
-			m := getDecimalDivider(splitIndex)
-			n := priority / m
-			r := priority % m
-			digitsToAdd := digitsPerSegmentToAdd
-			if i == multiplePathsMatcherSegmentsCount-1 {
-				digitsToAdd += digitsPerSegmentReminderToAdd
-			}
-
+	var digitsPerSegmentToAdd int
+	var digitsPerSegmentReminderToAdd int
+	if multiplePathsMatcherSegmentsCount > 0 {
+		digitsPerSegmentToAdd = (MaxPathSegments - digitsCount) / multiplePathsMatcherSegmentsCount
+		digitsPerSegmentReminderToAdd = (MaxPathSegments - digitsCount) % multiplePathsMatcherSegmentsCount
+	}
+	for i := 0; i < digitsCount; i++ {
+		mt := segments[i].matchType
+		priority = priority*10 + uint64(mt)
+		if mt == MatchTypeMultipleSegments {
+			// the first greedy segment receives the reminder
+			digitsToAdd := digitsPerSegmentToAdd + digitsPerSegmentReminderToAdd
+			digitsPerSegmentReminderToAdd = 0
 			for j := 0; j < digitsToAdd; j++ {
-				n = n*10 + uint64(MatchTypeMultipleSegments)
+				priority = priority*10 + uint64(MatchTypeMultipleSegments)
 			}
-			priority = n*m + r
-			dividerDigits = splitIndex + digitsToAdd
 		}
-
-		return priority
 	}
+	if multiplePathsMatcherSegmentsCount == 0 {
+		priority *= getDecimalDivider(MaxPathSegments - digitsCount)
+	}
+	return priority
 }
 
 func getDecimalDivider(zeroCount int) uint64 {
diff --git a/router/path/pattern.go b/router/path/pattern.go
index a1f8962..e0e8146 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -157,6 +157,9 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 				segment.captureVarName = segmentVal[1:colonStartIndex]
 				segment.captureVarPattern = regex
 			}
+			if pathSegmentsCount == MaxPathSegments {
+				return nil, fmt.Errorf("invalid path pattern: [%s], more than %d path segments", pathPattern, MaxPathSegments)
+			}
 			segments[pathSegmentsCount] = segment
 			pathSegmentsCount++
 		}
-- 
2.43.0


From 38415675bc758f265b5d2300b3aee8cfddd3926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:35 +0000
Subject: [PATCH 04/33] fix: select the most specific pattern independent of
 the registration order

The position of a node was given by the first pattern that created it, so the
selected handler changed with the order in which the patterns were declared.
---
 router/path/matcher.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 4e58ec6..f5d58c3 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -94,6 +94,10 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					if child.maxMatchableSegments < maxMatchableSegments {
 						child.maxMatchableSegments = maxMatchableSegments
 					}
+					if pattern.priority < child.priority {
+						child.priority = pattern.priority
+						m.sortChildren(currentNode)
+					}
 					currentNode = child
 					found = true
 					if currentNode.parent != nil {
@@ -115,16 +119,8 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 			if segmentIndex == segmentsLength-1 {
 				newNode.pattern = pattern
 			}
-			children = append(children, newNode)
-			sort.SliceStable(children, func(i, j int) bool {
-				iChild := children[i]
-				jChild := children[j]
-				if iChild.priority == jChild.priority {
-					return strings.Compare(iChild.segment.val, jChild.segment.val) <= 0
-				}
-				return iChild.priority < jChild.priority
-			})
-			currentNode.children = children
+			currentNode.children = append(children, newNode)
+			m.sortChildren(currentNode)
 			currentNode = newNode
 			newNode.maxMatchableSegments = maxMatchableSegments
 			inserted = true
@@ -145,6 +141,32 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 	return nil
 }
 
+// sortChildren sorts the children of a node from the most specific to the most generic.
+// The order depends only on the registered patterns and not on the order in which they were registered
+func (m *Matcher) sortChildren(n *node) {
+	sortVal := func(s *segment) string {
+		if s.matchType == MatchTypeConstraintCaptureVar {
+			return s.captureVarPattern.String()
+		}
+		if m.caseInsensitive {
+			return strings.ToLower(s.val)
+		}
+		return s.val
+	}
+	children := n.children
+	sort.SliceStable(children, func(i, j int) bool {
+		iChild := children[i]
+		jChild := children[j]
+		if iChild.segment.matchType != jChild.segment.matchType {
+			return iChild.segment.matchType < jChild.segment.matchType
+		}
+		if iChild.priority != jChild.priority {
+			return iChild.priority < jChild.priority
+		}
+		return sortVal(iChild.segment) < sortVal(jChild.segment)
+	})
+}
+
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) > MaxPathSegments {
 		return nil
-- 
2.43.0


From e623fe5c8b5080931bbc3a96fb457e7dd51073b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:04 +0000
Subject: [PATCH 05/33] fix: try every alternative before deciding that no
 pattern matches a path

The backtracking gave up too early: with the patterns /a/{x} and /{y} the path
/a was not found, and with /a/** and /a/**/e the path /a/b/c was not found. The
matching now keeps the set of positions that the current branch can reach, so
that the first leaf in the order of specificity which reaches the end wins.
---
 router/path/matcher.go | 153 ++++++++++++++++-------------------------
 1 file changed, 59 insertions(+), 94 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index f5d58c3..778e30c 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -2,15 +2,11 @@ package path
 
 import (
 	"errors"
+	"math/bits"
 	"sort"
 	"strings"
 )
 
-type stackSegment struct {
-	currentNodeChildren uint16
-	urlSegmentIndex     uint8
-}
-
 type node struct {
 	maxMatchableSegments uint8
 	priority             uint64
@@ -167,108 +163,77 @@ func (m *Matcher) sortChildren(n *node) {
 	})
 }
 
+// Match returns the most specific pattern that matches the path segments of the request or nil
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) > MaxPathSegments {
 		return nil
 	}
-	if len(mc.PathSegments) == 0 && m.rootPathMatcher != nil {
+	if len(mc.PathSegments) == 0 {
 		return m.rootPathMatcher
 	}
-	var treeDepth int
-	urlLen := uint8(len(mc.PathSegments))
-	nodeStack := make([]stackSegment, MaxPathSegments)
-	urlSegmentMatchTypeStack := make([]MatchType, MaxPathSegments)
-	currentNode := m.trieRoot
-	var urlSegmentIndex uint8
-	for urlSegmentIndex < urlLen {
-		var matched bool
-		urlSegment := &mc.PathSegments[urlSegmentIndex]
-		//urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-		if urlSegmentMatchTypeStack[urlSegmentIndex] != 0 {
-			urlSegment.matchType = urlSegmentMatchTypeStack[urlSegmentIndex]
-		}
 
-		children := currentNode.children
-		childrenLen := uint16(len(children))
-		for ci := nodeStack[treeDepth].currentNodeChildren; ci < childrenLen; ci++ {
-			childNode := children[ci]
-			if !childNode.canMatchPathWithLength(urlLen - urlSegmentIndex) {
-				continue
-			}
-			urlSegmentMatchType := childNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive)
-			if urlSegmentMatchType == MatchTypeMultipleSegments {
-				greedyChildren := childNode.children
-				greedyChildrenLen := len(greedyChildren)
-				if greedyChildrenLen == 0 && childNode.isLeaf() {
-					//fill until the end the remained URL segments with MatchTypeMultipleSegments match type
-					for i := urlSegmentIndex; i < urlLen; i++ {
-						urlSegment := &mc.PathSegments[i]
-						urlSegment.matchType = MatchTypeMultipleSegments
-					}
-					mc.matchedPattern = childNode.pattern
-					return childNode.pattern
-				}
-				for urlSegmentIndex < urlLen {
-					urlSegment := &mc.PathSegments[urlSegmentIndex]
-					urlSegment.matchType = MatchTypeMultipleSegments
-					for gci := 0; gci < greedyChildrenLen; gci++ {
-						greedyChildNode := greedyChildren[gci]
-						if greedyChildNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive) != MatchTypeUnknown {
-							nodeStack[treeDepth] = stackSegment{
-								currentNodeChildren: ci,
-								urlSegmentIndex:     urlSegmentIndex + 1,
-							}
-							urlSegmentMatchTypeStack[urlSegmentIndex] = MatchTypeMultipleSegments
-							matched = true
-							treeDepth++
-							urlSegmentIndex-- //the urlSegmentIndex should not be increased. We have to decrease it here because will be increased at the end of the main loop
-							currentNode = childNode
-							goto END
-						}
-					}
-					urlSegmentIndex++
-				}
-				return nil
-			} else if urlSegmentMatchType != MatchTypeUnknown {
-				urlSegment.matchType = urlSegmentMatchType
-				if urlSegmentIndex == urlLen-1 {
-					if childNode.isLeaf() {
-						mc.matchedPattern = childNode.pattern
-						return childNode.pattern
-					}
-					goto END
-				}
-				matched = true
-				urlSegment.matchType = urlSegmentMatchType
-				nodeStack[treeDepth] = stackSegment{
-					currentNodeChildren: ci + 1,
-					urlSegmentIndex:     urlSegmentIndex,
+	// reachable[depth] has the bit i set if the nodes from the current branch, up to that depth, match the first i URL segments
+	var reachable [MaxPathSegments + 1]uint32
+	reachable[0] = 1
+	matchedNode := m.findNode(urlPath, mc.PathSegments, m.trieRoot, 0, &reachable)
+	if matchedNode == nil {
+		return nil
+	}
+	setMatchTypes(mc.PathSegments, matchedNode, &reachable)
+	mc.matchedPattern = matchedNode.pattern
+	return matchedNode.pattern
+}
+
+// findNode returns the first leaf, in the order of specificity, that matches all the URL segments
+func (m *Matcher) findNode(urlPath string, urlSegments []UrlSegment, parent *node, depth int, reachable *[MaxPathSegments + 1]uint32) *node {
+	urlLen := len(urlSegments)
+	for _, child := range parent.children {
+		var matched uint32
+		if child.segment.matchType == MatchTypeMultipleSegments {
+			// all the positions starting with the first reachable one
+			matched = ^uint32(0) << bits.TrailingZeros32(reachable[depth]) & (1<<(urlLen+1) - 1)
+		} else {
+			for i := 0; i < urlLen; i++ {
+				if reachable[depth]&(1<<i) != 0 &&
+					child.canMatchPathWithLength(uint8(urlLen-i)) &&
+					child.segment.matchUrlPathSegment(urlPath, &urlSegments[i], m.caseInsensitive) != MatchTypeUnknown {
+					matched |= 1 << (i + 1)
 				}
-				treeDepth++
-				currentNode = childNode
-				goto END
 			}
 		}
+		if matched == 0 {
+			continue
+		}
+		reachable[depth+1] = matched
+		if found := m.findNode(urlPath, urlSegments, child, depth+1, reachable); found != nil {
+			return found
+		}
+		if child.isLeaf() && matched&(1<<urlLen) != 0 {
+			// a greedy segment at the end of the pattern should match at least one URL segment
+			if child.segment.matchType != MatchTypeMultipleSegments || reachable[depth]&(1<<urlLen-1) != 0 {
+				return child
+			}
+		}
+	}
+	return nil
+}
 
-	END:
-		if matched {
-			if urlSegmentIndex == urlLen-1 && currentNode.isLeaf() {
-				mc.matchedPattern = currentNode.pattern
-				return currentNode.pattern
+// setMatchTypes goes back on the matched branch and stores in every URL segment the type of the node that matched it
+func setMatchTypes(urlSegments []UrlSegment, matchedNode *node, reachable *[MaxPathSegments + 1]uint32) {
+	depth := 0
+	for n := matchedNode; n.parent != nil; n = n.parent {
+		depth++
+	}
+	pos := len(urlSegments)
+	for n := matchedNode; n.parent != nil; n = n.parent {
+		depth--
+		if n.segment.matchType == MatchTypeMultipleSegments {
+			for start := bits.TrailingZeros32(reachable[depth]); pos > start; pos-- {
+				urlSegments[pos-1].matchType = MatchTypeMultipleSegments
 			}
-			urlSegmentIndex++
 		} else {
-			if currentNode.parent != nil {
-				//stack cleanup
-				urlSegmentMatchTypeStack[urlSegmentIndex] = 0
-				nodeStack[treeDepth] = stackSegment{}
-				treeDepth--
-				urlSegmentIndex = nodeStack[treeDepth].urlSegmentIndex
-				currentNode = currentNode.parent
-			} else {
-				break
-			}
+			pos--
+			urlSegments[pos].matchType = n.segment.matchType
 		}
 	}
-	return nil
 }
-- 
2.43.0


From 84ed81f5dad4c4b48fb8e77605831086095b4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 06/33] fix: answer 404 for the request paths with more than 19
 segments

They were handled by the handler registered for /.
---
 router/path/matcher.go          |  2 +-
 router/path/matching_context.go | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 778e30c..ab2ba15 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -165,7 +165,7 @@ func (m *Matcher) sortChildren(n *node) {
 
 // Match returns the most specific pattern that matches the path segments of the request or nil
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
-	if len(mc.PathSegments) > MaxPathSegments {
+	if mc.tooManySegments || len(mc.PathSegments) > MaxPathSegments {
 		return nil
 	}
 	if len(mc.PathSegments) == 0 {
diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 065baea..c79c203 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -30,6 +30,8 @@ type MatchingContext struct {
 	R              *http.Request
 	matchedPattern *Pattern
 	PathSegments   []UrlSegment
+	// true if the request path has more than MaxPathSegments segments, in which case no pattern should match it
+	tooManySegments bool
 }
 
 func (mc *MatchingContext) Clone() MatchingContext {
@@ -44,9 +46,10 @@ func (mc *MatchingContext) Clone() MatchingContext {
 		}
 	}
 	return MatchingContext{
-		R:              mc.R,
-		matchedPattern: mc.matchedPattern,
-		PathSegments:   segments,
+		R:               mc.R,
+		matchedPattern:  mc.matchedPattern,
+		PathSegments:    segments,
+		tooManySegments: mc.tooManySegments,
 	}
 }
 
@@ -127,6 +130,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 			if segmentStartPos != -1 {
 				if !addSegment(segmentStartPos, pos) {
 					mc.PathSegments = nil
+					mc.tooManySegments = true
 					return
 				}
 			}
@@ -137,6 +141,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
 		if !addSegment(segmentStartPos, pathLen) {
 			mc.PathSegments = nil
+			mc.tooManySegments = true
 			return
 		}
 	}
-- 
2.43.0


From ec6b40bbd02496aaf87ab994969257cd39546eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:31 +0000
Subject: [PATCH 07/33] fix: keep the segment positions of the request paths
 longer than 64 KiB

The positions overflowed, so the request panicked or another part of the path
was matched.
---
 router/path/matching_context.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index c79c203..b7428b3 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -15,8 +15,8 @@ func (cv *CaptureVar) String() string {
 }
 
 type UrlSegment struct {
-	startIndex uint16
-	endIndex   uint16
+	startIndex uint32
+	endIndex   uint32
 	matchType  MatchType
 }
 
@@ -115,8 +115,8 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 				}
 
 				mc.PathSegments[segmentsIndex] = UrlSegment{
-					startIndex: uint16(startIndex),
-					endIndex:   uint16(endIndex),
+					startIndex: uint32(startIndex),
+					endIndex:   uint32(endIndex),
 				}
 				segmentsIndex++
 			}
-- 
2.43.0


From b4bfcb43d8079fa15b857933819ebbc15602577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:31 +0000
Subject: [PATCH 08/33] fix: concatenate the path prefix also when it equals
 the prefix of the parent

---
 gofre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index a971934..1198e2c 100644
--- a/gofre.go
+++ b/gofre.go
@@ -164,7 +164,7 @@ func (m *MuxHandler) Clone() *MuxHandler {
 // RouteUsingPathPrefix creates a new MuxHandler that will inherit all the settings from the parent, excepting the path prefix which will be concatenated to the parent path prefix.
 // One important aspect to the new MuxHandler is that, the new added common middlewares will not be shared with the parent.
 func (m *MuxHandler) RouteUsingPathPrefix(pathPrefix string) *MuxHandler {
-	if len(pathPrefix) == 0 || pathPrefix == m.pathPrefix {
+	if len(pathPrefix) == 0 {
 		return m
 	}
 	return &MuxHandler{
-- 
2.43.0


From c1a9f478b7101fc562f0b3e887b9d31eb67ddf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:48 +0000
Subject: [PATCH 09/33] fix: let a permission imply more specific scopes only
 through a trailing wildcard

---
 auth/auth.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auth/auth.go b/auth/auth.go
index 44a5e4a..5f51d70 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -101,6 +101,10 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 	if len(ipScopeParts) < len(pScopeParts) {
 		return false
 	}
+	// only a trailing wildcard covers the levels below
+	if len(ipScopeParts) > len(pScopeParts) && pScopeParts[len(pScopeParts)-1] != "*" {
+		return false
+	}
 
 	if p.Access&anotherPermission.Access != anotherPermission.Access {
 		return false
-- 
2.43.0


From a1d6f825eb6a38df5094434bfa8b6faaa00cb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:08 +0000
Subject: [PATCH 10/33] fix: refuse the cross-origin requests that are not
 allowed before they reach the handler

---
 middleware/cors.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index f59d445..a17876e 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -90,31 +90,37 @@ const (
 func Cors(config CorsConfig) Middleware {
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
+			requestType := getRequestType(mc.R)
+			// the handler should not run for the requests that are not allowed
+			if err := addCorsHeaders(requestType, mc.R, response.HttpHeaders{}, config); err != nil {
+				return nil, err
+			}
 			httpResponse, err := handler(ctx, mc)
 			if err != nil {
 				return nil, err
 			}
-			switch getRequestType(mc.R) {
-			case simpleCorsRequestType, actualCorsRequestType:
-				if err := addSimpleCorsHeaders(mc.R, httpResponse.Headers(), config); err != nil {
-					return nil, err
-				}
-				return httpResponse, nil
-			case preFlightCorsRequestType:
-				if err := addPreFlightCorsHeaders(mc.R, httpResponse.Headers(), config); err != nil {
-					return nil, err
-				}
-				return httpResponse, nil
-			case notCorsRequestType:
-				addStandardCorsHeaders(mc.R, httpResponse.Headers(), config)
-				return httpResponse, nil
-			default:
-				return nil, errors.ErrAccessDenied
+			if err := addCorsHeaders(requestType, mc.R, httpResponse.Headers(), config); err != nil {
+				return nil, err
 			}
+			return httpResponse, nil
 		}
 	}
 }
 
+func addCorsHeaders(requestType corsRequestType, r *http.Request, responseHeaders response.HttpHeaders, config CorsConfig) error {
+	switch requestType {
+	case simpleCorsRequestType, actualCorsRequestType:
+		return addSimpleCorsHeaders(r, responseHeaders, config)
+	case preFlightCorsRequestType:
+		return addPreFlightCorsHeaders(r, responseHeaders, config)
+	case notCorsRequestType:
+		addStandardCorsHeaders(r, responseHeaders, config)
+		return nil
+	default:
+		return errors.ErrAccessDenied
+	}
+}
+
 func addSimpleCorsHeaders(r *http.Request, responseHeaders response.HttpHeaders, config CorsConfig) error {
 	method := r.Method
 	origin := r.Header.Get(requestHeaderOrigin)
-- 
2.43.0


From c8bf8a840b2467b098da647ff9722d62b34396d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:23 +0000
Subject: [PATCH 11/33] fix: recognise the same-origin requests received by a
 server

---
 middleware/cors.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index a17876e..4b7e189 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -253,7 +253,7 @@ func getRequestType(r *http.Request) corsRequestType {
 	originHeader := r.Header.Get(requestHeaderOrigin)
 	if !isValidOrigin(originHeader) {
 		return invalidCorsRequestType
-	} else if isSameOrigin(r.URL, originHeader) {
+	} else if isSameOrigin(getRequestURL(r), originHeader) {
 		return notCorsRequestType
 	} else {
 		switch r.Method {
@@ -301,6 +301,19 @@ func isValidOrigin(origin string) bool {
 	return parse.Scheme != ""
 }
 
+// getRequestURL returns the absolute URL of the request
+// The URL of a request received by a server has neither scheme nor host, unless the client sent an absolute one
+func getRequestURL(r *http.Request) *url.URL {
+	if r.URL.Scheme != "" && r.URL.Host != "" {
+		return r.URL
+	}
+	scheme := "http"
+	if r.TLS != nil {
+		scheme = "https"
+	}
+	return &url.URL{Scheme: scheme, Host: r.Host}
+}
+
 func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	if reqUrl.Scheme == "" || reqUrl.Host == "" {
 		return false
-- 
2.43.0


From adba3f7d008dde7ed062ac8c9acee0ba359f4546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:02 +0000
Subject: [PATCH 12/33] fix: compare the port of the request with the one of
 the origin once

---
 middleware/cors.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index 4b7e189..6b78dc8 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -323,9 +323,8 @@ func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	var sb strings.Builder
 	sb.WriteString(scheme)
 	sb.WriteString("://")
-	sb.WriteString(reqUrl.Host)
-
 	port := reqUrl.Port()
+	sb.WriteString(strings.TrimSuffix(reqUrl.Host, ":"+port))
 	if port == "" {
 		if scheme == "https" || scheme == "wss" {
 			port = "443"
-- 
2.43.0


From ad33bb308971deb5cb3ba3d213ea71e9ec3f5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 13/33] fix: make the in-memory cache safe for concurrent
 requests

---
 cache/cache.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 75c262b..7368df1 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"sync"
+	"time"
+)
 
 // The Cache interface defines the methods that a cache implementation should have
 type Cache interface {
@@ -12,8 +15,9 @@ type Cache interface {
 	Contains(key string) bool
 }
 
-// InMemory is a simple Cache implementation used for testing and examples
+// InMemory is a simple Cache implementation used for testing and examples, which can be used by concurrent requests
 type InMemory struct {
+	mu    sync.RWMutex
 	cache map[string]time.Time
 }
 
@@ -22,15 +26,21 @@ func NewInMemory() *InMemory {
 }
 
 func (i *InMemory) Add(key string, expiresIn time.Duration) error {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.cache[key] = time.Now().Add(expiresIn)
 	return nil
 }
 
 func (i *InMemory) Remove(key string) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	delete(i.cache, key)
 }
 
 func (i *InMemory) Contains(key string) bool {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
 	t, found := i.cache[key]
 	return found && time.Now().Before(t)
 }
-- 
2.43.0


From e18df4e2ceed3c4684a454abe8610af9ea1c584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:23 +0000
Subject: [PATCH 14/33] fix: read the CSRF nonce from the request parameters
 also when they were not parsed

---
 middleware/csrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index 8e9dc85..dead3c4 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -47,7 +47,7 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 			if !skipNonceCheck {
 				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
 				if previousNonce == "" {
-					previousNonce = mc.R.Form.Get(csrfNonceRequestParamName)
+					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
 				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
 					return nil, errors.ErrAccessDenied
-- 
2.43.0


From 4a1b1537eefba6a337be33e2994487e547df1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 15/33] fix: let a CSRF nonce be used by only one of the
 concurrent requests

---
 middleware/csrf.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index dead3c4..a655571 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -12,6 +12,7 @@ import (
 	"github.com/ixtendio/gofre/response"
 	"net/http"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -23,6 +24,9 @@ const CSRFNonceCtxKey csrfCtxKey = 1
 const CSRFNonceRequestParamName = "_csrf"
 const CSRFRestNonceHeaderName = "X-Csrf-Token"
 
+// noncesInUse holds the nonces that are being checked, because checking a nonce and removing it from the cache are separate steps
+var noncesInUse sync.Map
+
 // GetCSRFNonceFromContext returns the CSRF nonce from the request context.Context
 func GetCSRFNonceFromContext(ctx context.Context) string {
 	if sp, ok := ctx.Value(CSRFNonceCtxKey).(string); ok {
@@ -49,10 +53,15 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 				if previousNonce == "" {
 					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
+				if _, inUse := noncesInUse.LoadOrStore(previousNonce, true); inUse {
+					return nil, errors.ErrAccessDenied
+				}
 				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
+					noncesInUse.Delete(previousNonce)
 					return nil, errors.ErrAccessDenied
 				}
 				nonceCache.Remove(previousNonce)
+				noncesInUse.Delete(previousNonce)
 			}
 
 			newNonce, err := generateNonce()
-- 
2.43.0


From 25f96190f34187a846109be165adc76431bf69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:16 +0000
Subject: [PATCH 16/33] fix: capitalise the first letter of an error message
 also when it is not ASCII

---
 response/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/response/json.go b/response/json.go
index 85a2a28..02aea27 100644
--- a/response/json.go
+++ b/response/json.go
@@ -7,6 +7,7 @@ import (
 
 	"net/http"
 	"strings"
+	"unicode/utf8"
 )
 
 const jsonContentType = "application/json"
@@ -112,5 +113,6 @@ func errorToString(err error) string {
 		return ""
 	}
 	errMsg := err.Error()
-	return strings.ToUpper(errMsg[0:1]) + errMsg[1:]
+	_, firstLen := utf8.DecodeRuneInString(errMsg)
+	return strings.ToUpper(errMsg[0:firstLen]) + errMsg[firstLen:]
 }
-- 
2.43.0


From bc9aa8689fd8deb19d90ee536eb7f102667cda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:34 +0000
Subject: [PATCH 17/33] fix: forget the header and cookie maps of a response
 once they are back in the pool

---
 response/headers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response/headers.go b/response/headers.go
index 37cfb76..1f0d717 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -39,9 +39,11 @@ func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingConte
 	defer func() {
 		if r.HttpHeaders != nil {
 			r.HttpHeaders.Release()
+			r.HttpHeaders = nil
 		}
 		if r.HttpCookies != nil {
 			r.HttpCookies.Release()
+			r.HttpCookies = nil
 		}
 	}()
 
-- 
2.43.0


From 723efe4a919ea6645f89eaf508216a1c714fb401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:34 +0000
Subject: [PATCH 18/33] fix: send the headers and cookies of the redirect
 responses

---
 response/redirect.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/response/redirect.go b/response/redirect.go
index 634adf3..681a8d6 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -12,6 +12,24 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+	// Write the cookies
+	if r.HttpCookies != nil {
+		for _, cookie := range r.HttpCookies {
+			http.SetCookie(w, cookie)
+		}
+		r.HttpCookies.Release()
+		r.HttpCookies = nil
+	}
+
+	// Write the headers
+	if r.HttpHeaders != nil {
+		for k, v := range r.HttpHeaders {
+			w.Header().Set(k, v)
+		}
+		r.HttpHeaders.Release()
+		r.HttpHeaders = nil
+	}
+
 	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
 	return nil
 }
-- 
2.43.0


From 5296af6611af38e5c2ce7cec2b26e9d206600380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:45 +0000
Subject: [PATCH 19/33] fix: compress only the responses that have a body and
 no content encoding and keep their content type, flushing and hijacking

---
 response/compress.go | 186 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 163 insertions(+), 23 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index 9e3c587..62b89d4 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -1,11 +1,13 @@
 package response
 
 import (
+	"bufio"
 	"compress/flate"
 	"compress/gzip"
 	"errors"
 	"github.com/ixtendio/gofre/router/path"
 
+	"net"
 	"net/http"
 	"strings"
 )
@@ -47,28 +49,17 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 	// detect what compression algorithm to use
 	compressAlg := getCompressionAlgorithmFromHeaderValue(mc.R.Header.Get(acceptEncodingHeaderName))
 
-	if compressAlg == "gzip" {
-		cw, err := gzip.NewWriterLevel(w, r.compressionLevel)
-		if err == nil {
-			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
-				origResponseWriter: w,
-				compressWriter:     cw,
-			}
-			defer cw.Close()
+	if compressAlg != "" {
+		cw := &compressResponseWriter{
+			origResponseWriter: w,
+			compressAlg:        compressAlg,
+			compressionLevel:   r.compressionLevel,
 		}
-	} else if compressAlg == "deflate" {
-		cw, err := flate.NewWriter(w, r.compressionLevel)
-		if err == nil {
-			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
-				origResponseWriter: w,
-				compressWriter:     cw,
-			}
-			defer cw.Close()
+		err := r.httpResponse.Write(cw, mc)
+		if closeErr := cw.Close(); err == nil {
+			err = closeErr
 		}
+		return err
 	}
 	return r.httpResponse.Write(w, mc)
 }
@@ -93,10 +84,24 @@ func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string)
 type compressWriter interface {
 	Write(bytes []byte) (int, error)
 	Flush() error
+	Close() error
 }
 
+// the number of bytes that http.DetectContentType considers
+const sniffLen = 512
+
+// compressResponseWriter delays sending the status code and the headers until the first body bytes are known, because
+// only then it can be decided if the response is compressed: a response without a body, or one that has already a
+// content encoding, is not, and the content type, if it is missing, has to be detected from the uncompressed bytes
 type compressResponseWriter struct {
 	origResponseWriter http.ResponseWriter
+	compressAlg        string
+	compressionLevel   int
+	statusCode         int
+	header             http.Header
+	buf                []byte
+	committed          bool
+	hijacked           bool
 	compressWriter     compressWriter
 }
 
@@ -105,13 +110,148 @@ func (c *compressResponseWriter) Header() http.Header {
 }
 
 func (c *compressResponseWriter) Write(bytes []byte) (int, error) {
-	return c.compressWriter.Write(bytes)
+	if c.statusCode == 0 {
+		c.WriteHeader(http.StatusOK)
+	}
+	if !c.committed && len(bytes) > 0 {
+		if c.isContentTypeMissing() && len(c.buf)+len(bytes) < sniffLen {
+			c.buf = append(c.buf, bytes...)
+			return len(bytes), nil
+		}
+		if err := c.commit(bytes); err != nil {
+			return 0, err
+		}
+	}
+	if c.compressWriter != nil {
+		return c.compressWriter.Write(bytes)
+	}
+	if !c.committed {
+		return 0, nil
+	}
+	return c.origResponseWriter.Write(bytes)
 }
 
 func (c *compressResponseWriter) WriteHeader(statusCode int) {
-	c.origResponseWriter.WriteHeader(statusCode)
+	if c.statusCode != 0 || c.hijacked {
+		return
+	}
+	if statusCode >= 100 && statusCode <= 199 && statusCode != http.StatusSwitchingProtocols {
+		// informational headers
+		c.origResponseWriter.WriteHeader(statusCode)
+		return
+	}
+	c.statusCode = statusCode
+	// the headers can not be changed after this call
+	c.header = c.Header().Clone()
 }
 
 func (c *compressResponseWriter) Flush() {
-	c.compressWriter.Flush()
+	if c.statusCode == 0 {
+		c.WriteHeader(http.StatusOK)
+	}
+	if c.commit(nil) != nil {
+		return
+	}
+	if c.compressWriter != nil {
+		c.compressWriter.Flush()
+	}
+	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
+		flusher.Flush()
+	}
+}
+
+// Hijack implements http.Hijacker, a hijacked connection is not compressed
+func (c *compressResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	hj, ok := c.origResponseWriter.(http.Hijacker)
+	if !ok {
+		return nil, nil, errors.New("the current http.ResponseWriter doesn't support hijack functionality")
+	}
+	if c.statusCode != 0 && !c.committed {
+		c.sendHeader()
+	}
+	conn, rw, err := hj.Hijack()
+	c.hijacked = err == nil
+	return conn, rw, err
+}
+
+// Close sends what is still pending and ends the compressed body
+func (c *compressResponseWriter) Close() error {
+	if c.hijacked || c.statusCode == 0 {
+		return nil
+	}
+	if !c.committed && len(c.buf) == 0 {
+		// there is no body to compress
+		c.sendHeader()
+		return nil
+	}
+	if err := c.commit(nil); err != nil {
+		return err
+	}
+	if c.compressWriter != nil {
+		return c.compressWriter.Close()
+	}
+	return nil
+}
+
+// commit decides if the body is compressed, sends the headers and the bytes that were kept until now.
+// The next argument holds the bytes that follow them.
+func (c *compressResponseWriter) commit(next []byte) error {
+	if c.committed {
+		return nil
+	}
+	bodyAllowed := c.statusCode >= 200 && c.statusCode != http.StatusNoContent && c.statusCode != http.StatusNotModified
+	if bodyAllowed && c.header.Get(contentEncodingHeaderName) == "" {
+		var cw compressWriter
+		var err error
+		if c.compressAlg == "gzip" {
+			cw, err = gzip.NewWriterLevel(c.origResponseWriter, c.compressionLevel)
+		} else {
+			cw, err = flate.NewWriter(c.origResponseWriter, c.compressionLevel)
+		}
+		if err == nil {
+			if c.isContentTypeMissing() && len(c.buf)+len(next) > 0 {
+				c.header.Set(HeaderContentType, http.DetectContentType(append(c.buf[:len(c.buf):len(c.buf)], next...)))
+			}
+			c.header.Set(contentEncodingHeaderName, c.compressAlg)
+			c.header.Del("Content-Length")
+			c.compressWriter = cw
+		}
+	}
+	c.sendHeader()
+
+	buf := c.buf
+	c.buf = nil
+	if len(buf) == 0 {
+		return nil
+	}
+	_, err := c.Write(buf)
+	return err
+}
+
+// sendHeader sends the status code together with the headers that were set when WriteHeader was called
+func (c *compressResponseWriter) sendHeader() {
+	c.committed = true
+	header := c.Header()
+	current := header.Clone()
+	replaceHeader(header, c.header)
+	c.origResponseWriter.WriteHeader(c.statusCode)
+	// the changes that were made later might be trailers
+	replaceHeader(header, current)
+	if c.compressWriter != nil {
+		header.Set(contentEncodingHeaderName, c.compressAlg)
+	}
+}
+
+func (c *compressResponseWriter) isContentTypeMissing() bool {
+	_, found := c.header[HeaderContentType]
+	return !found && c.header.Get("Transfer-Encoding") == ""
+}
+
+func replaceHeader(dst http.Header, src http.Header) {
+	for k := range dst {
+		delete(dst, k)
+	}
+	for k, v := range src {
+		dst[k] = v
+	}
 }
-- 
2.43.0


From e9e5f2291be193cd57d872bcfbbb0d9e1f4e8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:47 +0000
Subject: [PATCH 20/33] fix: let the middlewares add headers to the response
 that hijacks the connection

---
 response/response.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/response/response.go b/response/response.go
index 14c92b4..6327909 100644
--- a/response/response.go
+++ b/response/response.go
@@ -24,7 +24,11 @@ var httpHeadersPool = sync.Pool{
 // HttpHeaders is a map with custom headers
 type HttpHeaders map[string]string
 
+// Set sets a header, the responses that can not carry headers have a nil map that ignores it
 func (h HttpHeaders) Set(key string, val string) {
+	if h == nil {
+		return
+	}
 	h[key] = val
 }
 
@@ -55,7 +59,11 @@ var httpCookiesPool = sync.Pool{
 // HttpCookies is a map with custom cookies
 type HttpCookies map[string]*http.Cookie
 
+// Add adds the cookies, the responses that can not carry cookies have a nil map that ignores them
 func (c HttpCookies) Add(cookies ...*http.Cookie) {
+	if c == nil {
+		return
+	}
 	for i := 0; i < len(cookies); i++ {
 		cookie := cookies[i]
 		if cookie != nil {
-- 
2.43.0


From 5651251e1ad25b3ddc125675a5755434f0e939f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 21/33] fix: send the Cache-Control and Connection headers of
 the event streams

---
 response/sse.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index f679c02..465ef72 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -73,15 +73,16 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 		return ErrNotHttp2Request
 	}
 
+	// these headers have to be set before the status code is sent
+	header := w.Header()
+	header.Set("Cache-Control", "no-cache")
+	header.Set("Connection", "keep-alive")
+
 	// write the headers
 	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
 		return err
 	}
 
-	header := w.Header()
-	header.Set("Cache-Control", "no-cache")
-	header.Set("Connection", "keep-alive")
-
 	defer r.flushResponse(w)
 	// get the last event id that was sent
 	lastEventId := mc.R.Header.Get(headerLastEventId)
-- 
2.43.0


From ac22dda5f80f18c7096c757829bce160bc12e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 22/33] fix: send every line of the event data in its own data
 field

---
 response/sse.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/response/sse.go b/response/sse.go
index 465ef72..b8be8cf 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -35,7 +35,7 @@ func (evt ServerSentEvent) String() string {
 		sb.WriteString(evt.Name)
 		startDataWithNewLine = true
 	}
-	for _, data := range evt.Data {
+	for _, data := range splitLines(evt.Data) {
 		if !startDataWithNewLine {
 			sb.WriteString("data: ")
 			startDataWithNewLine = true
@@ -61,6 +61,17 @@ func (evt ServerSentEvent) String() string {
 // The EventGenerator is a function that received a cancellation context.Context and the last event id received by the client and returns a channel of ServerSentEvent objects
 type EventGenerator func(ctx context.Context, lastEventId string) <-chan ServerSentEvent
 
+// splitLines returns the lines of the data, because a line break inside a data field ends the field
+func splitLines(data []string) []string {
+	var lines []string
+	for _, d := range data {
+		d = strings.ReplaceAll(d, "\r\n", "\n")
+		d = strings.ReplaceAll(d, "\r", "\n")
+		lines = append(lines, strings.Split(d, "\n")...)
+	}
+	return lines
+}
+
 // HttpSSEResponse implements response.HttpResponse and provides support for SSE
 type HttpSSEResponse struct {
 	HttpHeadersResponse
-- 
2.43.0


From d593e3d77a78edea086d705cf25784bd05f6e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:03 +0000
Subject: [PATCH 23/33] fix: recover also from panic(nil)

---
 middleware/panic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/panic.go b/middleware/panic.go
index 64c7325..82ada3b 100644
--- a/middleware/panic.go
+++ b/middleware/panic.go
@@ -14,12 +14,15 @@ import (
 func PanicRecover() Middleware {
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
+			// recover returns nil also for panic(nil), depending on the Go version
+			panicked := true
 			defer func() {
-				if r := recover(); r != nil {
+				if r := recover(); r != nil || panicked {
 					err = fmt.Errorf("recover from panic, stack: [%s]", string(debug.Stack()))
 				}
 			}()
 			resp, err = handler(ctx, mc)
+			panicked = false
 			return resp, err
 		}
 	}
-- 
2.43.0


From 34583fc1804ff2bbc79551d17cbb185e0f584b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:04 +0000
Subject: [PATCH 24/33] fix: build the values of the security headers before
 the requests share them

---
 middleware/security.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/middleware/security.go b/middleware/security.go
index 968f0ce..dbf79c6 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -80,6 +80,9 @@ type SecurityHeadersConfig struct {
 
 // SecurityHeaders provides some security HTTP headers to the response
 func SecurityHeaders(config SecurityHeadersConfig) Middleware {
+	// the values are built here, because the requests that share them run concurrently
+	config.STS.getHeaderValue()
+	config.ClickJacking.getAntiClickJackingHeaderValue()
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 			httpResponse, err := handler(ctx, mc)
-- 
2.43.0


From 115a8a7edf97370e4481799e32399f5749b430b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:05 +0000
Subject: [PATCH 25/33] fix: derive the X-Frame-Options header from the
 configured option

---
 middleware/security.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/middleware/security.go b/middleware/security.go
index dbf79c6..76e2739 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -57,11 +57,26 @@ type ShClickJackingConfig struct {
 	headerValue             string
 }
 
+// headerValue returns the directive of the X-Frame-Options header
+func (o XFrameOption) headerValue() string {
+	switch o {
+	case XFrameOptionSameOrigin:
+		return "SAMEORIGIN"
+	case XFrameOptionAllowFrom:
+		return "ALLOW-FROM"
+	default:
+		return "DENY"
+	}
+}
+
 // Anti click-jacking
 func (c *ShClickJackingConfig) getAntiClickJackingHeaderValue() string {
 	if c.headerValue == "" {
 		var sb strings.Builder
 		sb.WriteString(c.XFrameOptionHeaderValue)
+		if sb.Len() == 0 {
+			sb.WriteString(c.XFrameOption.headerValue())
+		}
 		if c.XFrameOption == XFrameOptionAllowFrom {
 			sb.WriteRune(' ')
 			sb.WriteString(c.XFrameAllowFromUri)
-- 
2.43.0


From 2ab9b112abc95ceeeaea9778cd661f3652193926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 26/33] fix: request the user scopes from GitHub also without
 other scopes and never change the configured scopes

---
 auth/oauth/github.go | 4 ++--
 auth/oauth/google.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 9eaac47..d090e34 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -40,7 +40,7 @@ func (p GitHubProvider) Name() string {
 }
 
 func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	scopes := append([]string(nil), p.Scopes...)
 	if includeUserInfoProfileScope {
 		scopes = append(scopes, GitHubUserInfoProfileScopes...)
 	}
@@ -53,7 +53,7 @@ func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUse
 	if p.Login != "" {
 		urlValues.Add("login", p.Login)
 	}
-	if len(p.Scopes) > 0 {
+	if len(scopes) > 0 {
 		urlValues.Add("scope", strings.Join(scopes, " "))
 	}
 	return GitHubAuthorizeEndpoint + "?" + urlValues.Encode()
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index aadd90f..89ae63a 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -46,7 +46,7 @@ func (p GoogleProvider) Name() string {
 }
 
 func (p GoogleProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	scopes := append([]string(nil), p.Scopes...)
 	if includeUserInfoProfileScope {
 		//openid email profile
 		scopes = append(scopes, GoogleUserInfoScopes...)
-- 
2.43.0


From 77651e4e96481d9f0e2963d65ac15dcb37779658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:54 +0000
Subject: [PATCH 27/33] fix: return an error for the OAuth2 provider responses
 without access token or user identity

---
 auth/oauth/github.go | 6 +++---
 auth/oauth/google.go | 6 +++---
 auth/oauth/oauth2.go | 6 ++++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index d090e34..6c59f63 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -82,7 +82,7 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to decode the OAUTH2 access token response from: %s, err: %w", p.Name(), err)
 	}
 
-	if resp.StatusCode/100 == 2 {
+	if resp.StatusCode/100 == 2 && hasText(result, "access_token") && hasText(result, "token_type") {
 		accessToken := AccessToken{
 			AccessToken: result["access_token"].(string),
 			TokenType:   result["token_type"].(string),
@@ -121,10 +121,10 @@ func (p GitHubProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 		return auth.User{}, fmt.Errorf("failed to decode the user details response from: %s, err: %w", p.Name(), err)
 	}
 
-	if resp.StatusCode/100 == 2 {
+	if resp.StatusCode/100 == 2 && (hasText(result, "email") || hasText(result, "login")) {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
 		} else {
 			id = result["login"].(string)
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index 89ae63a..fab0c93 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -103,7 +103,7 @@ func (p GoogleProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to decode the OAUTH2 access token response from: %s, err: %w", p.Name(), err)
 	}
 
-	if resp.StatusCode/100 == 2 {
+	if resp.StatusCode/100 == 2 && hasText(result, "access_token") && hasText(result, "token_type") {
 		accessToken := AccessToken{
 			AccessToken: result["access_token"].(string),
 			TokenType:   result["token_type"].(string),
@@ -150,10 +150,10 @@ func (p GoogleProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 		return auth.User{}, fmt.Errorf("failed to decode the user details response from: %s, err: %w", p.Name(), err)
 	}
 
-	if resp.StatusCode/100 == 2 {
+	if resp.StatusCode/100 == 2 && (hasText(result, "email") || hasText(result, "id")) {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
 		} else {
 			id = result["id"].(string)
diff --git a/auth/oauth/oauth2.go b/auth/oauth/oauth2.go
index bf18dfc..16ebfeb 100644
--- a/auth/oauth/oauth2.go
+++ b/auth/oauth/oauth2.go
@@ -53,6 +53,12 @@ type Config struct {
 	CacheConfig
 }
 
+// hasText returns true if the field of a provider response is a non-empty string
+func hasText(result map[string]interface{}, field string) bool {
+	text, _ := result[field].(string)
+	return text != ""
+}
+
 // GetProviderByName returns a Provider with the specified name, otherwise nil
 func (c Config) GetProviderByName(providerName string) Provider {
 	for _, p := range c.Providers {
-- 
2.43.0


From 1178d95fea54b9ae4be8a1f9109db2c376dab9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:41 +0000
Subject: [PATCH 28/33] fix: compare letters of different UTF-8 lengths when
 the letter case is ignored
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

In a case insensitive router, a literal segment was compared only with URL
segments having the same number of bytes, so /Ⱥ was not found by /ⱥ.
---
 router/path/pattern.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index e0e8146..2cfb83e 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -6,7 +6,6 @@ import (
 	"math"
 	"regexp"
 	"strings"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -22,16 +21,15 @@ type segment struct {
 func (s *segment) matchUrlPathSegment(urlPath string, urlSegment *UrlSegment, caseInsensitive bool) MatchType {
 	matchType := s.matchType
 	if matchType == MatchTypeLiteral {
-		if int(urlSegment.endIndex-urlSegment.startIndex) == len(s.val) {
-			urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-			if caseInsensitive {
-				if strings.EqualFold(urlSegmentVal, s.val) {
-					return MatchTypeLiteral
-				}
-			} else {
-				if urlSegmentVal == s.val {
-					return MatchTypeLiteral
-				}
+		urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
+		if caseInsensitive {
+			// the lower and the upper case of a letter may have different lengths in UTF-8
+			if strings.EqualFold(urlSegmentVal, s.val) {
+				return MatchTypeLiteral
+			}
+		} else {
+			if urlSegmentVal == s.val {
+				return MatchTypeLiteral
 			}
 		}
 		return MatchTypeUnknown
@@ -190,7 +188,7 @@ func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensi
 	pIndexCheckPoint := -1
 	uIndexCheckPoint := -1
 	for uIndex < len(urlPathSegment) {
-		uc, uSize := utf8.DecodeRuneInString(urlPathSegment[uIndex:])
+		_, uSize := utf8.DecodeRuneInString(urlPathSegment[uIndex:])
 		if pIndex < len(patternSegment) {
 			pc, pSize := utf8.DecodeRuneInString(patternSegment[pIndex:])
 			if pc == '*' {
@@ -201,7 +199,7 @@ func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensi
 			}
 			if pc == '?' ||
 				urlPathSegment[uIndex:uIndex+uSize] == patternSegment[pIndex:pIndex+pSize] ||
-				(caseInsensitive && unicode.ToUpper(uc) == unicode.ToUpper(pc)) {
+				(caseInsensitive && strings.EqualFold(urlPathSegment[uIndex:uIndex+uSize], patternSegment[pIndex:pIndex+pSize])) {
 				pIndex += pSize
 				uIndex += uSize
 				continue
-- 
2.43.0


From 8f7cbbfd9ad477de404631f88c357bfa03d567d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 29/33] fix: draw the OAuth2 state from a cryptographic random
 source

---
 gofre.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gofre.go b/gofre.go
index 1198e2c..9f510da 100644
--- a/gofre.go
+++ b/gofre.go
@@ -2,6 +2,7 @@ package gofre
 
 import (
 	"context"
+	"crypto/rand"
 	"expvar"
 	"fmt"
 	"github.com/ixtendio/gofre/auth"
@@ -15,7 +16,7 @@ import (
 	"github.com/ixtendio/gofre/router"
 	"html/template"
 	"log"
-	"math/rand"
+	"math/big"
 	"net/http"
 	"net/http/pprof"
 	"unsafe"
@@ -358,7 +359,12 @@ var uniqueIdFunc = generateUniqueId
 func generateUniqueId(length int) string {
 	b := make([]byte, length)
 	for i := range b {
-		b[i] = randLetters[rand.Int63()%int64(len(randLetters))]
+		// the value protects the OAUTH2 flow, so it should not be predictable
+		n, err := rand.Int(rand.Reader, big.NewInt(int64(len(randLetters))))
+		if err != nil {
+			panic(fmt.Sprintf("failed to generate a random value, err: %v", err))
+		}
+		b[i] = randLetters[n.Int64()]
 	}
 	return *(*string)(unsafe.Pointer(&b))
 }
-- 
2.43.0


From 562be94d85019cdcc227fa2e074fcad231abd5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 30/33] fix: serve the debug profiles also under a path prefix

---
 gofre.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gofre.go b/gofre.go
index 9f510da..7373cf2 100644
--- a/gofre.go
+++ b/gofre.go
@@ -321,12 +321,12 @@ func (m *MuxHandler) resolvePath(path string) string {
 func (m MuxHandler) EnableDebugEndpoints() {
 	// Register all the standard library debug endpoints.
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.HandlerFunc2Handler(pprof.Index))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.Handler2Handler(pprof.Handler("allocs")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.Handler2Handler(pprof.Handler("block")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.Handler2Handler(pprof.Handler("goroutine")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.Handler2Handler(pprof.Handler("heap")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.Handler2Handler(pprof.Handler("mutex")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.Handler2Handler(pprof.Handler("threadcreate")))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/cmdline"), handler.HandlerFunc2Handler(pprof.Cmdline))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/profile"), handler.HandlerFunc2Handler(pprof.Profile))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/symbol"), handler.HandlerFunc2Handler(pprof.Symbol))
-- 
2.43.0


From 8ebbbc5488a007367edb7998f40d5abda4de57a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 31/33] fix: apply the common middlewares to the debug
 endpoints

---
 gofre.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gofre.go b/gofre.go
index 7373cf2..7732ed3 100644
--- a/gofre.go
+++ b/gofre.go
@@ -320,18 +320,18 @@ func (m *MuxHandler) resolvePath(path string) string {
 // EnableDebugEndpoints enable debug endpoints
 func (m MuxHandler) EnableDebugEndpoints() {
 	// Register all the standard library debug endpoints.
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.Handler2Handler(pprof.Handler("allocs")))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.Handler2Handler(pprof.Handler("block")))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.Handler2Handler(pprof.Handler("goroutine")))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.Handler2Handler(pprof.Handler("heap")))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.Handler2Handler(pprof.Handler("mutex")))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.Handler2Handler(pprof.Handler("threadcreate")))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/cmdline"), handler.HandlerFunc2Handler(pprof.Cmdline))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/profile"), handler.HandlerFunc2Handler(pprof.Profile))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/symbol"), handler.HandlerFunc2Handler(pprof.Symbol))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/trace"), handler.HandlerFunc2Handler(pprof.Trace))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/vars"), handler.Handler2Handler(expvar.Handler()))
+	m.HandleGet("/debug/pprof/", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/allocs", handler.Handler2Handler(pprof.Handler("allocs")))
+	m.HandleGet("/debug/pprof/block", handler.Handler2Handler(pprof.Handler("block")))
+	m.HandleGet("/debug/pprof/goroutine", handler.Handler2Handler(pprof.Handler("goroutine")))
+	m.HandleGet("/debug/pprof/heap", handler.Handler2Handler(pprof.Handler("heap")))
+	m.HandleGet("/debug/pprof/mutex", handler.Handler2Handler(pprof.Handler("mutex")))
+	m.HandleGet("/debug/pprof/threadcreate", handler.Handler2Handler(pprof.Handler("threadcreate")))
+	m.HandleGet("/debug/pprof/cmdline", handler.HandlerFunc2Handler(pprof.Cmdline))
+	m.HandleGet("/debug/pprof/profile", handler.HandlerFunc2Handler(pprof.Profile))
+	m.HandleGet("/debug/pprof/symbol", handler.HandlerFunc2Handler(pprof.Symbol))
+	m.HandleGet("/debug/pprof/trace", handler.HandlerFunc2Handler(pprof.Trace))
+	m.HandleGet("/debug/vars", handler.Handler2Handler(expvar.Handler()))
 }
 
 func (m *MuxHandler) ServeHTTP(w http.ResponseWriter, req *http.Request) {
-- 
2.43.0


From eb9fbd89bda36295e3037ab111c80536e7143fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 32/33] fix: dump the request as it was before processing

---
 middleware/dump.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/middleware/dump.go b/middleware/dump.go
index 0217f7f..3377d6d 100644
--- a/middleware/dump.go
+++ b/middleware/dump.go
@@ -8,6 +8,7 @@ import (
 	"github.com/ixtendio/gofre/router/path"
 
 	"github.com/ixtendio/gofre/response"
+	"net/http"
 	"time"
 	"unsafe"
 )
@@ -29,8 +30,9 @@ func RequestDumper(logger func(val string)) Middleware {
 			requestMap["contentLength"] = mc.R.ContentLength
 			requestMap["host"] = mc.R.Host
 			requestMap["isSecure"] = mc.R.TLS != nil
-			requestMap["header"] = mc.R.Header
-			requestMap["formFields"] = mc.R.Form
+			// the handler might change the header and the form, so they are copied
+			requestMap["header"] = mc.R.Header.Clone()
+			requestMap["formFields"] = http.Header(mc.R.Form).Clone()
 			var cookies []string
 			for _, c := range mc.R.Cookies() {
 				if c != nil {
-- 
2.43.0


From 1280a063230fc2dd939d52dd4ebb39b1a18fdf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:42 +0000
Subject: [PATCH 33/33] fix: static assets are found by every spelling of their
 path that the router accepts

The router takes /assets//a.txt, /x/../assets/a.txt, /%61ssets/a.txt and, if the path match is case-insensitive,
/ASSETS/a.txt for paths below /assets, but http.StripPrefix refused them with 404.
---
 gofre.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index 7732ed3..6d8b1b9 100644
--- a/gofre.go
+++ b/gofre.go
@@ -19,6 +19,8 @@ import (
 	"math/big"
 	"net/http"
 	"net/http/pprof"
+	gopath "path"
+	"strings"
 	"unsafe"
 )
 
@@ -130,7 +132,7 @@ func NewMuxHandler(config *Config) (*MuxHandler, error) {
 		}
 		assetsPath := config.ResourcesConfig.AssetsMappingPath
 		assetsDirPath := config.ResourcesConfig.AssetsDirPath
-		r.Handle(http.MethodGet, contextPath+"/"+assetsPath+"/**", handler.Handler2Handler(http.StripPrefix(contextPath+"/"+assetsPath+"/", http.FileServer(http.Dir(assetsDirPath)))))
+		r.Handle(http.MethodGet, contextPath+"/"+assetsPath+"/**", handler.Handler2Handler(stripAssetsPrefix(contextPath+"/"+assetsPath+"/", http.FileServer(http.Dir(assetsDirPath)))))
 	}
 	return &MuxHandler{
 		router:    r,
@@ -138,6 +140,27 @@ func NewMuxHandler(config *Config) (*MuxHandler, error) {
 	}, nil
 }
 
+// stripAssetsPrefix removes the prefix from the request path, like http.StripPrefix, but it accepts all the spellings of
+// the prefix that the router accepts: with repeated slashes, dot segments, escaped or in other letter case
+func stripAssetsPrefix(prefix string, h http.Handler) http.Handler {
+	segmentsCount := strings.Count(prefix, "/")
+	stripPrefix := http.StripPrefix(prefix, h)
+	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		segments := strings.SplitN(gopath.Clean("/"+r.URL.Path), "/", segmentsCount+1)
+		if len(segments) > segmentsCount && strings.EqualFold(strings.Join(segments[:segmentsCount], "/")+"/", prefix) {
+			urlPath := prefix + segments[segmentsCount]
+			switch r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:] {
+			case "", ".", "..":
+				urlPath += "/"
+			}
+			r = r.Clone(r.Context())
+			r.URL.Path = urlPath
+			r.URL.RawPath = ""
+		}
+		stripPrefix.ServeHTTP(w, r)
+	})
+}
+
 // Config returns a Config copy
 func (m *MuxHandler) Config() Config {
 	return *m.webConfig
-- 
2.43.0

