From 39c28ddad3b72c2144e7a38fdb81ee806e3249dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 01/30] fix: Exchange panicked on every list of two or more
 entries

---
 base/transformers.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index e0085d5..534d3fe 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -152,8 +152,7 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 	if 2 <= length {
 		w := make(AstSlice, 0, length)
 		w = append(w, asts[:length-2]...)
-		w[length-2] = asts[length-1]
-		w[length-1] = asts[length-2]
+		w = append(w, asts[length-1], asts[length-2])
 		return w, nil
 	} else {
 		return asts, nil
-- 
2.43.0


From 4ddf0489fb57a83a36dd1a1274eb14cea130679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 02/30] fix: Roll was documented but returned the list
 unchanged

---
 base/transformers.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 534d3fe..40ac0ff 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -174,19 +174,16 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 func Roll(n int) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
 		length := len(asts)
-		if 0 <= n {
-			if n < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
-		} else {
-			m := -n
-			if m < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
+		if length == 0 {
+			return asts, nil
 		}
+		m := n % length
+		if m < 0 {
+			m += length
+		}
+		w := make(AstSlice, 0, length)
+		w = append(w, asts[m:]...)
+		w = append(w, asts[:m]...)
+		return w, nil
 	}
 }
-- 
2.43.0


From 00274751bf135f7978c0c2c675b4f76b82754b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 03/30] fix: object Seq matched even when an element differed

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 128ed79..4773af8 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -53,7 +53,7 @@ func Seq(seq ...interface{}) ParserFn {
 			w := ctx.Slice.Reslice(ctx.Position, ctx.Position+length)
 			for i := 0; i < length; i++ {
 				if !w.ItemEquals(w.Get(i), seq[i]) {
-					break
+					return ctx, nil
 				}
 			}
 			ctx.AstStack = append(ctx.AstStack, Ast{
-- 
2.43.0


From ebe957ff63cdae9ff7dd5cd17da49f6cf25266c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 04/30] fix: object Seq yielded a view of the source slice
 instead of its values

Under a production rule the source slice is the AST stack itself, so the
value was overwritten by the entry that holds it.
---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 4773af8..be98290 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -59,7 +59,7 @@ func Seq(seq ...interface{}) ParserFn {
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_ListOfAny,
-				Value:          w,
+				Value:          ctx.Slice.Copy(ctx.Position, ctx.Position+length),
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-- 
2.43.0


From ced8d566baf0fc6427ab05733df0d744b38b3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 05/30] fix: ObjClassN tagged arbitrary values as String

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index be98290..075f8e2 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -113,7 +113,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
-				Type:           AstType_String,
+				Type:           AstType_Any,
 				Value:          w,
 				SourcePosition: ctx.SourcePosition,
 			})
-- 
2.43.0


From 1e3a39022faf4a2a76e10d4da8cd189cbde930b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 06/30] fix: IntFromRune tagged its int64 value as String

---
 string/transformers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/transformers.go b/string/transformers.go
index e141100..7f06ecb 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -168,7 +168,7 @@ func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 func IntFromRune(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
-		Type:           AstType_String,
+		Type:           AstType_Int,
 		Value:          int64(asts[0].Value.(rune)),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
-- 
2.43.0


From 1650c7a254fe7bbb395b4ed48b65deb27cd132d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 07/30] fix: ParseUint panicked on empty text instead of
 reporting an error

---
 string/transformers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/transformers.go b/string/transformers.go
index 7f06ecb..67993af 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -109,7 +109,7 @@ func parseUintImpl(base int, ctx ParserContext, asts AstSlice) (AstSlice, error)
 	}
 	str := asts[0].Value.(string)
 	str2 := str
-	if str2[0] == '+' {
+	if str2 != "" && str2[0] == '+' {
 		str2 = str2[1:]
 	}
 	num, err := strconv.ParseUint(str2, base, 64)
-- 
2.43.0


From 7d1f7ba93b3c1297dfc4534829178906b20e6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 08/30] fix: Match panicked when fewer than n entries had been
 parsed

---
 base/match.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/match.go b/base/match.go
index bdaef15..f0bb343 100644
--- a/base/match.go
+++ b/base/match.go
@@ -17,6 +17,9 @@ func Match(n int) func(cases ...Case) ParserFn {
 	return func(cases ...Case) ParserFn {
 		return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 			sp := len(ctx.AstStack) - n
+			if sp < 0 {
+				sp = 0
+			}
 			ctx.Length = 0
 			ctx.MatchStatus = MatchStatus_Unmatched
 
-- 
2.43.0


From b5182281a4f1084bc32e649898e0124c2e908c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 09/30] fix: word boundaries looked past some previous
 characters

Characters with the UTF-8 lead bytes F1, F2 and F4 (the TODO in the code)
and ill-formed bytes were skipped and an earlier character used instead.
---
 extra/extra.go    | 16 ++--------------
 string/parsers.go | 16 ++--------------
 2 files changed, 4 insertions(+), 28 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index 4d50ad7..375f42b 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -253,20 +253,8 @@ func UnicodeWordBoundary() ParserFn {
 			return ctx, nil
 		}
 
-		// Finds the UTF-8 leading byte of the previous character.
-		var prevCh rune
-		var prevChLength int
-		for i := ctx.Position - 1; 0 <= i; i-- {
-			b := ctx.Str[i]
-
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
-			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
-
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
-				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
-				break
-			}
-		}
+		// Finds the previous character.
+		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
 
 		if ctx.Position == len(ctx.Str) {
 			if 0 < prevChLength && isUnicodeWord(prevCh) {
diff --git a/string/parsers.go b/string/parsers.go
index bac8378..8761565 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -509,20 +509,8 @@ func WordBoundary() ParserFn {
 			return ctx, nil
 		}
 
-		// Finds the UTF-8 leading byte of the previous character.
-		var prevCh rune
-		var prevChLength int
-		for i := ctx.Position - 1; 0 <= i; i-- {
-			b := ctx.Str[i]
-
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
-			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
-
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
-				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
-				break
-			}
-		}
+		// Finds the previous character.
+		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
 
 		if ctx.Position == len(ctx.Str) {
 			if 0 < prevChLength && isWord(prevCh) {
-- 
2.43.0


From 157bdbdf3e835a3ddc6d0493f46e5f5c6edfa479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 10/30] fix: UnicodeWordBoundary did not treat $ as a word
 character

---
 extra/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/util.go b/extra/util.go
index 44fedc3..4d120c1 100644
--- a/extra/util.go
+++ b/extra/util.go
@@ -6,6 +6,10 @@ import "unicode"
 func isUnicodeWord(r rune) bool {
 	// ID_Continue + '$' + U+200C + U+200D
 	// Alnum(), '_', '$', and ...
+	// '$' is also Pattern_Syntax
+	if r == '$' {
+		return true
+	}
 	return (unicode.Is(unicode.L, r) ||
 		unicode.Is(unicode.Nl, r) ||
 		unicode.Is(unicode.Other_ID_Start, r) ||
-- 
2.43.0


From 6557146682663700620ba39e1bc0ac1abc44ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 11/30] fix: data race in Indirect when a recursive parser is
 first used concurrently

---
 base/parsers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 5cef4de..8bbdb73 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"sync"
 
 	clsz "github.com/shellyln/takenoco/base/classes"
 )
@@ -11,10 +12,11 @@ import (
 func Indirect(fn func() ParserFn) ParserFn {
 	const ClassName = clsz.Indirect
 	var parser ParserFn
+	var once sync.Once
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
-		if parser == nil {
+		once.Do(func() {
 			parser = fn()
-		}
+		})
 		return parser(ctx)
 	})
 }
-- 
2.43.0


From 0aa817ed8c2ded8d0c67abc629648bd5a1418596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 12/30] fix: BaseParser dropped the error raised by its final
 implementation call

---
 base/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index b714567..d6a8ba2 100644
--- a/base/base.go
+++ b/base/base.go
@@ -143,7 +143,7 @@ func BaseParser(
 		}
 
 		if MatchStatus_Unmatched <= out.MatchStatus {
-			return out, nil
+			return out, err
 		}
 
 		if rewind {
-- 
2.43.0


From 2e4b23ca94ac1da5815cfbd25c53d07ad5e3b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 13/30] fix: look-around returned the incoming match status
 instead of its own

---
 base/base.go    | 1 +
 base/parsers.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index d6a8ba2..2e69637 100644
--- a/base/base.go
+++ b/base/base.go
@@ -148,6 +148,7 @@ func BaseParser(
 
 		if rewind {
 			out = ctx
+			out.MatchStatus = MatchStatus_Matched
 		}
 
 		if tr != nil {
diff --git a/base/parsers.go b/base/parsers.go
index 8bbdb73..fd695ce 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -147,7 +147,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				} else {
 					out = ctx
 					out.MatchStatus = MatchStatus_Matched
-					return ctx, nil
+					return out, nil
 				}
 			}
 		}
-- 
2.43.0


From f9f2e9b1dd483e0345cf1e403970632d363630d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 14/30] fix: look-behind turned an error status without error
 value into a match or mismatch

---
 base/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/parsers.go b/base/parsers.go
index fd695ce..1955b14 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -137,7 +137,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				continue
 			}
 			out, err := parser(out)
-			if err != nil {
+			if err != nil || out.MatchStatus == MatchStatus_Error {
 				return out, err
 			}
 			if out.MatchStatus == MatchStatus_Matched {
-- 
2.43.0


From c8c1bfb56fa275ca326c6b95d05d3d02db944a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 15/30] fix: tokens recorded the previous token's length
 instead of their own

---
 base/parsers.go   |  2 +-
 object/parsers.go | 10 +++++-----
 string/parsers.go | 34 +++++++++++++++++-----------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 1955b14..d80eb12 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -55,11 +55,11 @@ func Zero(astsToInsert ...Ast) ParserFn {
 	const ClassName = clsz.Zero
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 		savedLen := len(ctx.AstStack)
+		ctx.Length = 0
 		ctx.AstStack = append(ctx.AstStack, astsToInsert...)
 		for i := 0; i < len(astsToInsert); i++ {
 			ctx.AstStack[savedLen+i].SourcePosition = ctx.SourcePosition
 		}
-		ctx.Length = 0
 		ctx.MatchStatus = MatchStatus_Matched
 		return ctx, nil
 	})
diff --git a/object/parsers.go b/object/parsers.go
index 075f8e2..d195ffc 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -13,6 +13,7 @@ func Any() ParserFn {
 
 		if ctx.Position+1 <= ctx.Slice.Len() {
 			w := ctx.Slice.Get(ctx.Position)
+			ctx.Length = 1
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_Any,
@@ -20,7 +21,6 @@ func Any() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += 1
-			ctx.Length = 1
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -56,6 +56,7 @@ func Seq(seq ...interface{}) ParserFn {
 					return ctx, nil
 				}
 			}
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_ListOfAny,
@@ -63,7 +64,6 @@ func Seq(seq ...interface{}) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -80,6 +80,7 @@ func ObjClass(oc ...interface{}) ParserFn {
 			w := ctx.Slice.Get(ctx.Position)
 			for _, s := range oc {
 				if ctx.Slice.ItemEquals(w, s) {
+					ctx.Length = 1
 					ctx.AstStack = append(ctx.AstStack, Ast{
 						ClassName:      ClassName,
 						Type:           AstType_Any,
@@ -87,7 +88,6 @@ func ObjClass(oc ...interface{}) ParserFn {
 						SourcePosition: ctx.SourcePosition,
 					})
 					ctx.Position += 1
-					ctx.Length = 1
 					ctx.MatchStatus = MatchStatus_Matched
 					break
 				}
@@ -111,6 +111,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 				}
 			}
 
+			ctx.Length = 1
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_Any,
@@ -118,7 +119,6 @@ func ObjClassN(oc ...interface{}) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += 1
-			ctx.Length = 1
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 
@@ -135,6 +135,7 @@ func ObjClassFn(fn func(c interface{}) bool) ParserFn {
 		if ctx.Position+1 <= ctx.Slice.Len() {
 			w := ctx.Slice.Get(ctx.Position)
 			if fn(w) {
+				ctx.Length = 1
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_Any,
@@ -142,7 +143,6 @@ func ObjClassFn(fn func(c interface{}) bool) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += 1
-				ctx.Length = 1
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
diff --git a/string/parsers.go b/string/parsers.go
index 8761565..d669602 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -20,6 +20,7 @@ func Any() ParserFn {
 		}
 		s := string(ch)
 
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -27,7 +28,6 @@ func Any() ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 
 		return ctx, nil
@@ -59,6 +59,7 @@ func Seq(s string) ParserFn {
 		if ctx.Position+length <= len(ctx.Str) {
 			w := ctx.Str[ctx.Position : ctx.Position+length]
 			if w == s {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -66,7 +67,6 @@ func Seq(s string) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
@@ -84,6 +84,7 @@ func SeqI(s string) ParserFn {
 		if ctx.Position+length <= len(ctx.Str) {
 			w := ctx.Str[ctx.Position : ctx.Position+length]
 			if strings.EqualFold(w, s) {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -91,7 +92,6 @@ func SeqI(s string) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
@@ -113,6 +113,7 @@ func CharRange(cr ...RuneRange) ParserFn {
 
 		for _, rr := range cr {
 			if rr.Start <= ch && ch <= rr.End {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -120,7 +121,6 @@ func CharRange(cr ...RuneRange) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 				break
 			}
@@ -146,6 +146,7 @@ func CharRangeN(cr ...RuneRange) ParserFn {
 				return ctx, nil
 			}
 		}
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -153,7 +154,6 @@ func CharRangeN(cr ...RuneRange) ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 		return ctx, nil
 	})
@@ -170,6 +170,7 @@ func CharClass(cc ...string) ParserFn {
 			if ctx.Position+length <= len(ctx.Str) {
 				w := ctx.Str[ctx.Position : ctx.Position+length]
 				if w == s {
+					ctx.Length = length
 					ctx.AstStack = append(ctx.AstStack, Ast{
 						ClassName:      ClassName,
 						Type:           AstType_String,
@@ -177,7 +178,6 @@ func CharClass(cc ...string) ParserFn {
 						SourcePosition: ctx.SourcePosition,
 					})
 					ctx.Position += length
-					ctx.Length = length
 					ctx.MatchStatus = MatchStatus_Matched
 					break
 				}
@@ -209,6 +209,7 @@ func CharClassN(cc ...string) ParserFn {
 		}
 		s := string(ch)
 
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -216,7 +217,6 @@ func CharClassN(cc ...string) ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 
 		return ctx, nil
@@ -236,6 +236,7 @@ func CharClassFn(fn func(c rune) bool) ParserFn {
 		s := string(ch)
 
 		if fn(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -243,7 +244,6 @@ func CharClassFn(fn func(c rune) bool) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -263,6 +263,7 @@ func Whitespace() ParserFn {
 		s := string(ch)
 
 		if isWhitespace(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -270,7 +271,6 @@ func Whitespace() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -290,6 +290,7 @@ func WhitespaceNoLineBreak() ParserFn {
 		s := string(ch)
 
 		if isWhitespaceNoLineBreak(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -297,7 +298,6 @@ func WhitespaceNoLineBreak() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -317,6 +317,7 @@ func LineBreak() ParserFn {
 		s := string(ch)
 
 		if isLineBreak(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -324,7 +325,6 @@ func LineBreak() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -344,6 +344,7 @@ func Alpha() ParserFn {
 		s := string(ch)
 
 		if 'A' <= ch && ch <= 'Z' || 'a' <= ch && ch <= 'z' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -351,7 +352,6 @@ func Alpha() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -371,6 +371,7 @@ func Number() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '9' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -378,7 +379,6 @@ func Number() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -398,6 +398,7 @@ func Alnum() ParserFn {
 		s := string(ch)
 
 		if 'A' <= ch && ch <= 'Z' || 'a' <= ch && ch <= 'z' || '0' <= ch && ch <= '9' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -405,7 +406,6 @@ func Alnum() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -425,6 +425,7 @@ func BinNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '1' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -432,7 +433,6 @@ func BinNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -452,6 +452,7 @@ func OctNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '7' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -459,7 +460,6 @@ func OctNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -479,6 +479,7 @@ func HexNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '9' || 'A' <= ch && ch <= 'F' || 'a' <= ch && ch <= 'f' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -486,7 +487,6 @@ func HexNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
-- 
2.43.0


From 7452844a82653c5b92dc561fa30d5d288a47a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 16/30] fix: FloatNumberStr and NumericStr accepted a point
 followed by separators only

---
 extra/extra.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index 375f42b..5dfcd65 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -126,7 +126,8 @@ func FloatNumberStr() ParserFn {
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."), ZeroOrMoreTimes(erase(CharClass("_"))), Number(),
+					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
@@ -169,7 +170,8 @@ func NumericStr() ParserFn {
 					ZeroOrOnce(CharClass("."), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."), ZeroOrMoreTimes(erase(CharClass("_"))), Number(),
+					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 				),
 			),
 			ZeroOrOnce(exponentStr()),
-- 
2.43.0


From 48153e8255a513ef6ddee7a5cc6269ec7bbf048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 17/30] fix: formula example panicked on division by zero

---
 _examples/formula/precedence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/_examples/formula/precedence.go b/_examples/formula/precedence.go
index 2c73dff..5ca596e 100644
--- a/_examples/formula/precedence.go
+++ b/_examples/formula/precedence.go
@@ -1,6 +1,8 @@
 package formula
 
 import (
+	"errors"
+
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
 )
@@ -52,6 +54,9 @@ var expressionRule2 = Precedence{
 				case "*":
 					v = op1 * op2
 				case "/":
+					if op2 == 0 {
+						return nil, errors.New("Division by zero")
+					}
 					v = op1 / op2
 				}
 
-- 
2.43.0


From 26a2f1204809541f19c20e3079d3705164db6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 18/30] fix: csv example dropped escaped double quotes

---
 _examples/csv/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/_examples/csv/parser.go b/_examples/csv/parser.go
index 2bb5259..1855da7 100644
--- a/_examples/csv/parser.go
+++ b/_examples/csv/parser.go
@@ -39,7 +39,7 @@ func quotedCell() ParserFn {
 				erase(Seq("\"")),
 				ZeroOrMoreTimes(
 					First(
-						erase(Seq("\"\"")),
+						Trans(Seq("\"\""), SetValue(AstType_String, "\"")),
 						CharClassN("\""),
 					),
 				),
-- 
2.43.0


From 01b7738bde458c6559c501e1e2486e9448f3c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 19/30] fix: csv example wrote cells with quotes or outer
 whitespace unquoted

---
 _examples/csv/marshal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 4493d3d..ac91da9 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -5,8 +5,13 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+
+	. "github.com/shellyln/takenoco/string"
 )
 
+// Characters that are trimmed from both ends of a cell that is not quoted.
+var trimCharacters = strings.Join(WhitespaceCharacters, "")
+
 // toCsvRow writes a CSV row to the strings.Builder.
 func toCsvRow(sb *strings.Builder, row []string) {
 	for i := 0; i < len(row); i++ {
@@ -14,6 +19,8 @@ func toCsvRow(sb *strings.Builder, row []string) {
 			sb.WriteString(",")
 		}
 		if 0 <= strings.IndexRune(row[i], ',') ||
+			0 <= strings.IndexRune(row[i], '"') ||
+			row[i] != strings.Trim(row[i], trimCharacters) ||
 			0 <= strings.IndexRune(row[i], '\u000a') ||
 			0 <= strings.IndexRune(row[i], '\u000b') ||
 			0 <= strings.IndexRune(row[i], '\u000c') ||
-- 
2.43.0


From cc690a640eabda433ef7c0f77c8d7b5f419006fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 20/30] fix: csv.Marshal wrote fields without a column over the
 first column

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index ac91da9..2a18f81 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -104,7 +104,10 @@ func Marshal(cols []string, a interface{}) (string, error) {
 		}
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(k)
-			index := columns[v]
+			index, ok := columns[v]
+			if !ok {
+				continue
+			}
 			switch colTypes[k] {
 			case reflect.String:
 				rowBuf[index] = rvf.String()
-- 
2.43.0


From 4f838e86aed15141e4073d6c2d27c2c49e59999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 21/30] fix: csv.Unmarshal panicked on rows shorter than the
 header

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 2a18f81..bc86b55 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -199,7 +199,10 @@ func Unmarshal(pa interface{}, s string) error {
 		rvi := slice.Index(i)
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(v)
-			w := data[i+1][columns[k]] // TODO: check slice length
+			if len(data[i+1]) <= columns[k] {
+				return errors.New("Row " + strconv.Itoa(i+1) + " has no column " + k)
+			}
+			w := data[i+1][columns[k]]
 			switch colTypes[k] {
 			case reflect.String:
 				rvf.SetString(w)
-- 
2.43.0


From 6a329b850b7233fe3f7896814770fc8347c6adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 22/30] fix: csv.Unmarshal silently truncated numbers out of
 the field's range

---
 _examples/csv/marshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index bc86b55..eaff963 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -211,18 +211,27 @@ func Unmarshal(pa interface{}, s string) error {
 				if err != nil {
 					return err
 				}
+				if rvf.OverflowInt(z) {
+					return errors.New("Value out of range: " + w)
+				}
 				rvf.SetInt(z)
 			case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
 				z, err := strconv.ParseUint(w, 10, 64)
 				if err != nil {
 					return err
 				}
+				if rvf.OverflowUint(z) {
+					return errors.New("Value out of range: " + w)
+				}
 				rvf.SetUint(z)
 			case reflect.Float64, reflect.Float32:
 				z, err := strconv.ParseFloat(w, 64)
 				if err != nil {
 					return err
 				}
+				if rvf.OverflowFloat(z) {
+					return errors.New("Value out of range: " + w)
+				}
 				rvf.SetFloat(z)
 			}
 		}
-- 
2.43.0


From 92a960e5a75bf3ce988048d06b1ade5d6b286db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 23/30] fix: csv.Unmarshal filled untagged fields from a column
 without name and panicked on unexported fields

---
 _examples/csv/marshal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index eaff963..9e9b2d7 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -181,7 +181,11 @@ func Unmarshal(pa interface{}, s string) error {
 		for j := 0; j < rti.NumField(); j++ {
 			rtf := rti.Field(j)
 			tag := rtf.Tag.Get("csv")
-			if _, ok := columns[tag]; ok {
+			if rtf.PkgPath != "" {
+				// unexported field
+				continue
+			}
+			if _, ok := columns[tag]; ok && tag != "" {
 				mapping[tag] = rtf.Name
 				colTypes[tag] = rtf.Type.Kind()
 			} else if _, ok := columns[rtf.Name]; ok {
-- 
2.43.0


From 2d4ff7683e15820019628dabd7d615615e47c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 24/30] fix: Box.SetAny(nil) deleted the map entry or panicked
 instead of storing nil

---
 base/box.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/base/box.go b/base/box.go
index ee6fdd6..9c1759b 100644
--- a/base/box.go
+++ b/base/box.go
@@ -49,6 +49,15 @@ type Box interface {
 	ComplexMapIndex(k interface{}) Box
 }
 
+// Get the reflect.Value to store v in a variable of type t.
+// If t is an interface type, nil is a value of its own and not a missing value.
+func valueOfAny(v interface{}, t reflect.Type) reflect.Value {
+	if v == nil && t.Kind() == reflect.Interface {
+		return reflect.Zero(t)
+	}
+	return reflect.ValueOf(v)
+}
+
 // Implements the interface Box. Abstraction of reflect.Value.
 type ReflectionBox struct {
 	Val reflect.Value
@@ -96,7 +105,7 @@ func (s ReflectionBox) GetBytes() []byte {
 
 //
 func (s ReflectionBox) SetAny(v interface{}) {
-	s.Val.Set(reflect.ValueOf(v))
+	s.Val.Set(valueOfAny(v, s.Val.Type()))
 }
 
 //
@@ -197,7 +206,7 @@ func (s MapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (s MapContainerReflectionBox) SetAny(v interface{}) {
-	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))
+	s.Container.SetMapIndex(s.Key, valueOfAny(v, s.Container.Type().Elem()))
 }
 
 //
@@ -326,7 +335,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (p *NotInitializedMapContainerReflectionBox) SetAny(v interface{}) {
-	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
+	p.Container.SetMapIndex(p.Key, valueOfAny(v, p.Container.Type().Elem()))
 	p.Initialized = true
 }
 
-- 
2.43.0


From 4f6d630c369705e6238010e051da4b8e0013ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 25/30] fix: typed Box getters panicked on values stored in
 maps of interfaces

---
 base/box.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/base/box.go b/base/box.go
index 9c1759b..e20c45b 100644
--- a/base/box.go
+++ b/base/box.go
@@ -58,6 +58,15 @@ func valueOfAny(v interface{}, t reflect.Type) reflect.Value {
 	return reflect.ValueOf(v)
 }
 
+// Get the element of the map. If the elements are interfaces, get the concrete value.
+func mapElem(container, key reflect.Value) reflect.Value {
+	v := container.MapIndex(key)
+	if v.Kind() == reflect.Interface {
+		return v.Elem()
+	}
+	return v
+}
+
 // Implements the interface Box. Abstraction of reflect.Value.
 type ReflectionBox struct {
 	Val reflect.Value
@@ -171,32 +180,32 @@ func (s MapContainerReflectionBox) GetAny() interface{} {
 
 //
 func (s MapContainerReflectionBox) GetInt() int64 {
-	return s.Container.MapIndex(s.Key).Int()
+	return mapElem(s.Container, s.Key).Int()
 }
 
 //
 func (s MapContainerReflectionBox) GetUint() uint64 {
-	return s.Container.MapIndex(s.Key).Uint()
+	return mapElem(s.Container, s.Key).Uint()
 }
 
 //
 func (s MapContainerReflectionBox) GetFloat() float64 {
-	return s.Container.MapIndex(s.Key).Float()
+	return mapElem(s.Container, s.Key).Float()
 }
 
 //
 func (s MapContainerReflectionBox) GetBool() bool {
-	return s.Container.MapIndex(s.Key).Bool()
+	return mapElem(s.Container, s.Key).Bool()
 }
 
 //
 func (s MapContainerReflectionBox) GetString() string {
-	return s.Container.MapIndex(s.Key).String()
+	return mapElem(s.Container, s.Key).String()
 }
 
 //
 func (s MapContainerReflectionBox) GetBytes() []byte {
-	return s.Container.MapIndex(s.Key).Bytes()
+	return mapElem(s.Container, s.Key).Bytes()
 }
 
 //
@@ -282,7 +291,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetInt() int64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Int()
+	return mapElem(p.Container, p.Key).Int()
 }
 
 //
@@ -290,7 +299,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetUint() uint64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Uint()
+	return mapElem(p.Container, p.Key).Uint()
 }
 
 //
@@ -298,7 +307,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetFloat() float64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Float()
+	return mapElem(p.Container, p.Key).Float()
 }
 
 //
@@ -306,7 +315,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBool() bool {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Bool()
+	return mapElem(p.Container, p.Key).Bool()
 }
 
 //
@@ -314,7 +323,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetString() string {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).String()
+	return mapElem(p.Container, p.Key).String()
 }
 
 //
@@ -322,7 +331,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Bytes()
+	return mapElem(p.Container, p.Key).Bytes()
 }
 
 //
-- 
2.43.0


From 16c84132bba258e75e01cd421eaa0d4bce84b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 26/30] fix: Match rewrote the caller's AST stack in place,
 which backtracking could not undo

---
 base/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/match.go b/base/match.go
index f0bb343..01be98c 100644
--- a/base/match.go
+++ b/base/match.go
@@ -35,7 +35,7 @@ func Match(n int) func(cases ...Case) ParserFn {
 							return ctx, err
 						}
 					}
-					ctx.AstStack = append(ctx.AstStack[:sp], asts...)
+					ctx.AstStack = append(ctx.AstStack[:sp:sp], asts...)
 
 					ctx.MatchStatus = MatchStatus_Matched
 					return ctx, nil
-- 
2.43.0


From 9356f15813f1c1aba12fa76735108d38927c0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 27/30] fix: Indirect stayed unusable after its builder
 panicked once

---
 base/parsers.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index d80eb12..ac0bed1 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"errors"
 	"sync"
+	"sync/atomic"
 
 	clsz "github.com/shellyln/takenoco/base/classes"
 )
@@ -11,12 +12,23 @@ import (
 // but by delaying them at runtime.
 func Indirect(fn func() ParserFn) ParserFn {
 	const ClassName = clsz.Indirect
-	var parser ParserFn
-	var once sync.Once
+	var built atomic.Value
+	var mu sync.Mutex
+	build := func() ParserFn {
+		mu.Lock()
+		defer mu.Unlock()
+		if parser, ok := built.Load().(ParserFn); ok {
+			return parser
+		}
+		parser := fn()
+		built.Store(parser)
+		return parser
+	}
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
-		once.Do(func() {
-			parser = fn()
-		})
+		parser, ok := built.Load().(ParserFn)
+		if !ok {
+			parser = build()
+		}
 		return parser(ctx)
 	})
 }
-- 
2.43.0


From e6180de737782f5582b87e1c2beee9953e5accdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 28/30] fix: Prepend and Push kept the position of an earlier
 call (data race)

---
 base/transformers.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 40ac0ff..403ae96 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -111,11 +111,12 @@ func SetValue(typ AstType, v interface{}) TransformerFn {
 // Prepend a AST to the AST slice.
 func Prepend(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
+		z := ast
 		if 0 < len(asts) {
-			ast.SourcePosition = asts[0].SourcePosition
+			z.SourcePosition = asts[0].SourcePosition
 		}
 		w := make(AstSlice, 1, len(asts)+1)
-		w[0] = ast
+		w[0] = z
 		w = append(w, asts...)
 		return w, nil
 	}
@@ -125,12 +126,13 @@ func Prepend(ast Ast) TransformerFn {
 // Append a AST to the AST slice.
 func Push(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
+		z := ast
 		if 0 < len(asts) {
-			ast.SourcePosition = asts[len(asts)-1].SourcePosition
+			z.SourcePosition = asts[len(asts)-1].SourcePosition
 		}
 		w := make(AstSlice, 0, len(asts)+1)
 		w = append(w, asts...)
-		w = append(w, ast)
+		w = append(w, z)
 		return w, nil
 	}
 }
-- 
2.43.0


From 44b8ab838444bdd1a110e8fb8cb2602a0506a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 29/30] fix: csv.Unmarshal let a field name take the column
 another field's tag names

With struct { B string `csv:"A"`; A string `csv:"B"` } and a text that has
only column A, Marshal writes field B there but Unmarshal stored the value in
field A, when B is declared first.
---
 _examples/csv/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 9e9b2d7..9fb9f89 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -189,6 +189,10 @@ func Unmarshal(pa interface{}, s string) error {
 				mapping[tag] = rtf.Name
 				colTypes[tag] = rtf.Type.Kind()
 			} else if _, ok := columns[rtf.Name]; ok {
+				if _, ok := mapping[rtf.Name]; ok {
+					// the column is already taken by another field's tag
+					continue
+				}
 				mapping[rtf.Name] = rtf.Name
 				colTypes[rtf.Name] = rtf.Type.Kind()
 			} else {
-- 
2.43.0


From 1ae1bc5f1065690a8e1ae5624a12005f10763f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 30/30] fix: ProductionRule took a rule's error status without
 error value as a mismatch

---
 base/production.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/production.go b/base/production.go
index d21ad39..b82299b 100644
--- a/base/production.go
+++ b/base/production.go
@@ -47,6 +47,9 @@ func ProductionRule(precedences []Precedence, check ParserFn) TransformerFn {
 						if err != nil {
 							return nil, err
 						}
+						if out.MatchStatus == MatchStatus_Error {
+							return nil, errors.New("Production rule failed without an error value.")
+						}
 						if out.MatchStatus >= MatchStatus_Unmatched {
 							continue
 						}
-- 
2.43.0

