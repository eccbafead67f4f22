From ae742df1a795ec3e17632e22f5dc3ccebce33242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 01/53] fix: format month literals with month names

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 546d0d4..eda8dca 100644
--- a/format.go
+++ b/format.go
@@ -504,7 +504,7 @@ func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
 	if !inline {
 		checkError(w.WriteString("month["))
 	}
-	checkError(w.WriteString(shortDayNames[e.Val-1]))
+	checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	if !inline {
 		checkError(w.WriteString("]"))
 	}
-- 
2.43.0


From 818ca5bd4ac6bb9d7210fea9e4d808e8b3834cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 02/53] fix: return a nil statement next to a syntax error

---
 parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 892b76a..a6a0dbb 100644
--- a/parser.go
+++ b/parser.go
@@ -193,7 +193,12 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if s.except(TRIGGER) {
 			s.next()
 		}
-		return s.parseTriggerStmt()
+		var trigger *Trigger
+		trigger, err = s.parseTriggerStmt()
+		if err != nil {
+			return nil, err
+		}
+		stmt = trigger
 	default:
 		err = s.error()
 	}
-- 
2.43.0


From 989185e35174827374325cde36529525f106f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 03/53] fix: reject input after the end of a trigger

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index a6a0dbb..6af5b18 100644
--- a/parser.go
+++ b/parser.go
@@ -57,6 +57,9 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 			return nil, err
 		}
 	}
+	if !s.except(EOF) {
+		return nil, s.error()
+	}
 	stmt.rpos = s.t.Offset()
 	return stmt, nil
 }
-- 
2.43.0


From 84faea42e4b2855ad9578be65089eef4955a7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 04/53] fix: reject lexical errors in the last operand of a
 trigger

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 6af5b18..135b05d 100644
--- a/parser.go
+++ b/parser.go
@@ -60,6 +60,9 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 	if !s.except(EOF) {
 		return nil, s.error()
 	}
+	if s.err = s.t.Err(); s.err != nil {
+		return nil, s.error()
+	}
 	stmt.rpos = s.t.Offset()
 	return stmt, nil
 }
-- 
2.43.0


From 42d5dd5c8f066289055940efb0814256a399aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 05/53] fix: require an operator between and a parenthesis
 after parenthesised operands

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 135b05d..7394e51 100644
--- a/parser.go
+++ b/parser.go
@@ -328,10 +328,13 @@ func (s *parser) isSignPlus() bool {
 
 func (s *parser) parseParenExpr() (expr Expr, err error) {
 	lp := s.t.Offset()
-	expr, err = s.parseBinaryExpr(s.tok.Precedence())
+	expr, err = s.parseBinaryExpr(1)
 	if err != nil {
 		return nil, err
 	}
+	if !s.except(RPAREN) {
+		return nil, s.error()
+	}
 	rp := s.t.Offset()
 	s.next()
 	return &ParenExpr{Expr: expr, lpos: lp, rpos: rp}, nil
-- 
2.43.0


From 61b22d39b31a63d361d2bf59297995f496ee6c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 06/53] fix: reject a sign in front of an operand that is not a
 number

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 7394e51..1def479 100644
--- a/parser.go
+++ b/parser.go
@@ -261,6 +261,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 			s.sign = ADD
 		}
 		s.next()
+		if !s.except(INT, FLOAT) {
+			return nil, s.error()
+		}
 	}
 
 	switch s.tok {
-- 
2.43.0


From 369060151f9c89e4692c6ac9750479f263634336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 07/53] fix: do not apply the sign of a range's low end to its
 high end

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 1def479..e10be8a 100644
--- a/parser.go
+++ b/parser.go
@@ -303,13 +303,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	case BOOLEAN:
 		expr, err = s.parseBooleanLit()
 	}
+	s.resetSign()
 	if err == nil {
 		switch s.tok {
 		case RANGE:
 			expr, err = s.parseRangeExpr(expr)
 		}
 	}
-	s.resetSign()
 	return
 }
 
-- 
2.43.0


From 86faeafab795e212de52165067ae45f3299b06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 08/53] fix: reject negative pressures instead of dropping the
 sign

---
 primitive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive.go b/primitive.go
index ba9d923..bce2209 100644
--- a/primitive.go
+++ b/primitive.go
@@ -83,6 +83,10 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
+		if s.isSignMinus() {
+			s.err = errNegativeValue
+			return nil, s.error()
+		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
-- 
2.43.0


From 150f4b283f6913305fafebc3e5ca93358c2d9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 09/53] fix: consume the wildcard so that it is not read again
 as an operator

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index e10be8a..ab7cf84 100644
--- a/parser.go
+++ b/parser.go
@@ -314,7 +314,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 }
 
 func (s *parser) parseWildcardLit() (expr Expr, err error) {
-	return &WildcardTyp{lpos: s.t.Offset()}, nil
+	expr = &WildcardTyp{lpos: s.t.Offset()}
+	s.next()
+	return
 }
 
 func (s *parser) resetSign() {
-- 
2.43.0


From 0e1e8fa29d3e74fcf1d21380fe0994543d923da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 10/53] fix: only take a word or percent sign after a number
 for its unit

---
 primitive.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/primitive.go b/primitive.go
index bce2209..82ebb43 100644
--- a/primitive.go
+++ b/primitive.go
@@ -71,7 +71,13 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	plit := s.lit
 	s.rpos = s.t.Offset() - 1
 	s.next()
-	unit := s.t.TokenText()
+	var unit string
+	switch {
+	case s.except(SELECTOR):
+		unit = s.t.TokenText()
+	case s.except(ILLEGAL) && s.lit == "%":
+		unit = s.lit
+	}
 	litlen := Pos(len(plit))
 	switch {
 	case isPercentUnit(unit):
@@ -126,7 +132,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		s.next()
 	default:
 		var fr rune
-		if len(s.lit) > 0 {
+		if s.except(SELECTOR) && len(s.lit) > 0 {
 			fr = rune(s.lit[0])
 		}
 		switch fr {
-- 
2.43.0


From 98d8e544d9a6e0c033c7769c3a1da2c616b76173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 11/53] fix: require a name after @

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index 82ebb43..ee71711 100644
--- a/primitive.go
+++ b/primitive.go
@@ -7,6 +7,9 @@ import (
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
 	s.next()
+	if !s.except(SELECTOR) {
+		return nil, s.error()
+	}
 	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
 	s.next()
 	return
-- 
2.43.0


From 0bd1da64662954806e15414864490909cb923b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 12/53] fix: only strip the delimiting quotes of a string

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ab7cf84..a2b40ba 100644
--- a/parser.go
+++ b/parser.go
@@ -391,7 +391,7 @@ func isGeometryToken(tok Token) (ok bool) {
 }
 
 func trim(lit string) string {
-	lit = strings.TrimLeft(lit, `"`)
-	lit = strings.TrimRight(lit, `"`)
+	lit = strings.TrimPrefix(lit, `"`)
+	lit = strings.TrimSuffix(lit, `"`)
 	return lit
 }
-- 
2.43.0


From e87bf8f653980a240fb62e9bbb02ff66e9a768ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 13/53] fix: do not swallow the token after a lone not

---
 token.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/token.go b/token.go
index 2ae51e6..aa1d7ed 100644
--- a/token.go
+++ b/token.go
@@ -190,13 +190,14 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case "not":
 			found = true
 			r, s = t.next()
-			lit = strings.ToLower(s)
-			notlit := "not " + lit
+			notlit := "not " + strings.ToLower(s)
 			notkwd, exists := keywords[notlit]
 			if exists {
 				found = true
 				kwd = notkwd
 				lit = notlit
+			} else {
+				t.Reset()
 			}
 		default:
 			kwd, found = keywords[lit]
-- 
2.43.0


From b310d2d4d32ef0a3e32b0c21f7859aa886692a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 14/53] fix: require separators between array elements

---
 composite.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/composite.go b/composite.go
index c1520c1..c47af85 100644
--- a/composite.go
+++ b/composite.go
@@ -77,6 +77,11 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			break
 		}
+		// 11:11:11 is read as a list of integers
+		isTime := s.except(COLON) && arrayExpr.Kind == INT
+		if !s.except(COMMA) && !isTime {
+			return nil, s.error()
+		}
 	}
 	arrayExpr.rpos = s.t.Offset()
 	s.next()
-- 
2.43.0


From b209bb6a57d16b066c57efe564c45f5437a2eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 15/53] fix: reject unterminated selector arguments

---
 composite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index c47af85..51d596c 100644
--- a/composite.go
+++ b/composite.go
@@ -131,7 +131,10 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 		var i int
 		for {
 			s.next()
-			if s.except(EOF, RBRACE) {
+			if s.except(EOF) {
+				return nil, s.error()
+			}
+			if s.except(RBRACE) {
 				break
 			}
 			if s.except(COMMA) {
-- 
2.43.0


From b4a97d7c56710df3cb0c8a909bca993cf62ed39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 16/53] fix: reject surplus and unseparated entries in calendar
 lists and ranges

---
 datetime.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/datetime.go b/datetime.go
index 1e49f50..6ce1ec1 100644
--- a/datetime.go
+++ b/datetime.go
@@ -94,13 +94,14 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			}
 			arrayExpr.List = append(arrayExpr.List, date)
 		case RANGE, PERIOD:
-			if arrayExpr != nil {
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = date
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -229,13 +230,14 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			}
 			arrayExpr.List = append(arrayExpr.List, time_)
 		case RANGE, PERIOD:
-			if arrayExpr != nil {
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = time_
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -315,13 +317,14 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
 		case RANGE, PERIOD:
-			if arrayExpr != nil {
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -411,13 +414,14 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
 		case RANGE, PERIOD:
-			if arrayExpr != nil {
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
-- 
2.43.0


From 27855b284d114b8d22633a58db6657dd58af4f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 17/53] fix: reject dates and times with missing or surplus
 parts

---
 datetime.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datetime.go b/datetime.go
index 6ce1ec1..2580dc3 100644
--- a/datetime.go
+++ b/datetime.go
@@ -39,6 +39,10 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
+			if s.except(INT) != (isMonth(i) || isDay(i)) {
+				err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
+				break
+			}
 			if s.except(SUB) {
 				sep++
 				continue
@@ -160,6 +164,10 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
+			if s.except(INT) != (isMinutes(i) || isSeconds(i)) {
+				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
+				break
+			}
 			if s.except(COLON) {
 				sep++
 				continue
-- 
2.43.0


From a8b78f91238beb3e109cd759a42e9daf3247ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 18/53] fix: only accept .. between the ends of calendar ranges

---
 datetime.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/datetime.go b/datetime.go
index 2580dc3..519c91a 100644
--- a/datetime.go
+++ b/datetime.go
@@ -97,7 +97,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: DATE, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, date)
-		case RANGE, PERIOD:
+		case RANGE:
 			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
@@ -162,6 +162,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			return nil, s.error()
 		}
 		var sep int
+		var ended bool
 		for i := 0; i <= 3; i++ {
 			s.next()
 			if s.except(INT) != (isMinutes(i) || isSeconds(i)) {
@@ -173,7 +174,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				continue
 			}
 			if s.except(RBRACK, COMMA, RANGE, SELECTOR) {
-				s.t.Reset()
+				ended = true
 				break
 			}
 			if !s.except(COLON, INT) || s.except(EOF) {
@@ -209,7 +210,9 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			s.err = fmt.Errorf("invalid time format")
 			return nil, s.error()
 		}
-		s.next()
+		if !ended {
+			s.next()
+		}
 		time_ := &TimeTyp{
 			Hours:   h,
 			Minutes: m,
@@ -237,7 +240,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: TIME, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, time_)
-		case RANGE, PERIOD:
+		case RANGE:
 			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
@@ -324,7 +327,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: WEEKDAY, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
-		case RANGE, PERIOD:
+		case RANGE:
 			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
@@ -421,7 +424,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: MONTH, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
-		case RANGE, PERIOD:
+		case RANGE:
 			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-- 
2.43.0


From 0da4683730c484ab4bd98cb34aad58f9afd5ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 19/53] fix: reject geometries with wrong bracket depth or
 coordinate count

---
 geometry.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/geometry.go b/geometry.go
index d3e0733..c53abb4 100644
--- a/geometry.go
+++ b/geometry.go
@@ -112,15 +112,23 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	var cc [][][2]float64
 	open := true
 	q := 1
+	var depth int // depth of the brackets around a position
+	switch geomtyp {
+	case GEOMETRY_LINE:
+		depth = 1
+	case GEOMETRY_POLYGON:
+		depth = 2
+	}
+	var count int // coordinates read for the current position
 	for {
 		s.next()
-		if s.except(EOF) {
-			break
-		}
 		if !s.except(LBRACK, SUB, COMMA, FLOAT, INT, RBRACK) {
-			break
+			return nil, s.error()
 		}
 		if s.except(LBRACK) {
+			if path == depth {
+				return nil, s.error()
+			}
 			path++
 			q++
 			open = true
@@ -128,6 +136,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 		}
 		if s.except(RBRACK) {
 			if open {
+				if path != depth || count != 2 {
+					return nil, s.error()
+				}
+				count = 0
 				switch path {
 				case 0:
 					aa = [2]float64{x, y}
@@ -199,6 +211,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 		if s.isSignMinus() {
 			val = -val
 		}
+		if !open || path != depth || count != int(pi) {
+			return nil, s.error()
+		}
+		count++
 		switch pi {
 		case 0:
 			x = val
-- 
2.43.0


From 2c936ff3da6b5881e11af4a96caee01c6cf942e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 20/53] fix: reject unterminated multi-objects and collections

---
 geometry.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry.go b/geometry.go
index c53abb4..34b49cf 100644
--- a/geometry.go
+++ b/geometry.go
@@ -16,7 +16,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	}
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		object, oer := s.parseGeometryExpr()
 		if oer != nil {
@@ -68,7 +68,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 	s.next()
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		var object Expr
 		var oer error
-- 
2.43.0


From 1afb7fe8c7f5065891fb6a86e64a81f823c0480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 21/53] fix: reject a missing radius or margin

---
 primitive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primitive.go b/primitive.go
index ee71711..b55ec3d 100644
--- a/primitive.go
+++ b/primitive.go
@@ -160,6 +160,8 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 	s.next()
 	var ok bool
 	switch s.tok {
+	default:
+		return nil, s.error()
 	case INT:
 		re, err := s.parseIntTypes()
 		if err != nil {
-- 
2.43.0


From 206f4c202f26ce873dc8164fa41140eb77f1a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 22/53] fix: require every and after in REPEAT and RESET
 clauses

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a2b40ba..e081438 100644
--- a/parser.go
+++ b/parser.go
@@ -102,7 +102,7 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return
 	}
 
-	if !s.except(SELECTOR) {
+	if !s.except(SELECTOR) || s.lit != "every" {
 		return s.error()
 	}
 	s.next()
@@ -169,6 +169,9 @@ func (s *parser) parseSet(stmt *Trigger) error {
 
 func (s *parser) parseReset(stmt *Trigger) (err error) {
 	s.next()
+	if !s.except(SELECTOR) || s.lit != "after" {
+		return s.error()
+	}
 	s.next()
 	var dur Expr
 	switch s.tok {
-- 
2.43.0


From 42f82c440802bdf0e4d872874a4fc7f11a09cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 23/53] fix: accept fractional durations as repeat interval

---
 parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index e081438..da05cd9 100644
--- a/parser.go
+++ b/parser.go
@@ -106,7 +106,12 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return s.error()
 	}
 	s.next()
-	dur, err := s.parseIntTypes()
+	var dur Expr
+	if s.except(FLOAT) {
+		dur, err = s.parseFloatTypes()
+	} else {
+		dur, err = s.parseIntTypes()
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1900a14496e291657d1c9cb6d9dab18c02a991d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 24/53] fix: limit the nesting depth instead of overflowing the
 stack

---
 parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser.go b/parser.go
index da05cd9..37bd3bc 100644
--- a/parser.go
+++ b/parser.go
@@ -9,6 +9,9 @@ import (
 
 var errNegativeValue = errors.New("value cannot be negative")
 
+// maxDepth limits the nesting of expressions, and with it the use of the stack.
+const maxDepth = 1000
+
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
 	t := NewTokenizer(r)
@@ -23,6 +26,7 @@ type parser struct {
 	lit  string
 	err  error
 	sign Token
+	nest int
 	lpos Pos
 	rpos Pos
 }
@@ -259,6 +263,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		return nil, s.error()
 	}
 
+	s.nest++
+	defer func() { s.nest-- }()
+	if s.nest > maxDepth {
+		s.err = fmt.Errorf("expression nested too deeply")
+		return nil, s.error()
+	}
+
 	s.next()
 
 	if s.except(SUB, ADD) {
-- 
2.43.0


From 83500b8f5f1ac7e149dd6121918609979fe18ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 25/53] fix: indent nested parentheses by one tab per level
 instead of doubling

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index eda8dca..ec5d4df 100644
--- a/format.go
+++ b/format.go
@@ -392,7 +392,7 @@ func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 			expand = false
 		}
 	}
-	pad2 := padding + padding
+	pad2 := padding + "\t"
 	checkError(w.WriteString("("))
 	if expand {
 		checkError(w.WriteString("\n" + pad2))
-- 
2.43.0


From 5bdaa385920006312a6f269e59e7effabf89fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 26/53] fix: keep the date, time, weekday and month keywords of
 calendar literals in conditions

---
 format.go | 91 +++++++++++++++++++++++++------------------------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/format.go b/format.go
index ec5d4df..7aa75ac 100644
--- a/format.go
+++ b/format.go
@@ -206,27 +206,19 @@ func (e *GeometryCollectionTyp) format(w io.StringWriter, padding string, inline
 }
 
 func (e *Range) format(w io.StringWriter, padding string, inline bool) {
-	switch e.Low.(type) {
-	case *TimeTyp:
-		checkError(w.WriteString("time["))
-		inline = true
-	case *MonthTyp:
-		checkError(w.WriteString("month["))
-		inline = true
-	case *DateTyp:
-		checkError(w.WriteString("date["))
-		inline = true
-	case *WeekdayTyp:
-		checkError(w.WriteString("weekday["))
-		inline = true
+	low, lok := e.Low.(calendarExpr)
+	high, hok := e.High.(calendarExpr)
+	if lok && hok && low.keyword() == high.keyword() {
+		checkError(w.WriteString(low.keyword() + "["))
+		low.formatBody(w)
+		checkError(w.WriteString(" .. "))
+		high.formatBody(w)
+		checkError(w.WriteString("]"))
+		return
 	}
 	e.Low.format(w, padding, inline)
 	checkError(w.WriteString(" .. "))
 	e.High.format(w, padding, inline)
-	switch e.Low.(type) {
-	case *TimeTyp, *MonthTyp, *DateTyp, *WeekdayTyp:
-		checkError(w.WriteString("]"))
-	}
 }
 
 func (e *PercentTyp) format(w io.StringWriter, _ string, _ bool) {
@@ -335,22 +327,22 @@ func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Kind {
 	case TIME:
 		checkError(b.WriteString("time"))
-		inline = true
 	case MONTH:
 		checkError(b.WriteString("month"))
-		inline = true
 	case DATE:
 		checkError(b.WriteString("date"))
-		inline = true
 	case WEEKDAY:
 		checkError(b.WriteString("weekday"))
-		inline = true
 	}
 
 	checkError(b.WriteString("["))
 
 	for i, expr := range e.List {
-		expr.format(b, padding, inline)
+		if c, ok := expr.(calendarExpr); ok {
+			c.formatBody(b)
+		} else {
+			expr.format(b, padding, inline)
+		}
 		if i+1 < len(e.List) {
 			checkError(b.WriteString(", "))
 		}
@@ -453,24 +445,38 @@ func (e *IntTyp) format(w io.StringWriter, _ string, _ bool) {
 	checkError(w.WriteString(strconv.Itoa(e.Val)))
 }
 
-func (e *DateTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("date["))
-	}
+// calendarExpr is a literal written as keyword[body], where a list
+// or a range of them has a single keyword: keyword[body, body].
+type calendarExpr interface {
+	keyword() string
+	formatBody(w io.StringWriter)
+}
+
+func (e *DateTyp) keyword() string    { return "date" }
+func (e *TimeTyp) keyword() string    { return "time" }
+func (e *WeekdayTyp) keyword() string { return "weekday" }
+func (e *MonthTyp) keyword() string   { return "month" }
+
+func formatCalendar(w io.StringWriter, e calendarExpr) {
+	checkError(w.WriteString(e.keyword() + "["))
+	e.formatBody(w)
+	checkError(w.WriteString("]"))
+}
+
+func (e *DateTyp) format(w io.StringWriter, _ string, _ bool)    { formatCalendar(w, e) }
+func (e *TimeTyp) format(w io.StringWriter, _ string, _ bool)    { formatCalendar(w, e) }
+func (e *WeekdayTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+func (e *MonthTyp) format(w io.StringWriter, _ string, _ bool)   { formatCalendar(w, e) }
+
+func (e *DateTyp) formatBody(w io.StringWriter) {
 	checkError(w.WriteString(d2s(e.Year)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Month)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Day)))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("time["))
-	}
+func (e *TimeTyp) formatBody(w io.StringWriter) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(strconv.Itoa(e.Hours)))
 	} else {
@@ -485,29 +491,14 @@ func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(e.U.String()))
 	}
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *WeekdayTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("weekday["))
-	}
+func (e *WeekdayTyp) formatBody(w io.StringWriter) {
 	checkError(w.WriteString(shortDayNames[e.Val]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("month["))
-	}
+func (e *MonthTyp) formatBody(w io.StringWriter) {
 	checkError(w.WriteString(shortMonthNames[e.Val-1]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
 func d2s(n int) string {
-- 
2.43.0


From d252196fda6db15144594c5075ffb3268f37b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 27/53] fix: format rem with spaces around it

a rem b was written as arembb, a different selector.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 7aa75ac..59da99d 100644
--- a/format.go
+++ b/format.go
@@ -358,7 +358,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO, REM:
+	case ADD, SUB, MUL, QUO:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From f25f2360fae8772673e5c1b3478b98303e41fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 28/53] fix: format integral floats as floats, not as integers

---
 format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format.go b/format.go
index 59da99d..b26b453 100644
--- a/format.go
+++ b/format.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -234,6 +235,9 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 	formatFloat(w, e.Val)
+	if e.Val == math.Trunc(e.Val) {
+		checkError(w.WriteString(".0"))
+	}
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From ad6e10d3c37ba13da69c2619a6940dbc43d9c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 29/53] fix: format values beyond the integer range so that
 they can be parsed again

---
 format.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index b26b453..be717a0 100644
--- a/format.go
+++ b/format.go
@@ -77,6 +77,10 @@ func (t *Trigger) format(_ io.StringWriter, _ string, _ bool) {}
 
 func formatFloat(w io.StringWriter, v float64) {
 	checkError(w.WriteString(strconv.FormatFloat(v, 'f', -1, 64)))
+	if math.Abs(v) >= math.MaxInt {
+		// too large to be read back as an integer
+		checkError(w.WriteString(".0"))
+	}
 }
 
 func (e *GeometryMultiObjectTyp) format(w io.StringWriter, padding string, inline bool) {
@@ -235,7 +239,7 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 	formatFloat(w, e.Val)
-	if e.Val == math.Trunc(e.Val) {
+	if e.Val == math.Trunc(e.Val) && math.Abs(e.Val) < math.MaxInt {
 		checkError(w.WriteString(".0"))
 	}
 }
-- 
2.43.0


From bf28e331f35cac2426a31faa88f406a795369a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 30/53] fix: format durations with fractions of a second so
 that they can be parsed again

---
 format.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index be717a0..1484f5d 100644
--- a/format.go
+++ b/format.go
@@ -5,6 +5,8 @@ import (
 	"io"
 	"math"
 	"strconv"
+	"strings"
+	"time"
 )
 
 const (
@@ -245,7 +247,14 @@ func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-	checkError(b.WriteString(e.Val.String()))
+	if e.Val%time.Second == 0 {
+		checkError(b.WriteString(e.Val.String()))
+		return
+	}
+	// a literal has a fraction only in front of its first unit
+	frac := fmt.Sprintf("%09d", e.Val%time.Second)
+	checkError(b.WriteString(strconv.FormatInt(int64(e.Val/time.Second), 10)))
+	checkError(b.WriteString("." + strings.TrimRight(frac, "0") + "s"))
 }
 
 func (e *TemperatureTyp) format(w io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From d6b3531419ab59d037ada88510a41ac1fc360938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 31/53] fix: report write errors of boolean literals

---
 ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ede9e36..2304a54 100644
--- a/ast.go
+++ b/ast.go
@@ -294,9 +294,9 @@ type BooleanTyp struct {
 func (e *BooleanTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Val {
 	case true:
-		b.WriteString("true")
+		checkError(b.WriteString("true"))
 	case false:
-		b.WriteString("false")
+		checkError(b.WriteString("false"))
 	}
 	return
 }
-- 
2.43.0


From 12cb109f7eba8f21bcceac7600a9dd7264d75607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 32/53] fix: format device ids in a fixed order

---
 ast.go    | 12 +++++++++++-
 format.go |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 2304a54..2801c60 100644
--- a/ast.go
+++ b/ast.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"sort"
 	"time"
 )
 
@@ -268,10 +269,19 @@ func (e *Selector) calculateEnd(p Pos) {
 	}
 }
 
+func (e *Selector) sortedArgs() []string {
+	args := make([]string, 0, len(e.Args))
+	for k := range e.Args {
+		args = append(args, k)
+	}
+	sort.Strings(args)
+	return args
+}
+
 func (e *Selector) needExpand() (ok bool) {
 	var n int
 	var i int
-	for k := range e.Args {
+	for _, k := range e.sortedArgs() {
 		n += len(k)
 		if n > 64 {
 			ok = true
diff --git a/format.go b/format.go
index 1484f5d..5701144 100644
--- a/format.go
+++ b/format.go
@@ -302,7 +302,7 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 				checkError(b.WriteString(", "))
 			}
 		}
-		for k := range e.Args {
+		for _, k := range e.sortedArgs() {
 			if !inline && expand {
 				checkError(b.WriteString("\n" + pad2))
 			}
-- 
2.43.0


From cb5f3ba95a3d44de152a921448f7566328769449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 33/53] fix: use the visitor returned by Visit for the children
 of a node

---
 walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/walk.go b/walk.go
index bfbde08..71ff5fd 100644
--- a/walk.go
+++ b/walk.go
@@ -5,7 +5,7 @@ type Visitor interface {
 }
 
 func Walk(v Visitor, expr Expr) {
-	if v.Visit(expr) == nil {
+	if v = v.Visit(expr); v == nil {
 		return
 	}
 	switch typ := expr.(type) {
-- 
2.43.0


From ea6ebf72576962952a7ce068646fcad3d82811f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 34/53] fix: walk the members and margins of geometries

---
 walk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/walk.go b/walk.go
index 71ff5fd..087af98 100644
--- a/walk.go
+++ b/walk.go
@@ -27,6 +27,22 @@ func Walk(v Visitor, expr Expr) {
 		for i := 0; i < len(typ.List); i++ {
 			Walk(v, typ.List[i])
 		}
+	case *GeometryPointTyp:
+		if typ.Radius != nil {
+			Walk(v, typ.Radius)
+		}
+	case *GeometryLineTyp:
+		if typ.Margin != nil {
+			Walk(v, typ.Margin)
+		}
+	case *GeometryMultiObjectTyp:
+		for i := 0; i < len(typ.Val); i++ {
+			Walk(v, typ.Val[i])
+		}
+	case *GeometryCollectionTyp:
+		for i := 0; i < len(typ.Objects); i++ {
+			Walk(v, typ.Objects[i])
+		}
 	case *Assign:
 		Walk(v, typ.Left)
 		Walk(v, typ.Right)
-- 
2.43.0


From acd4947baa6ab513bcebe10ecfb6e7e72fdb64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 35/53] fix: do not visit the absent clauses of a statement

---
 walk.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/walk.go b/walk.go
index 087af98..4aebceb 100644
--- a/walk.go
+++ b/walk.go
@@ -53,9 +53,15 @@ func Walk(v Visitor, expr Expr) {
 			}
 		}
 		Walk(v, typ.When)
-		Walk(v, typ.RepeatCount)
-		Walk(v, typ.RepeatInterval)
-		Walk(v, typ.ResetAfter)
+		if typ.RepeatCount != nil {
+			Walk(v, typ.RepeatCount)
+		}
+		if typ.RepeatInterval != nil {
+			Walk(v, typ.RepeatInterval)
+		}
+		if typ.ResetAfter != nil {
+			Walk(v, typ.ResetAfter)
+		}
 	}
 	v.Visit(nil)
 }
-- 
2.43.0


From 6303b74a508f7941dff5125eca2a834d64685437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 36/53] fix: treat polygons as geometries in the type check

---
 typecheck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 128a260..edcbd41 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -445,7 +445,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 
 func (tc *checker) isGeometry(in Expr) (ok bool) {
 	switch typ := in.(type) {
-	case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
+	case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp, *GeometryPolygonTyp,
 		*GeometryMultiObjectTyp:
 		ok = true
 	case *Ref:
@@ -454,7 +454,7 @@ func (tc *checker) isGeometry(in Expr) (ok bool) {
 			return
 		}
 		switch assign.Right.(type) {
-		case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
+		case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp, *GeometryPolygonTyp,
 			*GeometryMultiObjectTyp:
 			ok = true
 		}
-- 
2.43.0


From 2cfa5bcc71089a640152e3cd127bfda9c5549202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 37/53] fix: recognise selectors declared as integer arrays in
 the type check

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index edcbd41..e04f134 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -481,6 +481,9 @@ func (tc *checker) isInt(in Expr) (ok bool) {
 		if err != nil {
 			return
 		}
+		if array, isArray := selector.(*ArrayTyp); isArray {
+			selector = array.List[0]
+		}
 		switch selector.(type) {
 		case *IntTyp:
 			ok = true
-- 
2.43.0


From 592d09ec2192e4c568053342083a40a9c38268d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 38/53] fix: check the type of the high end of a range

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index e04f134..0a2e553 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -391,6 +391,9 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 	if !ok {
 		return
 	}
+	if typ != STRING && !tc.isNumber(range_.High) {
+		return false
+	}
 	switch typ {
 	case INT:
 		return tc.isInt(range_.Low)
-- 
2.43.0


From 6de128636429176987dc3c086eb54c37af463f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 39/53] fix: resolve variables holding a range in the type
 check

---
 typecheck.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 0a2e553..bbdd666 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -387,6 +387,13 @@ func (tc *checker) isString(in Expr) (ok bool) {
 }
 
 func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
+	if ref, isRef := in.(*Ref); isRef {
+		assign, err := tc.trigger.findAssign(ref.ID)
+		if err != nil {
+			return
+		}
+		in = assign.Right
+	}
 	range_, ok := in.(*Range)
 	if !ok {
 		return
-- 
2.43.0


From ab742be1ad9761acb79a19a85340bc9499495148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 40/53] fix: check the type of every element of an array, not
 only the first

---
 typecheck.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index bbdd666..045421e 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -413,17 +413,17 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 }
 
 func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
-	var item Expr
+	var items []Expr
 	switch t := in.(type) {
 	default:
 		return
 	case *Selector:
-		item = t
+		items = []Expr{t}
 	case *ArrayTyp:
 		if len(t.List) == 0 {
 			return
 		}
-		item = t.List[0]
+		items = t.List
 	case *Ref:
 		assign, err := tc.trigger.findAssign(t.ID)
 		if err != nil {
@@ -436,19 +436,24 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 			if len(tt.List) == 0 {
 				return
 			}
-			item = tt.List[0]
+			items = tt.List
 		}
 	}
 
-	switch typ {
-	case BOOLEAN:
-		return tc.isBoolean(item)
-	case INT:
-		return tc.isInt(item)
-	case FLOAT:
-		return tc.isFloat(item)
-	case STRING:
-		return tc.isString(item)
+	for _, item := range items {
+		switch typ {
+		case BOOLEAN:
+			ok = tc.isBoolean(item)
+		case INT:
+			ok = tc.isInt(item)
+		case FLOAT:
+			ok = tc.isFloat(item)
+		case STRING:
+			ok = tc.isString(item)
+		}
+		if !ok {
+			break
+		}
 	}
 	return
 }
-- 
2.43.0


From eb363733e72bd335a590061517874540ddee5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 41/53] fix: limit the number of operators, whose tree
 overflowed the stack when formatted

---
 parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.go b/parser.go
index 37bd3bc..d4a408d 100644
--- a/parser.go
+++ b/parser.go
@@ -12,6 +12,9 @@ var errNegativeValue = errors.New("value cannot be negative")
 // maxDepth limits the nesting of expressions, and with it the use of the stack.
 const maxDepth = 1000
 
+// maxOperators limits the height of the tree built from a chain of operators.
+const maxOperators = 1000000
+
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
 	t := NewTokenizer(r)
@@ -27,6 +30,7 @@ type parser struct {
 	err  error
 	sign Token
 	nest int
+	nops int
 	lpos Pos
 	rpos Pos
 }
@@ -248,6 +252,11 @@ func (s *parser) parseBinaryExpr(oprec0 int) (Expr, error) {
 		if oprec < oprec0 {
 			return left, nil
 		}
+		s.nops++
+		if s.nops > maxOperators {
+			s.err = fmt.Errorf("too many operators")
+			return nil, s.error()
+		}
 
 		right, err := s.parseBinaryExpr(oprec + 1)
 		if err != nil {
-- 
2.43.0


From 732a785501d7c77a409a9a6e790258f6bbcfcaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 42/53] fix: report the offset and text of the current token,
 not of the look-ahead

---
 parser.go |  2 +-
 token.go  | 42 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index d4a408d..9f95957 100644
--- a/parser.go
+++ b/parser.go
@@ -150,7 +150,7 @@ func (s *parser) parseSet(stmt *Trigger) error {
 		if !s.except(ASSIGN) {
 			return s.error()
 		}
-		tokPos := s.t.Offset() - 1
+		tokPos := s.t.Offset()
 		expr, err := s.parseUnaryExpr()
 		if err != nil {
 			return err
diff --git a/token.go b/token.go
index aa1d7ed..da538bf 100644
--- a/token.go
+++ b/token.go
@@ -19,6 +19,11 @@ type Tokenizer struct {
 	tok rune
 	lit string
 	err error
+
+	text string // source text of the current token
+	pos  Pos    // its first byte
+	end  Pos    // its last byte
+	last Pos    // the last byte of the token before
 }
 
 func NewTokenizer(r io.Reader) *Tokenizer {
@@ -57,15 +62,31 @@ func (t *Tokenizer) Err() error {
 }
 
 func (t *Tokenizer) Offset() Pos {
-	return Pos(t.s.Offset)
+	return t.pos
 }
 
 func (t *Tokenizer) TokenText() string {
-	return t.s.TokenText()
+	return t.text
+}
+
+// mark starts the current token at the last text read from the scanner,
+// which is not where the scanner is after it looked ahead.
+func (t *Tokenizer) mark(s string) {
+	t.last = t.end
+	t.text = s
+	t.pos = Pos(t.s.Offset)
+	t.end = t.pos + Pos(len(s)) - 1
+}
+
+// extend ends the current token with the last text read from the scanner.
+func (t *Tokenizer) extend(s string) {
+	t.text += s
+	t.end = Pos(t.s.Offset+len(s)) - 1
 }
 
 func (t *Tokenizer) Scan() (tok Token, lit string) {
 	r, s := t.next()
+	t.mark(s)
 	lit = strings.ToLower(s)
 	switch r {
 	case scanner.EOF:
@@ -77,20 +98,22 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 	case scanner.String:
 		tok = STRING
 	case '.':
-		nr, _ := t.next()
+		nr, ns := t.next()
 		switch nr {
 		case '.':
 			tok = RANGE
+			t.extend(ns)
 			lit = KeywordString(tok)
 		default:
 			tok = PERIOD
 			t.Reset()
 		}
 	case '=':
-		nr, _ := t.next()
+		nr, ns := t.next()
 		switch nr {
 		case '=':
 			tok = LEQL
+			t.extend(ns)
 			lit = KeywordString(tok)
 		default:
 			tok = ASSIGN
@@ -123,30 +146,33 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 	case '*':
 		tok = MUL
 	case '!':
-		nr, _ := t.next()
+		nr, ns := t.next()
 		switch nr {
 		case '=':
 			tok = LNEQ
+			t.extend(ns)
 			lit = KeywordString(tok)
 		default:
 			tok = ILLEGAL
 			t.Reset()
 		}
 	case '>':
-		nr, _ := t.next()
+		nr, ns := t.next()
 		switch nr {
 		case '=':
 			tok = GEQ
+			t.extend(ns)
 			lit = KeywordString(tok)
 		default:
 			tok = GTR
 			t.Reset()
 		}
 	case '<':
-		nr, _ := t.next()
+		nr, ns := t.next()
 		switch nr {
 		case '=':
 			tok = LEQ
+			t.extend(ns)
 			lit = KeywordString(tok)
 		default:
 			tok = LSS
@@ -196,6 +222,8 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 				found = true
 				kwd = notkwd
 				lit = notlit
+				t.text += " "
+				t.extend(s)
 			} else {
 				t.Reset()
 			}
-- 
2.43.0


From df15a4f1a3fd95df521fc7bcc9a6d7f304fb69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 43/53] fix: end of operator, parenthesised and wildcard
 expressions

---
 ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast.go b/ast.go
index 2801c60..6732f62 100644
--- a/ast.go
+++ b/ast.go
@@ -342,13 +342,13 @@ func (e *WeekdayTyp) isExpr()             {}
 func (e *MonthTyp) isExpr()               {}
 
 func (e *BinaryExpr) Pos() Pos             { return e.Left.Pos() }
-func (e *BinaryExpr) End() Pos             { return e.Right.Pos() }
+func (e *BinaryExpr) End() Pos             { return e.Right.End() }
 func (e *ParenExpr) Pos() Pos              { return e.lpos }
-func (e *ParenExpr) End() Pos              { return e.Expr.End() }
+func (e *ParenExpr) End() Pos              { return e.rpos }
 func (e *Selector) Pos() Pos               { return e.lpos }
 func (e *Selector) End() Pos               { return e.rpos }
 func (e *WildcardTyp) Pos() Pos            { return e.lpos }
-func (e *WildcardTyp) End() Pos            { return e.lpos + 1 }
+func (e *WildcardTyp) End() Pos            { return e.lpos }
 func (e *BooleanTyp) Pos() Pos             { return e.lpos }
 func (e *BooleanTyp) End() Pos             { return e.rpos }
 func (e *SpeedTyp) Pos() Pos               { return e.lpos }
-- 
2.43.0


From 543f0de4b3aaf265edf09e6429a973a7641ad26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 44/53] fix: positions of numbers, unit literals, booleans and
 references

They assumed a sign and a unit without white space before or after, counted
units by their canonical spelling, and left the end of some literals at zero.
---
 primitive.go | 47 +++++++++++++++++++++++------------------------
 token.go     |  6 ++++--
 2 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/primitive.go b/primitive.go
index b55ec3d..1518536 100644
--- a/primitive.go
+++ b/primitive.go
@@ -6,11 +6,12 @@ import (
 )
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
+	lpos := s.t.Offset()
 	s.next()
 	if !s.except(SELECTOR) {
 		return nil, s.error()
 	}
-	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
+	expr = &Ref{ID: s.t.TokenText(), lpos: lpos, rpos: s.t.end}
 	s.next()
 	return
 }
@@ -26,8 +27,16 @@ func (s *parser) parseStringLit() (expr Expr, err error) {
 	return
 }
 
+// startOfNumber returns the position of the current number or of its sign.
+func (s *parser) startOfNumber() Pos {
+	if s.isSignPlus() || s.isSignMinus() {
+		return s.t.lastPos
+	}
+	return s.t.Offset()
+}
+
 func (s *parser) parseFloatTypes() (expr Expr, err error) {
-	s.lpos = s.t.Offset()
+	s.lpos = s.startOfNumber()
 	val, err := strconv.ParseFloat(s.lit, 64)
 	if err != nil {
 		return nil, s.error()
@@ -40,16 +49,13 @@ func (s *parser) parseFloatTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			val = -val
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
-		expr = &FloatTyp{Val: val, lpos: s.lpos, rpos: s.t.Offset() - 1}
+		expr = &FloatTyp{Val: val, lpos: s.lpos, rpos: s.rpos}
 	}
 	return
 }
 
 func (s *parser) parseIntTypes() (expr Expr, err error) {
-	s.lpos = s.t.Offset()
+	s.lpos = s.startOfNumber()
 	intval, err := strconv.Atoi(s.lit)
 	if err != nil {
 		return nil, s.error()
@@ -62,18 +68,15 @@ func (s *parser) parseIntTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			intval = -intval
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
-		expr = &IntTyp{Val: intval, lpos: s.lpos, rpos: s.t.Offset() - 1}
+		expr = &IntTyp{Val: intval, lpos: s.lpos, rpos: s.rpos}
 	}
 	return
 }
 
 func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	plit := s.lit
-	s.rpos = s.t.Offset() - 1
 	s.next()
+	s.rpos = s.t.last
 	var unit string
 	switch {
 	case s.except(SELECTOR):
@@ -81,14 +84,13 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	case s.except(ILLEGAL) && s.lit == "%":
 		unit = s.lit
 	}
-	litlen := Pos(len(plit))
 	switch {
 	case isPercentUnit(unit):
 		if s.isSignMinus() {
 			s.err = errNegativeValue
 			return nil, s.error()
 		}
-		s.rpos += litlen + 1
+		s.rpos = s.t.end
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
@@ -97,7 +99,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			return nil, s.error()
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
+		s.rpos = s.t.end
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isDistanceUnit(unit):
@@ -106,7 +108,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			return nil, s.error()
 		}
 		u := unitFromString(unit)
-		s.rpos += litlen + u.size()
+		s.rpos = s.t.end
 		expr = &DistanceTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isSpeedUnit(unit):
@@ -115,7 +117,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			return nil, s.error()
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
+		s.rpos = s.t.end
 		expr = &SpeedTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isTemperatureUnit(unit):
@@ -126,11 +128,8 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		if s.isSignPlus() {
 			ts = Plus
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
+		s.rpos = s.t.end
 		expr = &TemperatureTyp{Val: v, U: u, Vec: ts, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	default:
@@ -148,7 +147,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			if er != nil {
 				return nil, s.error()
 			}
-			s.rpos = s.lpos + Pos(len(plit+s.lit)-1)
+			s.rpos = s.t.end
 			expr = &DurationTyp{Val: dur, lpos: s.lpos, rpos: s.rpos}
 			s.next()
 		}
@@ -189,9 +188,9 @@ func (s *parser) parseBooleanLit() (expr Expr, err error) {
 	default:
 		return nil, s.error()
 	case "true", "up":
-		expr = &BooleanTyp{Val: true, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: true, lpos: s.t.Offset(), rpos: s.t.end}
 	case "false", "down":
-		expr = &BooleanTyp{Val: false, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: false, lpos: s.t.Offset(), rpos: s.t.end}
 	}
 	s.next()
 	return
diff --git a/token.go b/token.go
index da538bf..f290c38 100644
--- a/token.go
+++ b/token.go
@@ -23,7 +23,9 @@ type Tokenizer struct {
 	text string // source text of the current token
 	pos  Pos    // its first byte
 	end  Pos    // its last byte
-	last Pos    // the last byte of the token before
+
+	lastPos Pos // the first byte of the token before
+	last    Pos // and its last byte
 }
 
 func NewTokenizer(r io.Reader) *Tokenizer {
@@ -72,7 +74,7 @@ func (t *Tokenizer) TokenText() string {
 // mark starts the current token at the last text read from the scanner,
 // which is not where the scanner is after it looked ahead.
 func (t *Tokenizer) mark(s string) {
-	t.last = t.end
+	t.lastPos, t.last = t.pos, t.end
 	t.text = s
 	t.pos = Pos(t.s.Offset)
 	t.end = t.pos + Pos(len(s)) - 1
-- 
2.43.0


From 623e952b1680bbbeedb1f92afee6f65f59284b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 45/53] fix: positions of ranges and of selectors followed by
 white space

---
 ast.go       | 11 -----------
 composite.go | 11 +++++------
 2 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/ast.go b/ast.go
index 6732f62..f3d7414 100644
--- a/ast.go
+++ b/ast.go
@@ -258,17 +258,6 @@ type Selector struct {
 	rpos     Pos
 }
 
-func (e *Selector) calculateEnd(p Pos) {
-	if len(e.Props) > 0 {
-		e.rpos = e.Props[len(e.Props)-1].End()
-	} else {
-		if p > 0 {
-			p -= 1
-		}
-		e.rpos = p
-	}
-}
-
 func (e *Selector) sortedArgs() []string {
 	args := make([]string, 0, len(e.Args))
 	for k := range e.Args {
diff --git a/composite.go b/composite.go
index 51d596c..201a727 100644
--- a/composite.go
+++ b/composite.go
@@ -93,7 +93,6 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if isRangeExpr {
 		return nil, s.error()
 	}
-	startPos := s.t.Offset()
 	high, err := s.parseUnaryExpr()
 	if err != nil {
 		return
@@ -101,8 +100,8 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	return &Range{
 		Low:  low,
 		High: high,
-		lpos: startPos,
-		rpos: s.t.Offset(),
+		lpos: low.Pos(),
+		rpos: high.End(),
 	}, nil
 }
 
@@ -113,7 +112,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 
 	if !s.except(LBRACE, COLON) {
 		selector.Wildcard = true
-		selector.calculateEnd(s.t.Offset())
+		selector.rpos = s.t.last
 		return selector, nil
 	}
 
@@ -123,7 +122,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		selector.Wildcard = true
-		selector.calculateEnd(s.t.Offset())
+		selector.rpos = s.t.last
 		return selector, nil
 	}
 
@@ -166,7 +165,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 			return nil, err
 		}
 	}
-	selector.calculateEnd(s.t.Offset())
+	selector.rpos = s.t.last
 	return selector, nil
 }
 
-- 
2.43.0


From 2232a6d5c9a2ec5bc882ce681b751331ff8cbc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 46/53] fix: positions of geometries followed by white space, a
 margin or a member

---
 geometry.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/geometry.go b/geometry.go
index 34b49cf..c6830f6 100644
--- a/geometry.go
+++ b/geometry.go
@@ -4,6 +4,7 @@ import "strconv"
 
 func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	geotyp := s.tok
+	lpos := s.t.Offset()
 	s.next()
 	if !s.except(LBRACK) {
 		return nil, s.error()
@@ -12,7 +13,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	multiobj := &GeometryMultiObjectTyp{
 		Kind: geotyp,
 		Val:  make([]Expr, 0),
-		lpos: s.t.Offset(),
+		lpos: lpos,
 	}
 	for {
 		if !isGeometryToken(s.tok) {
@@ -49,7 +50,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 			s.next()
 		}
 	}
-	multiobj.rpos = s.t.Offset()
+	multiobj.rpos = s.t.last
 	if len(multiobj.Val) == 0 {
 		return nil, s.error()
 	}
@@ -90,7 +91,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 			s.next()
 		}
 	}
-	collection.rpos = s.t.Offset()
+	collection.rpos = s.t.last
 	if len(collection.Objects) == 0 {
 		return nil, s.error()
 	}
@@ -227,7 +228,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	}
 	switch geomtyp {
 	case GEOMETRY_POINT:
-		point := &GeometryPointTyp{Val: aa, lpos: sp, rpos: s.t.Offset() - 1}
+		point := &GeometryPointTyp{Val: aa, lpos: sp, rpos: s.t.last}
 		if !s.except(COLON) {
 			return point, nil
 		}
@@ -237,10 +238,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		point.Radius = radius
-		point.rpos = s.t.Offset()
+		point.rpos = s.t.last
 		return point, nil
 	case GEOMETRY_LINE:
-		line := &GeometryLineTyp{Val: bb, lpos: sp, rpos: s.t.Offset() - 1}
+		line := &GeometryLineTyp{Val: bb, lpos: sp, rpos: s.t.last}
 		if !s.except(COLON) {
 			return line, nil
 		}
@@ -250,10 +251,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		line.Margin = margin
-		line.rpos = s.t.Offset()
+		line.rpos = s.t.last
 		return line, nil
 	case GEOMETRY_POLYGON:
-		return &GeometryPolygonTyp{Val: cc, lpos: sp, rpos: s.t.Offset() - 1}, nil
+		return &GeometryPolygonTyp{Val: cc, lpos: sp, rpos: s.t.last}, nil
 	}
 	err = s.error()
 	return
-- 
2.43.0


From d8de24132b853d10b036cbc4f5080be563a78d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 47/53] fix: positions of calendar list and range elements and
 of am/pm times

---
 datetime.go | 20 +++++++++++++-------
 units.go    | 21 ---------------------
 2 files changed, 13 insertions(+), 28 deletions(-)

diff --git a/datetime.go b/datetime.go
index 519c91a..d2d661f 100644
--- a/datetime.go
+++ b/datetime.go
@@ -31,6 +31,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		if !s.except(INT, SUB, COMMA, RANGE) {
 			return nil, s.error()
 		}
+		start := s.t.Offset()
 		y, err = strconv.Atoi(s.lit)
 		if err != nil {
 			s.err = err
@@ -85,8 +86,8 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			Year:  y,
 			Month: m,
 			Day:   d,
-			lpos:  lpos,
-			rpos:  s.t.Offset(),
+			lpos:  start,
+			rpos:  s.t.last,
 		}
 		switch s.tok {
 		case COMMA:
@@ -110,6 +111,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				date.lpos, date.rpos = lpos, s.t.Offset()
 				s.next()
 				return date, nil
 			case isArrayTyp():
@@ -156,6 +158,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		if !s.except(INT, COLON, COMMA, RANGE) {
 			return nil, s.error()
 		}
+		start := s.t.Offset()
 		h, err = strconv.Atoi(s.lit)
 		if err != nil {
 			s.err = err
@@ -217,8 +220,8 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			Hours:   h,
 			Minutes: m,
 			Seconds: c,
-			lpos:    lpos,
-			rpos:    s.t.Offset(),
+			lpos:    start,
+			rpos:    s.t.last,
 		}
 
 		if s.except(SELECTOR) {
@@ -227,7 +230,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				return nil, s.error()
 			}
 			time_.U = unitFromString(s.lit)
-			time_.rpos = s.t.Offset() + time_.U.size()
+			time_.rpos = s.t.end
 			s.next()
 		}
 
@@ -253,6 +256,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				time_.lpos, time_.rpos = lpos, s.t.Offset()
 				s.next()
 				return time_, nil
 			case isArrayTyp():
@@ -317,7 +321,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 			weekday = 6
 		}
 		s.next()
-		wd := &WeekdayTyp{Val: weekday, lpos: lpos, rpos: s.t.Offset()}
+		wd := &WeekdayTyp{Val: weekday, lpos: s.t.lastPos, rpos: s.t.last}
 		switch s.tok {
 		case COMMA:
 			if rangeExpr != nil {
@@ -340,6 +344,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				wd.lpos, wd.rpos = lpos, s.t.Offset()
 				s.next()
 				return wd, nil
 			case isArrayTyp():
@@ -414,7 +419,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 			month = 12
 		}
 		s.next()
-		wd := &MonthTyp{Val: month, lpos: lpos, rpos: s.t.Offset()}
+		wd := &MonthTyp{Val: month, lpos: s.t.lastPos, rpos: s.t.last}
 		switch s.tok {
 		case COMMA:
 			if rangeExpr != nil {
@@ -437,6 +442,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				wd.lpos, wd.rpos = lpos, s.t.Offset()
 				s.next()
 				return wd, nil
 			case isArrayTyp():
diff --git a/units.go b/units.go
index 4a193b5..6828d48 100644
--- a/units.go
+++ b/units.go
@@ -25,27 +25,6 @@ type (
 	Sign uint8
 )
 
-var unitSizes = map[Unit]Pos{
-	Kph:        3,
-	Mph:        3,
-	Celsius:    1,
-	Fahrenheit: 1,
-	Kilometer:  2,
-	Meter:      1,
-	Bar:        3,
-	Psi:        3,
-	AM:         2,
-	PM:         2,
-}
-
-func (u Unit) size() Pos {
-	p, ok := unitSizes[u]
-	if !ok {
-		return 0
-	}
-	return p
-}
-
 func (u Unit) String() (s string) {
 	switch u {
 	default:
-- 
2.43.0


From db61516c2ce6c0ddce89a21b2ac6203ee8894989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 48/53] fix: position of the statement from its first to its
 last token

---
 parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 9f95957..2eb9f12 100644
--- a/parser.go
+++ b/parser.go
@@ -40,7 +40,6 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 		return nil, s.error()
 	}
 	stmt = new(Trigger)
-	stmt.lpos = s.t.Offset()
 	if s.except(SET) {
 		if err = s.parseSet(stmt); err != nil {
 			return nil, err
@@ -71,7 +70,7 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 	if s.err = s.t.Err(); s.err != nil {
 		return nil, s.error()
 	}
-	stmt.rpos = s.t.Offset()
+	stmt.rpos = s.t.last
 	return stmt, nil
 }
 
@@ -212,6 +211,7 @@ func (s *parser) parse0() (stmt Statement, err error) {
 	s.next()
 	switch s.tok {
 	case TRIGGER, WHEN:
+		lpos := s.t.Offset()
 		if s.except(TRIGGER) {
 			s.next()
 		}
@@ -220,6 +220,7 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if err != nil {
 			return nil, err
 		}
+		trigger.lpos = lpos
 		stmt = trigger
 	default:
 		err = s.error()
-- 
2.43.0


From d650480b9d34b2ae5047c160450dadc287b5d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 49/53] fix: scan a period in front of a digit as a period

It got token 0, so that a range whose high end follows the periods
directly, 1 ..5, was rejected.
---
 scanner/scanner.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1fe49bc..1431fd4 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -577,9 +577,6 @@ redo:
 			ch = s.next()
 		case '.':
 			ch = s.next()
-			if isDecimal(ch) && s.Mode&ScanFloats != 0 {
-				tok, ch = s.scanNumber(ch, true)
-			}
 		case '/':
 			ch = s.next()
 			if (ch == '/' || ch == '*') && s.Mode&ScanComments != 0 {
-- 
2.43.0


From dfab807adf3273890e9a8464d2fdb3b3bbe93151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 50/53] fix: do not ask IsIdentRune about the end of the input

A function that accepts it made Scan loop forever.
---
 scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1431fd4..a268f75 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -332,7 +332,7 @@ func (s *Scanner) errorf(format string, args ...any) {
 
 func (s *Scanner) isIdentRune(ch rune, i int) bool {
 	if s.IsIdentRune != nil {
-		return s.IsIdentRune(ch, i)
+		return ch != EOF && s.IsIdentRune(ch, i)
 	}
 	return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch) && i > 0
 }
-- 
2.43.0


From 5de646b3fe8899c1eadd9c1318eaf6df7c51d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 51/53] fix: format division with spaces so that a wildcard
 does not open a comment

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 5701144..1eba93a 100644
--- a/format.go
+++ b/format.go
@@ -375,7 +375,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO:
+	case ADD, SUB, MUL: // not QUO: "/" and a wildcard would open a comment
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From 70effa4a768a581068b95142a14c4994561b8686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 52/53] fix: offset of a syntax error is that of the failing
 token

---
 parser.go | 11 +++++++----
 token.go  |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 2eb9f12..4a9288f 100644
--- a/parser.go
+++ b/parser.go
@@ -268,7 +268,7 @@ func (s *parser) parseBinaryExpr(oprec0 int) (Expr, error) {
 }
 
 func (s *parser) parseUnaryExpr() (expr Expr, err error) {
-	if s.t.Err() != nil {
+	if s.t.nerr > 0 {
 		s.err = s.t.Err()
 		return nil, s.error()
 	}
@@ -376,13 +376,16 @@ func (s *parser) parseParenExpr() (expr Expr, err error) {
 
 func (s *parser) error() error {
 	err := Error{
-		Offset: s.t.s.Offset,
+		Offset: int(s.t.Offset()),
 		Err:    s.err,
-		Lit:    s.t.lit,
+		Lit:    s.t.TokenText(),
+	}
+	if err.Err == nil {
+		err.Err = s.t.Err()
 	}
 	_, er := s.r.Seek(0, io.SeekStart)
 	if er == nil {
-		buf := make([]byte, s.t.s.Offset)
+		buf := make([]byte, err.Offset)
 		_, _ = s.r.Read(buf)
 		err.Msg = string(buf)
 	}
diff --git a/token.go b/token.go
index f290c38..4de4a31 100644
--- a/token.go
+++ b/token.go
@@ -20,6 +20,9 @@ type Tokenizer struct {
 	lit string
 	err error
 
+	seen int // number of errors before the last text read from the scanner
+	nerr int // number of errors before the current token
+
 	text string // source text of the current token
 	pos  Pos    // its first byte
 	end  Pos    // its last byte
@@ -42,6 +45,7 @@ func (t *Tokenizer) next() (rune, string) {
 	if t.hop != 0 {
 		t.hop = 0
 	} else {
+		t.seen = t.s.ErrorCount
 		t.tok, t.lit = t.s.Scan(), t.s.TokenText()
 	}
 	return t.tok, t.lit
@@ -75,6 +79,7 @@ func (t *Tokenizer) TokenText() string {
 // which is not where the scanner is after it looked ahead.
 func (t *Tokenizer) mark(s string) {
 	t.lastPos, t.last = t.pos, t.end
+	t.nerr = t.seen
 	t.text = s
 	t.pos = Pos(t.s.Offset)
 	t.end = t.pos + Pos(len(s)) - 1
-- 
2.43.0


From 05f88beeb5e6966b9cb2ccf5e5c2f00b55d36b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 53/53] fix: name the percent unit

Unit.String gave the mark of an unknown unit for Percent.
---
 units.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/units.go b/units.go
index 6828d48..26b0d42 100644
--- a/units.go
+++ b/units.go
@@ -45,6 +45,8 @@ func (u Unit) String() (s string) {
 		s = "Bar"
 	case Psi:
 		s = "Psi"
+	case Percent:
+		s = "%"
 	case AM:
 		s = "AM"
 	case PM:
-- 
2.43.0

