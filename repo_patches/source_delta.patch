From 50feed5834b4ac05653308fc4f20ee60f7acf587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:19 +0000
Subject: [PATCH 01/87] fix: repetition of a zero-width match must end

---
 mo_parsing/enhancement.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 47cd4b3..35992ad 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -249,13 +249,14 @@ class Many(ParseEnhancement):
                         else:
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
+                if result.end == result.start:
+                    break  # NO PROGRESS, MORE OF THE SAME WILL NOT HELP
                 end = result.end
-                if result.end - result.start:
-                    acc.append(result)
-                    failures.extend(result.failures)
-                    count += 1
-                    if count >= max:
-                        break
+                acc.append(result)
+                failures.extend(result.failures)
+                count += 1
+                if count >= max:
+                    break
 
         except ParseException as cause:
             failures.append(cause)
-- 
2.43.0


From 5f1396302441c1708eb16c49d6c9e98f777bed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:33 +0000
Subject: [PATCH 02/87] fix: negative lookahead must respect whitespace,
 conditions and elements without a regex

---
 mo_parsing/enhancement.py | 22 +++++++++++++---------
 mo_parsing/tokens.py      |  2 +-
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 35992ad..9107f50 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -139,11 +139,15 @@ class NotAny(LookAhead):
 
     def __init__(self, expr):
         super(NotAny, self).__init__(expr)
-        try:
-            prec, pattern = self.expr.__regex__()
-            self.regex = regex_compile(f"(?!{pattern})")
-        except Exception as c:
-            self.regex = None
+        self.regex = None
+        # ONLY TOKENS ARE EXACTLY DESCRIBED BY THEIR REGEX
+        # (COMPOSITES IGNORE WHITESPACE, CONDITIONS MAY REJECT A MATCH)
+        if isinstance(self.expr, Token) and not self.expr.parse_action:
+            try:
+                prec, pattern = self.expr.__regex__()
+                self.regex = regex_compile(f"(?!{pattern})")
+            except Exception as c:
+                pass
 
     def copy(self):
         output = ParseEnhancement.copy(self)
@@ -159,10 +163,10 @@ class NotAny(LookAhead):
             raise ParseException(self, start, string) from None
         else:
             try:
-                self.expr.parse(string, start, do_actions=True)
-                raise ParseException(self, start, string) from None
-            except:
+                self.expr._parse(string, start, do_actions)
+            except ParseException:
                 return ParseResults(self, start, start, [], [])
+            raise ParseException(self, start, string) from None
 
     def streamline(self):
         output = ParseEnhancement.streamline(self)
@@ -181,7 +185,7 @@ class NotAny(LookAhead):
         return 0
 
     def __regex__(self):
-        return "*", self.regex.pattern
+        return "*", f"(?!{self.expr.__regex__()[1]})"
 
     def __str__(self):
         if self.parser_name:
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 11ea5fa..1d9f300 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -645,7 +645,7 @@ class LineStart(Token):
         return LineEnd()
 
     def __regex__(self):
-        return "*", "^"
+        return "*", "(?m:^)"
 
 
 class LineEnd(Token):
-- 
2.43.0


From f7c24302bdadcd2581921c1205e047673fbac527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 03/87] fix: StringStart must return ParseResults

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 1d9f300..6fbcf25 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -697,7 +697,7 @@ class StringStart(Token):
             # see if entire string up to here is just whitespace and ignoreables
             # if loc != self.whitespace.skip(string, 0):
             raise ParseException(self, loc, string)
-        return []
+        return ParseResults(self, loc, loc, [], [])
 
     def min_length(self):
         return 0
-- 
2.43.0


From 1d7abbcc9c0df86dbef589aa34e08187a9b29b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:15 +0000
Subject: [PATCH 04/87] fix: White must fail at end of string, and provide one
 token

---
 mo_parsing/tokens.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 6fbcf25..722c4d0 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -600,7 +600,7 @@ class White(Token):
         self.set_config(min_len=min, max_len=max, white_chars=white_chars)
 
     def parse_impl(self, string, start, do_actions=True):
-        if string[start] not in self.parser_config.white_chars:
+        if start >= len(string) or string[start] not in self.parser_config.white_chars:
             raise ParseException(self, start, string)
         end = start
         end += 1
@@ -613,9 +613,12 @@ class White(Token):
             raise ParseException(self, end, string)
 
         return ParseResults(
-            self, start, end, string[start:end], [ParseException(self, end, string)]
+            self, start, end, [string[start:end]], [ParseException(self, end, string)]
         )
 
+    def min_length(self):
+        return self.parser_config.min_len
+
     def reverse(self):
         return self
 
-- 
2.43.0


From 3395a91f1f4462cc0282f534e01e41131d70b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:27 +0000
Subject: [PATCH 05/87] fix: CharsNotIn must honour min, max and exact

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 722c4d0..fa20806 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -514,11 +514,11 @@ class CharsNotIn(Token):
             elif min == 1:
                 suffix = "+"
             else:
-                suffix = "{" + str(min) + ":}"
+                suffix = "{" + str(min) + ",}"
         elif min == 1 and max == 1:
             suffix = ""
         else:
-            suffix = "{" + str(min) + ":" + str(max) + "}"
+            suffix = "{" + str(min) + "," + str(max) + "}"
 
         self.set_config(
             regex=regex_compile(regex + suffix),
-- 
2.43.0


From 30af1b37b4203be64190ee1f8714d40e8a290b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:40 +0000
Subject: [PATCH 06/87] fix: Word with max=1 is one initial character

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index fa20806..645a754 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -369,7 +369,7 @@ class Word(Token):
                 " zero-length word is permitted"
             )
 
-        if body_chars == init_chars:
+        if body_chars == init_chars or max == 1:
             if init_chars.__class__.__name__ == "Regex":
                 init_chars = init_chars.expecting().keys()
             prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
-- 
2.43.0


From df1f4fefdc57523eca870508bfe839c452fbf3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:53 +0000
Subject: [PATCH 07/87] fix: caseless matching of punctuation, and of
 characters that change length

---
 mo_parsing/tokens.py |  2 +-
 mo_parsing/utils.py  | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 645a754..0371d84 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -262,7 +262,7 @@ class CaselessLiteral(Literal):
             Log.error("Literal must be at least one character")
         Token.__init__(self)
         self.set_config(
-            match=match, regex=regex_compile(regex_caseless(re.escape(match))),
+            match=match, regex=regex_compile(regex_caseless(match)),
         )
         self.parser_name = match
 
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index c89a6e8..ce87354 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -80,12 +80,13 @@ def regex_caseless(literal):
     """
     RETURN REGEX FOR CASELESS VERSION OF GIVEN LITERAL (SO WE DO NOT NEED CASELESS MODE)
     """
-    lower = literal.lower()
-    upper = literal.upper()
-    return "".join(
-        f"[{re.escape(l)}{re.escape(u)}]" if l != u else re.escape(u)
-        for l, u in zip(lower, upper)
-    )
+    def caseless(c):
+        lower, upper = c.lower(), c.upper()
+        if lower == upper or len(lower) != 1 or len(upper) != 1:
+            return re.escape(c)
+        return f"[{re.escape(lower)}{re.escape(upper)}]"
+
+    return "".join(caseless(c) for c in literal)
 
 
 _escapes = {"\n": "\\n", "\r": "\\r", "\t": "\\t"}
-- 
2.43.0


From 35c18ffc618376acb4ed9f71d7349bf821ba3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 08/87] fix: Char(as_keyword=True) must not crash

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 0371d84..118a133 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -447,7 +447,7 @@ class Char(Token):
             regex = regex_range(include)
 
         if as_keyword:
-            regex = r"\b%s\b" % self
+            regex = r"\b%s\b" % regex
         self.set_config(regex=regex_compile(regex), include=include, exclude=exclude)
 
     def parse_impl(self, string, start, do_actions=True):
-- 
2.43.0


From eed96dc2403150a0f03d9f1a345f6d6b778930a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:17 +0000
Subject: [PATCH 09/87] fix: character ranges that end just before the bell
 character

---
 mo_parsing/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index ce87354..86df5ff 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -108,8 +108,8 @@ def regex_range(s, exclude=False):
     start = None
     prev = None
     acc = ["[^"] if exclude else ["["]
-    for c in list(sorted(set(s))) + ["\a"]:
-        if prev and ord(prev) == ord(c) - 1:
+    for c in list(sorted(set(s))) + [None]:
+        if prev and c and ord(prev) == ord(c) - 1:
             if not start:
                 start = prev
         elif start:
-- 
2.43.0


From aaddb1c3dc4e5d3c4ee1f9e171a543f5015ee11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 10/87] fix: fast alternatives must choose the same alternative
 as one-by-one matching

---
 mo_parsing/enhancement.py |  8 ++++++-
 mo_parsing/expressions.py | 48 +++++++++++++++++++++++----------------
 mo_parsing/regex.py       |  4 ++--
 mo_parsing/tokens.py      |  6 ++---
 4 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 9107f50..39a1d7f 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -445,6 +445,9 @@ class SkipTo(ParseEnhancement):
         )
         self.parser_name = str(self)
 
+    def expecting(self):
+        return {}
+
     def min_length(self):
         return 0
 
@@ -623,7 +626,7 @@ class Forward(ParserElement):
         try:
             if not self.expr:
                 return {}
-            return self.expr.expecting()
+            return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
         finally:
             self._in_expecting = False
 
@@ -906,6 +909,9 @@ class PrecededBy(LookAhead):
         ret.__class__ = Annotation
         return ParseResults(self, start, start, [ret], [])
 
+    def expecting(self):
+        return {}
+
     def __regex__(self):
         if self.parser_config.exact:
             return "*", f"(?<={self.expr.__regex__()[1]})"
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index e363941..acf4bdb 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -51,22 +51,13 @@ class ParseExpression(ParserElement):
 
     def expecting(self):
         output = OrderedDict()
-        if not self.is_annotated():
-            for e in self.exprs:
-                expect = e.expecting()
-                if not expect:
-                    # NOT SURE WHAT THIS IS EXPECTING, BAIL
-                    return {}
-                for k, ee in expect.items():
-                    output.setdefault(k, []).extend(ee)
-        else:
-            for e in self.exprs:
-                expect = e.expecting()
-                if not expect:
-                    # NOT SURE WHAT THIS IS EXPECTING, BAIL
-                    return {}
-                for k, _ in expect.items():
-                    output[k] = [self]
+        for e in self.exprs:
+            expect = e.expecting()
+            if not expect:
+                # NOT SURE WHAT THIS IS EXPECTING, BAIL
+                return {}
+            for k in expect.keys():
+                output[k] = [self]
         return output
 
     def copy(self):
@@ -595,7 +586,8 @@ def faster(exprs):
     out = []
     has_expecting = True
     for o in exprs:
-        p = o.expecting()
+        # AN EMPTY MATCH EXPECTS NOTHING
+        p = o.expecting() if o.min_length() else {}
         if has_expecting:
             if p:
                 acc.append(p)
@@ -639,6 +631,19 @@ def _distinct(a, b):
     return ii
 
 
+def _simple_case(key):
+    """
+    RETURN True IF ALL CASES OF key CAN BE FOUND BY A CASELESS REGEX
+    """
+    lower = key.lower()
+    upper = lower.upper()
+    return (
+        len(key) == len(lower) == len(upper)
+        and upper.lower() == lower
+        and all(k in pair for k, pair in zip(key, zip(lower, upper)))
+    )
+
+
 class Fast(ParserElement):
     __slots__ = ["lookup", "regex", "all_keys"]
 
@@ -647,11 +652,13 @@ class Fast(ParserElement):
 
         all_keys = set()
         lookup = OrderedDict()
-        for m in maps:
+        for order, m in enumerate(maps):
             for k, ee in m.items():
+                if not _simple_case(k):
+                    Log.error("not useful")
                 k = k.lower()
                 all_keys.add(k)
-                lookup.setdefault(k, []).extend(ee)
+                lookup.setdefault(k, []).extend((order, e) for e in ee)
 
         # patterns must be mutually exclusive to work
         items = list(lookup.items())
@@ -672,7 +679,8 @@ class Fast(ParserElement):
                     acc.extend(ee)
                     ee.clear()
             if acc:
-                compact.append((min_k, acc))
+                # SAME ORDER AS GIVEN, NO DUPLICATES
+                compact.append((min_k, list(dict(sorted(acc, key=itemgetter(0))).values())))
         if len(maps) - max(len(v) for k, v in compact) <= 1:
             Log.error("not useful")
 
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 57489fe..bff4495 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -3,7 +3,6 @@
 # UNDER THE MIT LICENSE
 #
 # Contact: kyle@lahnakoski.com
-from collections import OrderedDict
 from string import whitespace
 
 from mo_future import unichr, is_text
@@ -356,7 +355,8 @@ class Regex(ParseEnhancement):
         return output
 
     def expecting(self):
-        return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
+        # THE PARSED PATTERN IS ONLY AN APPROXIMATION
+        return {}
 
     def min_length(self):
         return self.expr.min_length()
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 118a133..0b63fa7 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -136,7 +136,7 @@ class Literal(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
@@ -220,7 +220,7 @@ class Keyword(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
@@ -371,7 +371,7 @@ class Word(Token):
 
         if body_chars == init_chars or max == 1:
             if init_chars.__class__.__name__ == "Regex":
-                init_chars = init_chars.expecting().keys()
+                init_chars = init_chars.expr.expecting().keys()
             prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
         elif max is None or max == MAX_INT:
             with whitespaces.NO_WHITESPACE:
-- 
2.43.0


From 3f47d3c05ff0e45dccbadd287197668139c7637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:47 +0000
Subject: [PATCH 11/87] fix: Or must choose the longest alternative, and accept
 a single alternative

---
 mo_parsing/expressions.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index acf4bdb..90b0a33 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -91,11 +91,6 @@ class ParseExpression(ParserElement):
         acc = []
         same = True
         clazz = self.__class__
-        if clazz == Or:
-            clazz = (
-                Or,
-                MatchFirst,
-            )  # TODO: not correct, but allows merging of the two to a single longer list
         for e in self.exprs:
             f = e.streamline()
             same = same and f is e
@@ -364,11 +359,9 @@ class Or(ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                output = Empty()
+                return Empty()
             if len(output.exprs) == 1:
-                output = output.exprs[0]
-                if not isinstance(output, ParseExpression):
-                    return output
+                return output.exprs[0]
 
         output.alternate = faster(output.exprs)
 
@@ -430,7 +423,7 @@ class Or(ParseExpression):
             for loc, expr in matches:
                 if loc <= longest[0]:
                     # already have a longer match than this one will deliver, we are done
-                    return longest
+                    return longest[1]
 
                 try:
                     result = expr._parse(string, start, do_actions)
@@ -452,7 +445,9 @@ class Or(ParseExpression):
                         )
 
             if longest != (-1, None):
-                return longest
+                return longest[1]
+
+            raise ParseException(self, start, string, cause=failures)
 
     def check_recursion(self, seen=empty_tuple):
         seen_more = seen + (self,)
-- 
2.43.0


From ef4d99bb94ab3834bd8b145893dedae59e859174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:15 +0000
Subject: [PATCH 12/87] fix: SkipTo must not match when fail_on is found first

---
 mo_parsing/enhancement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 39a1d7f..9c29fe6 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -469,12 +469,13 @@ class SkipTo(ParseEnhancement):
             skip_end = loc
             loc = before_end = self.parser_config.whitespace.skip(string, loc)
             if fail:
-                # break if fail_on expression matches
+                # no match if fail_on expression is found first
                 try:
                     fail._parse(string, loc)
-                    break
-                except:
+                except ParseException:
                     pass
+                else:
+                    raise ParseException(self, start, string)
 
             if ignore:
                 # advance past ignore expressions
-- 
2.43.0


From 71ff14e0c59504a4b9f7f16241c7b27873444bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 13/87] fix: scan_string must not report the same match twice

---
 mo_parsing/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 456af6f..44cb081 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -200,8 +200,8 @@ class Parser(object):
             else:
                 matches += 1
                 yield tokens, tokens.start, tokens.end
-                if overlap or tokens.end <= end:
-                    end += 1
+                if overlap or tokens.end <= start:
+                    end = start + 1
                 else:
                     end = tokens.end
 
-- 
2.43.0


From 007c2f162c290148add7eed4220557bebb315e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:45 +0000
Subject: [PATCH 14/87] fix: minimum length of forwards and lookaheads decides
 left recursion

---
 mo_parsing/enhancement.py | 7 +++++--
 mo_parsing/tokens.py      | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 9c29fe6..216e11d 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -121,6 +121,9 @@ class LookAhead(ParseEnhancement):
 
         return ParseResults(self, start, start, [result], result.failures)
 
+    def min_length(self):
+        return 0
+
     def __regex__(self):
         return "*", f"(?={self.expr.__regex__()[1]})"
 
@@ -632,12 +635,12 @@ class Forward(ParserElement):
             self._in_expecting = False
 
     def min_length(self):
-        if self.min_length_cache is None and self.expr:
+        if self.min_length_cache == -1 and self.expr:
             self.min_length_cache = 0  # BREAK CYCLE
             try:
                 return self.expr.min_length()
             finally:
-                self.min_length_cache = None
+                self.min_length_cache = -1
         return 0
 
     @property
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 0b63fa7..71d7d32 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -335,6 +335,9 @@ class CloseMatch(Token):
 
         raise ParseException(self, start, string)
 
+    def min_length(self):
+        return len(self.parser_config.match)
+
     def reverse(self):
         return CloseMatch(self.parser_config.match[
             ::-1, self.parser_config.max_mismatches
-- 
2.43.0


From 0665bb6ec2248d29e82811edf1224cb101782cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:14 +0000
Subject: [PATCH 15/87] fix: assigning to an existing name must keep the name

---
 mo_parsing/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 0d343c6..46c1f23 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -93,6 +93,9 @@ class ParseResults(object):
         for i, tok in enumerate(self.tokens):
             if isinstance(tok, ParseResults):
                 if tok.name == k:
+                    if v is not NO_RESULTS:
+                        # KEEP THE NAME
+                        v = ParseResults(tok.type, tok.start, tok.end, enlist(v), [])
                     self.tokens[i] = v
                     v = NO_RESULTS  # ERASE ALL OTHERS
                 elif isinstance(tok.type, Group):
-- 
2.43.0


From 6848d20b02f366f60453e3a57f04fd2ce4e13916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 16/87] fix: skip whitespace after a lookbehind

---
 mo_parsing/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 90b0a33..74687f9 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -254,7 +254,7 @@ class And(ParseExpression):
         acc = []
         failures = []
         for i, expr in enumerate(self.exprs):
-            if end > index:
+            if end > start:
                 if isinstance(expr, LookBehind):
                     index = end
                 else:
-- 
2.43.0


From af6b641959a4dfb447d712a2883fbd6f3d6dcf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:46 +0000
Subject: [PATCH 17/87] fix: Combine must run the parse actions of its
 expression

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 216e11d..75c01b3 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -724,7 +724,7 @@ class Combine(TokenConverter):
 
     def parse_impl(self, string, start, do_actions=True):
         try:
-            result = self.expr.parse_impl(string, start, do_actions=do_actions)
+            result = self.expr._parse(string, start, do_actions=do_actions)
             return ParseResults(
                 self, start, result.end, [result.as_string(sep=self.parser_config.separator)], result.failures,
             )
-- 
2.43.0


From 9f0ff1e5d61351dd24cc1e0a449587bab23ee993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 18/87] fix: original_text_for and located_expr end where the
 expression ends

---
 mo_parsing/helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 225de4f..a68c035 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -11,6 +11,7 @@ from mo_parsing.enhancement import (
     Dict,
     Forward,
     Group,
+    LookBehind,
     OneOrMore,
     Optional,
     Suppress,
@@ -349,8 +350,10 @@ def originalTextFor(expr, as_string=True):
         ['<i>text</i>']
     """
     loc_marker = Empty() / (lambda _, l: l)
+    # LOOKING BACK DOES NOT SKIP WHITESPACE
+    end_marker = LookBehind(Empty()) / (lambda _, l: l)
     match_expr = (
-        loc_marker("_original_start") + Group(expr) + loc_marker("_original_end")
+        loc_marker("_original_start") + Group(expr) + end_marker("_original_end")
     )
     match_expr = match_expr / extract_text
     return match_expr
@@ -396,7 +399,9 @@ def located_expr(expr):
         [[18, 'lkkjj', 23]]
     """
     locator = Empty() / (lambda t, l, s: l)
-    return Group(locator("locn_start") + Group(expr)("value") + locator("locn_end"))
+    # LOOKING BACK DOES NOT SKIP WHITESPACE
+    end_locator = LookBehind(Empty()) / (lambda t, l, s: l)
+    return Group(locator("locn_start") + Group(expr)("value") + end_locator("locn_end"))
 
 
 def nested_expr(opener="(", closer=")", content=None, ignore_expr=quoted_string):
-- 
2.43.0


From 60ce55d2acd75e55f16a58467fc1708895bf8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 19/87] fix: debugger must give parse actions the same location

---
 mo_parsing/debug.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index bb79046..8cabe2f 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -59,7 +59,7 @@ def _debug_parse(debugger):
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             try:
                 for fn in self.parse_action:
-                    tokens = fn(tokens, start, string)
+                    tokens = fn(tokens, tokens.start, string)
             except Exception as cause:
                 fail(self, start, string, cause)
                 raise
-- 
2.43.0


From e4d41b0e9da26f793f22b8b2378e4563f265c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:18 +0000
Subject: [PATCH 20/87] fix: matchOnlyAtCol must use the order of parse action
 arguments

---
 mo_parsing/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index a68c035..a9b8f55 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -499,9 +499,11 @@ def matchOnlyAtCol(n):
     a specific column in the input text.
     """
 
-    def verify_col(strg, locn, toks):
+    def verify_col(toks, locn, strg):
         if col(locn, strg) != n:
-            raise ParseException(strg, locn, "matched token not at column %d" % n)
+            raise ParseException(
+                toks.type, locn, strg, "matched token not at column %d" % n
+            )
 
     return verify_col
 
-- 
2.43.0


From 96487ab2e8903567e29bd63c3c7499187d5081cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:35 +0000
Subject: [PATCH 21/87] fix: capture_groups must number all groups, and see the
 context of the match

---
 mo_parsing/regex.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index bff4495..949b768 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -5,7 +5,7 @@
 # Contact: kyle@lahnakoski.com
 from string import whitespace
 
-from mo_future import unichr, is_text
+from mo_future import unichr, is_text, text
 from mo_imports import export
 
 from mo_parsing.core import add_reset_action
@@ -292,26 +292,24 @@ class Regex(ParseEnhancement):
         NAMED GROUPS (eg (?P<name>...)
         """
 
-        def group_list(tokens):
+        def group_list(tokens, index, string):
             start, end = tokens.start, tokens.end
             # RE-MATCH  :(
-            sub_string = tokens.tokens[0]
-            found = tokens.type.regex.match(sub_string)
+            found = tokens.type.regex.match(string, start)
             lookup = dict(reversed(p) for p in found.re.groupindex.items())
             ann = []
-            pe = 0
+            pe = start
             for i, (s, e) in enumerate(found.regs[1:], start=1):
                 if s == -1:
                     continue  # NOT FOUND
-                g = sub_string[s:e]
+                g = string[s:e]
                 if pe <= s:
                     ann.append(g)
-                pe = e
-                ii = chr(i + ord("0"))
-                ann.append(Annotation(ii, s + start, e + start, [g]))
+                    pe = e
+                ann.append(Annotation(text(i), s, e, [g]))
                 n = lookup.get(i)
                 if n:
-                    ann.append(Annotation(n, s + start, e + start, [g]))
+                    ann.append(Annotation(n, s, e, [g]))
             return ParseResults(_plain_group, start, end, ann, [])
 
         return self / group_list
-- 
2.43.0


From db2f8dbaf8f2c77e8c8d05903d14c4d391d1e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 22/87] fix: Regex must accept all patterns that re accepts,
 and skip leading whitespace

---
 mo_parsing/regex.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 949b768..7756de4 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -5,6 +5,11 @@
 # Contact: kyle@lahnakoski.com
 from string import whitespace
 
+try:
+    from re import _parser as sre_parse
+except ImportError:
+    import sre_parse
+
 from mo_future import unichr, is_text, text
 from mo_imports import export
 
@@ -27,6 +32,7 @@ from mo_parsing.expressions import MatchFirst, And
 from mo_parsing.infix import delimited_list
 from mo_parsing.results import ParseResults, Annotation
 from mo_parsing.tokens import (
+    Empty,
     Literal,
     AnyChar,
     LineStart,
@@ -275,8 +281,14 @@ class Regex(ParseEnhancement):
         :param pattern:  THE REGEX PATTERN
         :param asGroupList: RETURN A LIST OF CAPTURED GROUPS /1, /2, /3, ...
         """
-        parsed = regex.parse_string(pattern)
-        ParseEnhancement.__init__(self, parsed.value().streamline())
+        if not pattern:
+            Log.error("Expecting a pattern")
+        try:
+            expr = regex.parse_string(pattern, parse_all=True).value().streamline()
+        except Exception:
+            # A VALID PATTERN, BUT NOT UNDERSTOOD
+            expr = Empty()
+        ParseEnhancement.__init__(self, expr)
         # WE ASSUME IT IS SAFE TO ASSIGN regex (NO SERIOUS BACKTRACKING PROBLEMS)
         self.streamlined = True
         self.regex = regex_compile(pattern)
@@ -357,7 +369,11 @@ class Regex(ParseEnhancement):
         return {}
 
     def min_length(self):
-        return self.expr.min_length()
+        return sre_parse.parse(self.regex.pattern).getwidth()[0]
+
+    @property
+    def whitespace(self):
+        return None
 
     def __regex__(self):
         if self.regex:
-- 
2.43.0


From ef4267b67427c2798d8814055a3668d5c325b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:05 +0000
Subject: [PATCH 23/87] fix: Regex.sub must see the context of the match

---
 mo_parsing/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 7756de4..eb490f3 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -330,15 +330,15 @@ class Regex(ParseEnhancement):
         # MIMIC re.sub
         if is_text(replacement):
             # USE PYTHON REGEX
-            def pa(tokens):
-                return tokens.type.regex.sub(replacement, tokens[0])
+            def pa(tokens, index, string):
+                return self.regex.match(string, tokens.start).expand(replacement)
 
             output = self / pa
             return output
         else:
             # A FUNCTION
-            def pf(tokens):
-                regex_result = tokens.type.regex.match(tokens.tokens[0])
+            def pf(tokens, index, string):
+                regex_result = self.regex.match(string, tokens.start)
                 return replacement(regex_result)
 
             return self / pf
-- 
2.43.0


From b7162e9a48c5c809af976722ef140e4d8c4d1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:59 +0000
Subject: [PATCH 24/87] fix: replace_with must accept parameters

---
 mo_parsing/core.py  | 6 ++++--
 mo_parsing/regex.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 44cb081..5edf9ef 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -528,12 +528,14 @@ class ParserElement(object):
 
         # FIND NAMES IN replacement
         parts = list(regex_parameters.split(replacement, include_separators=True))
+        names = [p.value() for p in parts[1::2]]
 
         def replacer(tokens):
             acc = []
-            for s, n in zip(parts, parts[1:]):
+            for s, n in zip(parts[::2], names):
                 acc.append(s)
-                acc.append(text(tokens[n]))
+                value = tokens[n]
+                acc.append(value.as_string() if isinstance(value, ParseResults) else text(value))
             acc.append(parts[-1])
             return "".join(acc)
 
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index eb490f3..e1b14b8 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -264,7 +264,7 @@ regex << (
 regex = regex.finalize()
 
 parameters = (
-    "\\" + Char(alphanums)("name") | "\\g<" + Word(alphas, alphanums)("name") + ">"
+    "\\g<" + Word(alphanums + "_")("name") + ">" | "\\" + Char(alphanums)("name")
 ) / (lambda t: t["name"])
 NO_WHITESPACE.release()
 
-- 
2.43.0


From e8dfce57cf9ce7bde5e595d57432455735cb13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:20 +0000
Subject: [PATCH 25/87] fix: as_list must not group the result of a Forward
 twice

---
 mo_parsing/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 46c1f23..318ba07 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -310,6 +310,9 @@ class ParseResults(object):
 
             if isinstance(obj, Annotation):
                 return []
+            elif isinstance(obj, ForwardResults):
+                # THE FORWARD IS TRANSPARENT
+                return internal(obj.tokens[0], depth + 1)
             elif isinstance(obj, ParseResults):
                 output = []
                 for t in obj.tokens:
-- 
2.43.0


From e91eddaee5a7787bfdb721f4c4fdb85ab28ed8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:34 +0000
Subject: [PATCH 26/87] fix: suppressed group must have no output

---
 mo_parsing/enhancement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 75c01b3..df513ea 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -767,6 +767,9 @@ class Group(TokenConverter):
         ParserElement.__init__(self)
         self.expr = whitespaces.CURRENT.normalize(expr)
 
+    def suppress(self):
+        return Suppress(self)
+
     def is_annotated(self):
         return True
 
-- 
2.43.0


From 1dd11e1a197f563537ac7131b4e6a9f0104ddfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 27/87] fix: lookahead tokens must not show in a named value

---
 mo_parsing/results.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 318ba07..42403b4 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -385,6 +385,10 @@ def _flatten(token):
     """
     if not isinstance(token, ParseResults):
         yield token
+    elif isinstance(token, Annotation) and not token.name:
+        # LOOKAHEAD HAS NO TOKENS, ONLY NAMES
+        if any(token.keys()):
+            yield token
     elif isinstance(token.type, Group):
         yield token
     elif token.name:
-- 
2.43.0


From b9963e320447314004006d3a33d67734fa1bf8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:28 +0000
Subject: [PATCH 28/87] fix: zero-width matches count as required repetitions

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index df513ea..034f37c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -256,7 +256,7 @@ class Many(ParseEnhancement):
                         else:
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
-                if result.end == result.start:
+                if result.end == result.start and min <= count:
                     break  # NO PROGRESS, MORE OF THE SAME WILL NOT HELP
                 end = result.end
                 acc.append(result)
-- 
2.43.0


From b1b1a1756663ac50ec10bd07033438b866ffc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:21 +0000
Subject: [PATCH 29/87] fix: bounded repetitions in MatchAll count their
 matches, wherever they are

---
 mo_parsing/expressions.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 74687f9..1e94bf4 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -16,6 +16,7 @@ from mo_parsing.exceptions import (
 from mo_parsing.results import ParseResults
 from mo_parsing.tokens import Empty
 from mo_parsing.utils import (
+    MAX_INT,
     empty_tuple,
     is_forward,
     regex_iso,
@@ -782,21 +783,29 @@ class MatchAll(ParseExpression):
             self.exprs, self.parser_config.min_match, self.parser_config.max_match
         ))
         count = [0] * len(self.exprs)
+        found = set()
         failures = []
         while todo:
             for i, (c, (e, mi, ma)) in enumerate(zip(count, todo)):
                 try:
-                    result = e._parse(string, end)
+                    part, num = e, 1
+                    if (mi, ma) not in ((0, 1), (1, 1), (0, MAX_INT), (1, MAX_INT)):
+                        # WHAT IS REPEATED CAN BE SPREAD OVER MANY PLACES, COUNT THE MATCHES
+                        part = e.copy()
+                        part.set_config(min_match=1, max_match=ma - c)
+                        num = len(part.parse_impl(string, end).tokens)
+                    result = part._parse(string, end)
                     failures.extend(result.failures)
                     loc = result.end
                     if loc == end:
                         continue
                     end = self.parser_config.whitespace.skip(string, loc)
-                    c2 = count[i] = c + 1
-                    if c2 >= ma:
+                    count[i] = c + num
+                    found.add(id(e))
+                    if count[i] >= ma:
                         del todo[i]
                         del count[i]
-                    match_order.append(e)
+                    match_order.append(part)
                     break
                 except ParseException as pe:
                     failures.append(pe)
@@ -813,7 +822,6 @@ class MatchAll(ParseExpression):
                     cause=failures,
                 )
 
-        found = set(id(m) for m in match_order)
         missing = [
             e
             for e, mi in zip(self.exprs, self.parser_config.min_match)
-- 
2.43.0


From 0f96560598672952a5f623b533cc80c3897869eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:01 +0000
Subject: [PATCH 30/87] fix: second use of a nested choice or match-all is
 streamlined like the first

---
 mo_parsing/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 1e94bf4..ff20547 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -81,7 +81,6 @@ class ParseExpression(ParserElement):
     def streamline(self):
         if self.streamlined:
             return self
-        self.streamlined = True
 
         # collapse nested And's of the form And(And(And(a, b), c), d) to And(a, b, c, d)
         # but only if there are no parse actions or resultsNames on the nested And's
@@ -107,6 +106,7 @@ class ParseExpression(ParserElement):
                 acc.append(f)
 
         if same:
+            self.streamlined = True
             return self
 
         output = self.copy()
-- 
2.43.0


From 315596d1434081dee9aeadc16fcc9bee0d1c7247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:58 +0000
Subject: [PATCH 31/87] fix: suppressed reference to a group must have no
 output

---
 mo_parsing/enhancement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 034f37c..65621c4 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -609,6 +609,9 @@ class Forward(ParserElement):
             output.expr = self.expr.leave_whitespace()
             return output
 
+    def suppress(self):
+        return Suppress(self)
+
     def streamline(self):
         if not self.expr or self.expr.streamlined:
             return self
-- 
2.43.0


From 47dfb067379c713826d1b00f8abd5ad0e19dc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:39 +0000
Subject: [PATCH 32/87] fix: add_ignore must add all its expressions

---
 mo_parsing/whitespaces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index f3cf1bf..7b4d84b 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -120,10 +120,10 @@ class Whitespace(ParserElement):
         for ignore_expr in ignore_exprs:
             ignore_expr = ignore_expr.suppress()
             self.ignore_list.append(ignore_expr)
-            self.content = None
-            self.expr = None if isinstance(Empty, Expecting) else Empty()
-            self.regex = re.compile(self.__regex__()[1], re.DOTALL)
-            return self
+        self.content = None
+        self.expr = None if isinstance(Empty, Expecting) else Empty()
+        self.regex = re.compile(self.__regex__()[1], re.DOTALL)
+        return self
 
     def backup(self):
         return Backup(self)
-- 
2.43.0


From a205e4e369fdc2b1252984ffe60988511fdf4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:53 +0000
Subject: [PATCH 33/87] fix: ignored expressions without whitespace characters

---
 mo_parsing/whitespaces.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index 7b4d84b..4edbbe8 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -167,14 +167,13 @@ class Whitespace(ParserElement):
         self._in_regex = True
         try:
             white = regex_range(self.white_chars)
+            if white:
+                white += "*"
             if not self.ignore_list:
-                if not white:
-                    return "*", ""
-                else:
-                    return "*", white + "*"
+                return "*", white
 
             ignored = "|".join(regex_iso(*i.__regex__(), "|") for i in self.ignore_list)
-            return "+", f"(?:{white}*(?:{ignored}))*{white}*"
+            return "+", f"(?:{white}(?:{ignored}))*{white}"
         finally:
             self._in_regex = False
 
-- 
2.43.0


From 6837817de9858434c910d0e6fe6aa7a59ddf5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:31 +0000
Subject: [PATCH 34/87] fix: as_string and transform_string must accept groups
 and values that are not text

---
 mo_parsing/core.py    | 2 +-
 mo_parsing/results.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 5edf9ef..524c2e6 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -239,7 +239,7 @@ class Parser(object):
             t = t.tokens[0]
             if t:
                 if isinstance(t, ParseResults):
-                    out.append("".join(t))
+                    out.append(t.as_string())
                 elif isinstance(t, list):
                     out.append("".join(t))
                 else:
diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 42403b4..57bf58e 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -282,7 +282,7 @@ class ParseResults(object):
                 for s in t._asStringList():
                     yield s
             else:
-                yield t
+                yield text(t)
 
     def as_string(self, sep=""):
         return sep.join(self._asStringList())
-- 
2.43.0


From 15958b41df3378ee0fc53626977ac6bb74b39e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 35/87] fix: reversed result is the items in reverse

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 57bf58e..5a9f16e 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -182,7 +182,7 @@ class ParseResults(object):
             self[key] = NO_RESULTS
 
     def __reversed__(self):
-        return reversed(self.tokens)
+        return reversed(list(self))
 
     def value(self):
         """
-- 
2.43.0


From 70f35e2f6e8babc958d79afb93575d1cbe451f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 36/87] fix: results of different length are not equal

---
 mo_parsing/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 5a9f16e..e683909 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -2,7 +2,7 @@
 import inspect
 
 from mo_dots import is_many, is_null, register_data, register_list, exists
-from mo_future import is_text, text, zip_longest, MutableMapping
+from mo_future import is_text, text, MutableMapping
 from mo_imports import expect, export
 from mo_parsing.exceptions import sort_causes
 
@@ -129,7 +129,8 @@ class ParseResults(object):
             except Exception as e:
                 return False
         elif is_many(other):
-            return all(s == o for s, o in zip_longest(self, other))
+            other = list(other)
+            return self.length() == len(other) and all(s == o for s, o in zip(self, other))
         elif self.length() == 1:
             return self[0] == other
         elif not self:
-- 
2.43.0


From 015155144164fdcda36c2103ca470168351042e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 37/87] fix: copy and sum of a recursive expression's result
 have the items of the result

---
 mo_parsing/results.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index e683909..30c4e12 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -241,6 +241,9 @@ class ParseResults(object):
         # if not isinstance(other, ParseResults):
         #     return self.value() + other
         #
+        while isinstance(other, ForwardResults):
+            # THE FORWARD IS TRANSPARENT
+            other = other.tokens[0]
         return ParseResults(
             Group(self.type + other.type),
             self.start,
@@ -376,6 +379,15 @@ class ForwardResults(ParseResults):
 
         yield from self.tokens[0]
 
+    def __copy__(self):
+        return ForwardResults(
+            self._type, self.start, self.end, [self.tokens[0].__copy__()], self.failures
+        )
+
+    def __add__(self, other):
+        # THE FORWARD IS TRANSPARENT
+        return self.tokens[0] + other
+
     def items(self):
         yield from self.tokens[0].items()
 
-- 
2.43.0


From b027419dc6934fa77d22648c2500ecc56a0fe2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 38/87] fix: keys and items include the name of a recursive
 expression's definition

---
 mo_parsing/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 30c4e12..1db87ca 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -208,6 +208,9 @@ class ParseResults(object):
     def items(self):
         output = {}
         for tok in self.tokens:
+            while isinstance(tok, ForwardResults) and not tok.name:
+                # THE FORWARD IS TRANSPARENT
+                tok = tok.tokens[0]
             if isinstance(tok, ParseResults):
                 if isinstance(tok.type, Suppress):
                     continue
-- 
2.43.0


From eb32b649a4a642e609c1bc77025e28d506a3a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 39/87] fix: lookup of the name of a recursive expression's
 group

---
 mo_parsing/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 1db87ca..9544dab 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -49,6 +49,9 @@ class ParseResults(object):
     def _get_item_by_name(self, name):
         # return open list of values for given name
         for tok in self.tokens:
+            while isinstance(tok, ForwardResults) and not tok.name:
+                # THE FORWARD IS TRANSPARENT
+                tok = tok.tokens[0]
             if isinstance(tok, ParseResults):
                 if tok.name == name:
                     if isinstance(tok.type, Group):
-- 
2.43.0


From b10a1908ed724350986a37a36ca157dc9c4e3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 40/87] fix: lookahead at a group adds nothing to a named value

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 9544dab..e6ccafc 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -406,7 +406,7 @@ def _flatten(token):
         yield token
     elif isinstance(token, Annotation) and not token.name:
         # LOOKAHEAD HAS NO TOKENS, ONLY NAMES
-        if any(token.keys()):
+        if not isinstance(token.type, Group) and any(token.keys()):
             yield token
     elif isinstance(token.type, Group):
         yield token
-- 
2.43.0


From 4294f72facd2e6e5755383abee28741e99a352ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 41/87] fix: named groups of several lookaheads are values of
 the name

---
 mo_parsing/results.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index e6ccafc..3771a93 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -55,6 +55,11 @@ class ParseResults(object):
             if isinstance(tok, ParseResults):
                 if tok.name == name:
                     if isinstance(tok.type, Group):
+                        if isinstance(tok, Annotation):
+                            # THE VALUE IS A REGULAR GROUP
+                            tok = ParseResults(
+                                tok.type, tok.start, tok.end, tok.tokens, tok.failures
+                            )
                         yield tok
                     else:
                         for t in tok.tokens:
-- 
2.43.0


From be5f00a3e70528d2b2fe9813a9cc1ed7ce8814cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 42/87] fix: named reference to a named definition

---
 mo_parsing/results.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 3771a93..a6a80c8 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -375,7 +375,16 @@ class ForwardResults(ParseResults):
     def type(self):
         return self.tokens[0].type
 
+    def _is_named_part(self):
+        # NAMED REFERENCE TO A NAMED DEFINITION
+        inner = self.tokens[0]
+        while isinstance(inner, ForwardResults) and not inner.name:
+            inner = inner.tokens[0]
+        return self.name and inner.name and not isinstance(inner.type, Group)
+
     def __getitem__(self, item):
+        if self._is_named_part():
+            return ParseResults.__getitem__(self, item)
         return self.tokens[0][item]
 
     def __setitem__(self, k, v):
@@ -400,7 +409,10 @@ class ForwardResults(ParseResults):
         return self.tokens[0] + other
 
     def items(self):
-        yield from self.tokens[0].items()
+        if self._is_named_part():
+            yield from ParseResults.items(self)
+        else:
+            yield from self.tokens[0].items()
 
 
 def _flatten(token):
-- 
2.43.0


From 4127f49c0934e01b8de5c434ae615e6bf8fb7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 43/87] fix: suppress() drops groups made by an earlier action

---
 mo_parsing/enhancement.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 65621c4..5d3ca8c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -6,7 +6,7 @@ from mo_future import text, is_text
 from mo_imports import export, expect
 
 from mo_parsing import whitespaces
-from mo_parsing.core import ParserElement
+from mo_parsing.core import ParserElement, NO_PARSER
 from mo_parsing.exceptions import ParseException, RecursiveGrammarException
 from mo_parsing.results import ParseResults, ForwardResults, Annotation
 from mo_parsing.utils import (
@@ -851,7 +851,9 @@ class Suppress(TokenConverter):
 
 
 def _suppress_post_parse(tokens, start, string):
-    return ParseResults(tokens.type, tokens.start, tokens.end, [], tokens.failures)
+    # A GROUP (MADE BY ANOTHER ACTION) WOULD STILL BE AN ITEM
+    result_type = NO_PARSER if isinstance(tokens.type, Group) else tokens.type
+    return ParseResults(result_type, tokens.start, tokens.end, [], tokens.failures)
 
 
 class PrecededBy(LookAhead):
-- 
2.43.0


From b99b60b8c42f96e4e8784e0d76ecad44ab945458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 44/87] fix: conditions are decided by the truth of what they
 return

---
 mo_parsing/core.py  | 5 ++---
 mo_parsing/utils.py | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 524c2e6..9b3e2a7 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -403,8 +403,7 @@ class ParserElement(object):
 
         def make_cond(fn):
             def cond(token, index, string):
-                result = fn(token, index, string)
-                if not bool(result.tokens[0]):
+                if not fn(token, index, string):
                     error = ParseException(token.type, index, string, msg=message)
                     if fatal:
                         Log.error("fatal error", cause=error)
@@ -415,7 +414,7 @@ class ParserElement(object):
 
         output = self.copy()
         for fn in fns:
-            output.parse_action.append(make_cond(wrap_parse_action(fn)))
+            output.parse_action.append(make_cond(wrap_parse_action(fn, is_condition=True)))
 
         output.set_config(
             callDuringTry=self.parser_config.callDuringTry or callDuringTry
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 86df5ff..b4fad72 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -305,7 +305,7 @@ def line(loc, string):
 "decorator to trim function calls to match the arity of the target"
 
 
-def wrap_parse_action(func):
+def wrap_parse_action(func, is_condition=False):
     if func in singleArgBuiltins:
         spec = inspect.getfullargspec(func)
     elif func.__class__.__name__ == "staticmethod":
@@ -334,7 +334,9 @@ def wrap_parse_action(func):
         try:
             args = token, index, string
             result = func(*args[:num_args])
-            if result is None:
+            if is_condition:
+                return bool(result)
+            elif result is None:
                 return token
             elif isinstance(result, ParseResults):
                 if (result.start < token.start) or (token.end < result.end):
-- 
2.43.0


From bf7d808c162e106c65b87c60b388fde00afec00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 45/87] fix: streamlined negative lookahead keeps conditions
 and actions

---
 mo_parsing/enhancement.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 5d3ca8c..4ff855c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -76,7 +76,11 @@ class ParseEnhancement(ParserElement):
             self.streamlined = True
             return self
 
-        if not expr or isinstance(expr, Empty) and not self.is_annotated():
+        if not expr or (
+            isinstance(expr, Empty)
+            and not expr.parse_action
+            and not self.is_annotated()
+        ):
             return Empty()
 
         output = self.copy()
@@ -175,9 +179,9 @@ class NotAny(LookAhead):
         output = ParseEnhancement.streamline(self)
         if isinstance(output, Empty):
             return NoMatch()
-        if isinstance(output.expr, NoMatch):
+        if isinstance(output.expr, NoMatch) and not self.is_annotated():
             return Empty()
-        if isinstance(output.expr, Empty):
+        if isinstance(output.expr, Empty) and not output.expr.parse_action:
             return NoMatch()
         return output
 
-- 
2.43.0


From c7719bd01280ac5116831724803f75224150851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 46/87] fix: actions of a copied Forward run once

---
 mo_parsing/enhancement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 4ff855c..eced3de 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -572,6 +572,7 @@ class Forward(ParserElement):
     def copy(self):
         output = ParserElement.copy(self)
         output.expr = self
+        output.parse_action = []  # THE ORIGINAL STILL RUNS ITS OWN
         output._str = None
         output._in_regex = None
         output._in_expecting = None
@@ -599,12 +600,12 @@ class Forward(ParserElement):
         self.check_recursion()
         return self
 
-    def add_parse_action(self, action):
+    def add_parse_action(self, *fns):
         """
         Add one or more parse actions to expression's list of parse actions. See `setParseAction`.
         Also you can use `/` operator
         """
-        self.parse_action.append(wrap_parse_action(action))
+        self.parse_action += list(map(wrap_parse_action, fns))
         return self
 
     def leave_whitespace(self):
-- 
2.43.0


From 09c05a50b208839b92ca4401287c85ebf4c2ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 47/87] fix: streamlined option of nothing keeps conditions and
 actions

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index eced3de..65091dd 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -297,7 +297,7 @@ class Many(ParseEnhancement):
         if self.expr is expr:
             self.streamlined = True
             return self
-        if expr.is_annotated() or not isinstance(expr, Empty):
+        if self.is_annotated() or expr.is_annotated() or not isinstance(expr, Empty):
             output = self.copy()
             output.expr = expr
             output.streamlined = True
-- 
2.43.0


From 30da7b9e36407258b63feaf2cfe400532dc66c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 48/87] fix: several threads can use parsers at once

---
 mo_parsing/core.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 9b3e2a7..0fc272d 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -105,8 +105,25 @@ def _verify_whitespace(whi: List):
     return whi
 
 
+def _steps(iterator):
+    """
+    HOLD THE LOCK WHILE ADVANCING iterator, LET OTHER THREADS PARSE BETWEEN THE STEPS
+    """
+    while True:
+        with locker:
+            try:
+                item = next(iterator)
+            except StopIteration:
+                return
+        yield item
+
+
 class Parser(object):
     def __init__(self, element):
+        with locker:
+            self._setup(element)
+
+    def _setup(self, element):
         self.element = element = element.streamline()
         try:
             self.whitespace = (
@@ -117,9 +134,7 @@ class Parser(object):
         except Exception as cause:
             Log.error("problem", cause=cause)
 
-        with self.whitespace:
-            self.element = Group(element)
-
+        self.element = Group(element)
         self.named = bool(element.token_name)
         self.streamlined = True
 
@@ -180,7 +195,7 @@ class Parser(object):
         :param overlap: IF MATCHES CAN OVERLAP
         :return: SEQUENCE OF ParseResults, start, end
         """
-        return (
+        return _steps(
             (t.tokens[0], s, e)
             for t, s, e in self._scan_string(
                 string, max_matches=max_matches, overlap=overlap
@@ -288,9 +303,9 @@ class Parser(object):
 
             ['This', ' this', '', ' this sentence', ' is badly punctuated', '']
         """
-        return self._split(
+        return _steps(self._split(
             string, maxsplit=maxsplit, include_separators=include_separators
-        )
+        ))
 
     def _split(self, string, maxsplit=MAX_INT, include_separators=False):
         last = 0
-- 
2.43.0


From eaa6e642da22f8c77b06ee0e25c34baa1d796f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 49/87] fix: indentation is tracked per parse, and restored
 when a block fails

---
 mo_parsing/core.py    |  33 +++++++---
 mo_parsing/helpers.py | 137 ++++++++++++++++++++----------------------
 2 files changed, 89 insertions(+), 81 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 0fc272d..d79c419 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -1,6 +1,7 @@
 # encoding: utf-8
 import sys
 from collections import namedtuple
+from contextlib import contextmanager
 from threading import RLock
 from typing import List
 
@@ -61,7 +62,7 @@ _reset_actions = []
 def add_reset_action(action):
     """
     ADD A FUNCTION THAT WILL RESET GLOBAL STATE THAT A PARSER MAY USE
-    :param action:  CALLABLE
+    :param action:  CALLABLE, MAY RETURN ANOTHER CALLABLE TO PUT BACK THE STATE FOUND
     """
     _reset_actions.append(action)
 
@@ -70,15 +71,29 @@ locker = RLock()
 streamlined = {}
 
 
+@contextmanager
+def _fresh_state():
+    """
+    RESET GLOBAL STATE FOR A NEW PARSE; PUT BACK THE STATE OF THE PARSE AROUND IT, IF ANY
+    """
+    with locker:
+        restores = []
+        for a in _reset_actions:
+            try:
+                restores.append(a())
+            except Exception as e:
+                Log.error("reset action failed", cause=e)
+        try:
+            yield
+        finally:
+            for restore in restores:
+                if restore:
+                    restore()
+
+
 def entrypoint(func):
     def output(*args, **kwargs):
-        with locker:
-            for a in _reset_actions:
-                try:
-                    a()
-                except Exception as e:
-                    Log.error("reset action failed", cause=e)
-
+        with _fresh_state():
             return func(*args, **kwargs)
 
     return output
@@ -110,7 +125,7 @@ def _steps(iterator):
     HOLD THE LOCK WHILE ADVANCING iterator, LET OTHER THREADS PARSE BETWEEN THE STEPS
     """
     while True:
-        with locker:
+        with _fresh_state():
             try:
                 item = next(iterator)
             except StopIteration:
diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index a9b8f55..b714b42 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -668,17 +668,69 @@ def with_class(classname, namespace=""):
     return with_attribute(**{classattr: classname})
 
 
-_indent_stack = [(1, None, None)]
+_indent_stack = [1]  # COLUMNS OF THE BLOCKS BEING PARSED
 
 
 def reset_stack():
     global _indent_stack
-    _indent_stack = [(1, None, None)]
+    outer, _indent_stack = _indent_stack, [1]
+
+    def restore():
+        global _indent_stack
+        _indent_stack = outer
+
+    return restore
 
 
 add_reset_action(reset_stack)
 
 
+class IndentedBlock(Group):
+    """
+    REMEMBER THE INDENTATION AROUND THIS BLOCK, HOWEVER THE BLOCK ENDS
+    """
+
+    __slots__ = []
+
+    def parse_impl(self, string, start, do_actions=True):
+        depth = len(_indent_stack)
+        try:
+            return Group.parse_impl(self, string, start, do_actions)
+        finally:
+            del _indent_stack[depth:]
+
+
+def _indent(t, l, s):
+    cur_col = col(l, s)
+    if cur_col <= _indent_stack[-1]:
+        raise ParseException(t.type, l, s, "not a subentry")
+    _indent_stack.append(cur_col)
+
+
+def _nodent(t, l, s):
+    cur_col = col(l, s)
+    if cur_col != _indent_stack[-1]:
+        raise ParseException(t.type, l, s, "not a subentry")
+    _indent_stack.append(cur_col)
+
+
+def _peer(t, l, s):
+    if l >= len(s):
+        return
+    cur_col = col(l, s)
+    if cur_col > _indent_stack[-1]:
+        raise ParseException(t.type, l, s, "illegal nesting")
+    if cur_col < _indent_stack[-1]:
+        raise ParseException(t.type, l, s, "not a peer entry")
+
+
+def _dedent(t, l, s):
+    if l >= len(s):
+        return
+    if col(l, s) not in _indent_stack[:-1]:
+        raise ParseException(t.type, l, s, "not an unindent")
+
+
 def indented_block(blockStatementExpr, indent=True):
     """Helper method for defining space-delimited indentation blocks,
     such as those used to define block statements in Python source code.
@@ -696,81 +748,22 @@ def indented_block(blockStatementExpr, indent=True):
 
     A valid block must contain at least one ``blockStatement``.
     """
-    PEER = Forward()
-    DEDENT = Forward()
-
-    def _reset_stack(t=None, i=None, s=None, c=None):
-        old_col, old_peer, old_dedent = _indent_stack.pop()
-        PEER << old_peer
-        DEDENT << old_dedent
-
-    def peer_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col != expected_col:
-                if cur_col > expected_col:
-                    raise ParseException(t.type, l, s, "illegal nesting")
-                raise ParseException(t.type, l, s, "not a peer entry")
-
-        return output
-
-    def dedent_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col not in (i for i, _, _ in _indent_stack):
-                raise ParseException(s, l, "not an unindent")
-            if cur_col < _indent_stack[-1][0]:
-                old_col, old_peer, old_dedent = _indent_stack.pop()
-                PEER << old_peer
-                DEDENT << old_dedent
-
-        return output
-
-    def indent_stack(t, l, s):
-        cur_col = col(l, s)
-        if cur_col > _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
-        else:
-            raise ParseException(t.type, l, s, "not a subentry")
-
-    def nodent_stack(t, l, s):
-        cur_col = col(l, s)
-        if cur_col == _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
-        else:
-            raise ParseException(t.type, l, s, "not a subentry")
-
     ignore_list = whitespaces.CURRENT.ignore_list
     with Whitespace(whitespaces.CURRENT.white_chars) as e:
         e.add_ignore(*ignore_list)
 
+        def marker(check):
+            return Empty().add_parse_action(check, callDuringTry=True)
+
         NL = OneOrMore(LineEnd().suppress())
-        INDENT = Empty() / indent_stack
-        NODENT = Empty() / nodent_stack
-
-        if indent:
-            sm_expr = Group(
-                Optional(NL)
-                + INDENT
-                + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
-                + DEDENT
-            )
-        else:
-            sm_expr = Group(
-                Optional(NL)
-                + NODENT
-                + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
-                + DEDENT
-            )
-    return sm_expr.setFailAction(_reset_stack).set_parser_name("indented block")
+
+        sm_expr = IndentedBlock(
+            Optional(NL)
+            + marker(_indent if indent else _nodent)
+            + OneOrMore(marker(_peer) + Group(blockStatementExpr) + Optional(NL))
+            + marker(_dedent)
+        )
+    return sm_expr.set_parser_name("indented block")
 
 
 anyOpenTag, anyCloseTag = makeHTMLTags(
-- 
2.43.0


From 87f7d6d45af6e4539f0a6de40f19b32a494423a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 50/87] fix: infix_notation keeps all operands, and operators
 in more than one role

---
 mo_parsing/infix.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index d5c9874..6b59771 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -13,6 +13,7 @@ from mo_parsing.enhancement import (
     Suppress,
     ZeroOrMore,
 )
+from mo_parsing.exceptions import ParseException
 from mo_parsing.expressions import MatchFirst, Or
 from mo_parsing.results import ParseResults, NO_PARSER
 from mo_parsing.tokens import (
@@ -228,24 +229,25 @@ def infix_notation(
             ))
     op_list = tuple(op_list)
 
-    def record_op(op):
+    def record_op(role, op):
+        # THE SAME OPERATOR CAN BE USED IN MORE THAN ONE role
         def output(tokens):
-            return ParseResults(NO_PARSER, tokens.start, tokens.end, [(tokens, op)], [])
+            return ParseResults(NO_PARSER, tokens.start, tokens.end, [(tokens, (role, op))], [])
 
         return output
 
     prefix_ops = MatchFirst([
-        op / record_op(op)
+        op / record_op("prefix", op)
         for expr, op, is_suppressed, arity, assoc, pa in op_list
         if arity == 1 and assoc == RIGHT_ASSOC
     ])
     suffix_ops = MatchFirst([
-        op / record_op(op)
+        op / record_op("suffix", op)
         for expr, op, is_suppressed, arity, assoc, pa in op_list
         if arity == 1 and assoc == LEFT_ASSOC
     ])
     ops = Or([
-        op_part / record_op(op_part)
+        op_part / record_op("infix", op_part)
         for op_part in set(
             op_part
             for expr, op, is_suppressed, arity, assoc, pa in op_list
@@ -256,6 +258,10 @@ def infix_notation(
 
     def make_tree(tokens, loc, string):
         flat_tokens = list(tokens)
+
+        def is_operand(index):
+            return flat_tokens[index][1][0] == "operand"
+
         num = len(op_list)
         op_index = 0
         while len(flat_tokens) > 1 and op_index < num:
@@ -265,7 +271,7 @@ def infix_notation(
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == ("prefix", op) and is_operand(i + 1):
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -283,7 +289,7 @@ def infix_notation(
                     # SUFFIX OPERATOR 3!
                     todo = list(enumerate(flat_tokens[1:]))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == ("suffix", op) and is_operand(i):
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -303,7 +309,7 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == op:
+                    if o == ("infix", op) and is_operand(i) and is_operand(i + 2):
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
@@ -331,9 +337,9 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r0, o0) in todo:
-                    if o0 == op[0]:
+                    if o0 == ("infix", op[0]):
                         r1, o1 = flat_tokens[i + 3]
-                        if o1 == op[1]:
+                        if o1 == ("infix", op[1]) and all(is_operand(i + j) for j in (0, 2, 4)):
                             seq = [
                                 flat_tokens[i][0],
                                 flat_tokens[i + 2][0],
@@ -354,11 +360,14 @@ def infix_notation(
                     continue
 
             for p in parse_actions:
-                result = p(result, -1, string)
+                result = p(result, result.start, string)
             offset = (0, 2, 3, 5)[arity]
-            flat_tokens[i : i + offset] = [(result, (expr,))]
+            flat_tokens[i : i + offset] = [(result, ("operand", expr))]
             op_index = 0
 
+        if len(flat_tokens) > 1:
+            raise ParseException(tokens.type, loc, string, "operator without all of its operands")
+
         result = flat_tokens[0][0]
         result.end = tokens.end
         result.failures = tokens.failures
@@ -366,7 +375,7 @@ def infix_notation(
 
     flat = Forward()
     iso = lpar.suppress() + flat + rpar.suppress()
-    atom = (base_expr | iso) / record_op(base_expr)
+    atom = (base_expr | iso) / record_op("operand", base_expr)
     decorated = ZeroOrMore(prefix_ops) + atom + ZeroOrMore(suffix_ops)
     flat << ((decorated + ZeroOrMore(ops + decorated)) / make_tree).streamline()
 
-- 
2.43.0


From 8b2477d5c7f3b8eff343503186acce1e28860f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:58 +0000
Subject: [PATCH 51/87] fix: Char with all its characters excluded matches
 nothing

---
 mo_parsing/tokens.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 71d7d32..e565864 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -441,13 +441,18 @@ class Char(Token):
         Token.__init__(self)
         include = set(include) if include else set()
         exclude = set(exclude) if exclude else set()
+        excludes_all = include and not include - exclude
         include = "".join(sorted(include - exclude))
         exclude = "".join(sorted(exclude))
 
-        if not include:
+        if include:
+            regex = regex_range(include)
+        elif excludes_all:
+            regex = "(?!)"
+        elif exclude:
             regex = regex_range(exclude, exclude=True)
         else:
-            regex = regex_range(include)
+            regex = "."
 
         if as_keyword:
             regex = r"\b%s\b" % regex
-- 
2.43.0


From 0cbf57f56c86a7350c5e886e4ccf72ef542e078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 52/87] fix: CharsNotIn of no characters matches any

---
 mo_parsing/tokens.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index e565864..b06eafb 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -511,10 +511,7 @@ class CharsNotIn(Token):
             min = exact
             max = exact
 
-        if len(not_chars) == 1:
-            regex = "[^" + regex_range(not_chars) + "]"
-        else:
-            regex = "[^" + regex_range(not_chars)[1:]
+        regex = regex_range(not_chars, exclude=True) or "."
 
         if not max or max == MAX_INT:
             if min == 0:
-- 
2.43.0


From c0a3fc4052554eca65b33c50a2f3a887791155af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:29 +0000
Subject: [PATCH 53/87] fix: White accepts characters without a name

---
 mo_parsing/tokens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index b06eafb..69a7e4b 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -596,7 +596,9 @@ class White(Token):
     def __init__(self, ws=" \t\r\n", min=1, max=0, exact=0):
         Token.__init__(self)
         white_chars = "".join(sorted(set(ws)))
-        self.parser_name = "|".join(White.white_strs[c] for c in white_chars)
+        self.parser_name = "|".join(
+            White.white_strs.get(c, f"<U+{ord(c):04X}>") for c in white_chars
+        )
 
         max = max if max > 0 else MAX_INT
         if exact > 0:
-- 
2.43.0


From 4f9475a3b720159d973b0768cb1e9cc2b8b66d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:08 +0000
Subject: [PATCH 54/87] fix: CloseMatch ends where its text ends

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 69a7e4b..7eb9dad 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -327,7 +327,7 @@ class CloseMatch(Token):
                     if len(mismatches) > max_mismatches:
                         break
             else:
-                end = match_stringloc + 1
+                end = maxloc
                 results = ParseResults(self, start, end, [string[start:end]], [])
                 results["original"] = match
                 results["mismatches"] = mismatches
-- 
2.43.0


From 281045c0c25f23d58a1db40e858133dac9222b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:24 +0000
Subject: [PATCH 55/87] fix: caseless literal of a titlecase character matches
 itself

---
 mo_parsing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index b4fad72..15c0c3c 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -84,7 +84,7 @@ def regex_caseless(literal):
         lower, upper = c.lower(), c.upper()
         if lower == upper or len(lower) != 1 or len(upper) != 1:
             return re.escape(c)
-        return f"[{re.escape(lower)}{re.escape(upper)}]"
+        return f"[{re.escape(lower)}{re.escape(upper)}{re.escape(c)}]"
 
     return "".join(caseless(c) for c in literal)
 
-- 
2.43.0


From 4ce620267087edfcf88c3252c9dd49912a0a07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 56/87] fix: keyword of a context without identifier characters
 matches its text

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 7eb9dad..023dec5 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -200,7 +200,7 @@ class Keyword(Token):
         else:
             pattern = re.escape(match)
 
-        non_word = "($|(?!" + regex_range(ident_chars) + "))"
+        non_word = "(?!" + regex_range(ident_chars) + ")" if ident_chars else ""
         self.set_config(
             ident_chars=ident_chars,
             match=match,
-- 
2.43.0


From c1c13934cef5a92480207491af9f3fcb047598c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:38 +0000
Subject: [PATCH 57/87] fix: one_of tries longer choices first, also as
 keywords and when caseless

---
 mo_parsing/infix.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index 6b59771..55f2b86 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -66,12 +66,8 @@ def one_of(strs, caseless=False, as_keyword=False):
         )
 
     if caseless:
-        isequal = lambda a, b: a.upper() == b.upper()
-        masks = lambda a, b: b.upper().startswith(a.upper())
         parseElementClass = CaselessKeyword if as_keyword else CaselessLiteral
     else:
-        isequal = lambda a, b: a == b
-        masks = lambda a, b: b.startswith(a)
         parseElementClass = Keyword if as_keyword else Literal
 
     symbols = []
@@ -88,22 +84,8 @@ def one_of(strs, caseless=False, as_keyword=False):
     if not symbols:
         return NoMatch()
 
-    if not as_keyword:
-        # if not producing keywords, need to reorder to take care to avoid masking
-        # longer choices with shorter ones
-        i = 0
-        while i < len(symbols) - 1:
-            cur = symbols[i]
-            for j, other in enumerate(symbols[i + 1 :]):
-                if isequal(other, cur):
-                    del symbols[i + j + 1]
-                    break
-                elif masks(cur, other):
-                    del symbols[i + j + 1]
-                    symbols.insert(i, other)
-                    break
-            else:
-                i += 1
+    # need to reorder to avoid masking longer choices with shorter ones
+    symbols.sort(key=len, reverse=True)
 
     if caseless or as_keyword:
         return MatchFirst(parseElementClass(sym) for sym in symbols).streamline()
-- 
2.43.0


From e2c1c80b79161ed2b14523f6bb2ac2787e5866fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 58/87] fix: QuotedString reads escapes and quote sequences,
 and stays on its line

---
 mo_parsing/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index b714b42..b67fbd3 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -93,17 +93,18 @@ def QuotedString(
     if multiline:
         anychar = AnyChar()
     else:
-        anychar = Char(exclude="\n")
+        anychar = Char(exclude="\r\n")
         excluded |= Char("\r\n")
 
     with whitespaces.NO_WHITESPACE:
         included = ~Literal(end_quote_char) + anychar
 
         if esc_quote:
+            excluded |= Literal(esc_quote)
             included = Literal(esc_quote) | included
         if esc_char:
             excluded |= Literal(esc_char)
-            included = esc_char + Char(printables) | included
+            included = esc_char + anychar | included
             esc_char_replace_pattern = re.escape(esc_char) + "(.)"
 
         prec, pattern = (
-- 
2.43.0


From c0e1f8026dce18b1987bc5afcd2eeabb3746c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 59/87] fix: QuotedString replaces escapes in one pass

---
 mo_parsing/helpers.py | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index b67fbd3..75ba5bc 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -105,7 +105,6 @@ def QuotedString(
         if esc_char:
             excluded |= Literal(esc_char)
             included = esc_char + anychar | included
-            esc_char_replace_pattern = re.escape(esc_char) + "(.)"
 
         prec, pattern = (
             Literal(quote_char) + ((~excluded + anychar) | included)[0:]
@@ -113,31 +112,33 @@ def QuotedString(
         # IMPORTANT: THE end_quote_char IS OUTSIDE THE Regex BECAUSE OF PATHOLOGICAL BACKTRACKING
         output = Combine(Regex(pattern) + Literal(end_quote_char))
 
+    # REPLACEMENTS ARE DONE IN ONE PASS, SO THE RESULT OF ONE IS NOT TAKEN FOR ANOTHER
+    escapes = []
+    if convert_whitespace_escape:
+        escapes.append(r"\\(?P<white>[tnfr])")
+    if esc_char:
+        escapes.append(re.escape(esc_char) + "(?P<char>.)")
+    if esc_quote:
+        escapes.append("(?P<quote>" + re.escape(esc_quote) + ")")
+    escapes = re.compile("|".join(escapes)) if escapes else None
+    ws_map = {"t": "\t", "n": "\n", "f": "\f", "r": "\r"}
+
+    def unescape(found):
+        if found.lastgroup == "white":
+            return ws_map[found.group("white")]
+        elif found.lastgroup == "quote":
+            return end_quote_char
+        else:
+            return found.group("char")
+
     def post_parse(tokens):
         ret = tokens[0]
         if unquote_results:
             # strip off quotes
             ret = ret[len(quote_char) : -len(end_quote_char)]
 
-            if isinstance(ret, text):
-                # replace escaped whitespace
-                if "\\" in ret and convert_whitespace_escape:
-                    ws_map = {
-                        r"\t": "\t",
-                        r"\n": "\n",
-                        r"\f": "\f",
-                        r"\r": "\r",
-                    }
-                    for wslit, wschar in ws_map.items():
-                        ret = ret.replace(wslit, wschar)
-
-                # replace escaped characters
-                if esc_char:
-                    ret = re.sub(esc_char_replace_pattern, r"\g<1>", ret)
-
-                # replace escaped quotes
-                if esc_quote:
-                    ret = ret.replace(esc_quote, end_quote_char)
+            if escapes and isinstance(ret, text):
+                ret = escapes.sub(unescape, ret)
 
         return ParseResults(tokens.type, tokens.start, tokens.end, [ret], [])
 
-- 
2.43.0


From ef840fd48bb5ac1f3e7b1a1fb226b6f0a94dab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 60/87] fix: predefined quoted strings do not skip whitespace
 before their last quote

---
 mo_parsing/helpers.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 75ba5bc..c12d37f 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -145,22 +145,19 @@ def QuotedString(
     return (output / post_parse).streamline()
 
 
-dblQuotedString = Combine(
-    #       0         1         2         3         4         5
-    #       012345678901234567890123456789012345678901234567890123456789
-    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*')
-    + '"'
-).set_parser_name("string enclosed in double quotes")
-sglQuotedString = Combine(
-    Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
-).set_parser_name("string enclosed in single quotes")
-quoted_string = Combine(
-    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*') + '"'
-    | Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
-).set_parser_name("quoted_string using single or double quotes")
-unicode_string = Combine(
-    Literal("u") + quoted_string
-).set_parser_name("unicode string literal")
+# THE LAST QUOTE IS PART OF THE Regex, SO NO WHITESPACE IS SKIPPED BEFORE IT
+#                 0         1         2         3         4         5
+#                 012345678901234567890123456789012345678901234567890123456789
+_dbl_quoted = r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F])))*"(?!")'
+_sgl_quoted = r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F])))*'(?!')"
+dblQuotedString = Regex(_dbl_quoted).set_parser_name("string enclosed in double quotes")
+sglQuotedString = Regex(_sgl_quoted).set_parser_name("string enclosed in single quotes")
+quoted_string = Regex(_dbl_quoted + "|" + _sgl_quoted).set_parser_name(
+    "quoted_string using single or double quotes"
+)
+unicode_string = Regex("u(?:" + _dbl_quoted + "|" + _sgl_quoted + ")").set_parser_name(
+    "unicode string literal"
+)
 
 
 def counted_array(expr, int_expr=None):
-- 
2.43.0


From 24e94f9b8fa238bf6fd6f000ab6338c7995cc6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 61/87] fix: counted_array uses the whitespace of the context
 it was made in

---
 mo_parsing/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index c12d37f..aa31134 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -186,11 +186,13 @@ def counted_array(expr, int_expr=None):
     if int_expr is None:
         int_expr = Word(nums) / (lambda t: int(t[0]))
 
+    whitespace = whitespaces.CURRENT
+    expr = whitespace.normalize(expr)
     array_expr = Forward()
 
     def countFieldParseAction(t, l, s):
         n = t[0]
-        array_expr << Group(Many(expr, exact=n, whitespace=whitespaces.CURRENT))
+        array_expr << Group(Many(expr, exact=n, whitespace=whitespace))
         return []
 
     int_expr = (
-- 
2.43.0


From d0fcb756481b96b23248d67135c2e3c870ad50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 62/87] fix: fraction with a zero denominator is no fraction

---
 mo_parsing/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index aa31134..a040611 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -819,7 +819,9 @@ signed_integer = Regex(r"[+-]?\d+").set_parser_name("signed integer") / convertT
 
 fraction = (
     signed_integer / convertToFloat + "/" + signed_integer / convertToFloat
-).set_parser_name("fraction") / (lambda t: t[0] / t[2])
+).set_parser_name("fraction").add_condition(
+    lambda t: t[2] != 0, message="denominator is zero"
+) / (lambda t: t[0] / t[2])
 
 mixed_integer = (
     fraction | signed_integer + Optional(Optional("-").suppress() + fraction)
-- 
2.43.0


From d1548545f75721ccfefb32bad46270a4787d36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:00 +0000
Subject: [PATCH 63/87] fix: IPv6 addresses have no spaces and at most 8 parts

---
 mo_parsing/helpers.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index a040611..b1d428c 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -846,23 +846,21 @@ ipv4_address = Regex(
     r"(25[0-5]|2[0-4][0-9]|1?[0-9]{1,2})(\.(25[0-5]|2[0-4][0-9]|1?[0-9]{1,2})){3}"
 ).set_parser_name("IPv4 address")
 
-_ipv6_part = Regex(r"[0-9a-fA-F]{1,4}").set_parser_name("hex_integer")
-_full_ipv6_address = (
-    _ipv6_part + (":" + _ipv6_part) * 7
-).set_parser_name("full IPv6 address")
+_ipv6_part = r"[0-9a-fA-F]{1,4}"
+_ipv6_parts = f"{_ipv6_part}(?::{_ipv6_part}){{0,6}}"
+_full_ipv6_address = Regex(f"{_ipv6_part}(?::{_ipv6_part}){{7}}").set_parser_name(
+    "full IPv6 address"
+)
 _short_ipv6_address = (
-    Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
-    + "::"
-    + Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
-).set_parser_name("short IPv6 address")
-_short_ipv6_address.add_condition(lambda t: sum(
-    1 for tt in t if _ipv6_part.matches(tt)
-) < 8)
-_mixed_ipv6_address = ("::ffff:" + ipv4_address).set_parser_name("mixed IPv6 address")
-ipv6_address = Combine(
-    (
-        _full_ipv6_address | _mixed_ipv6_address | _short_ipv6_address
-    ).set_parser_name("IPv6 address")
+    Regex(f"(?:{_ipv6_parts})?::(?:{_ipv6_parts})?")
+    .set_parser_name("short IPv6 address")
+    .add_condition(lambda t: sum(1 for part in t[0].split(":") if part) < 8)
+)
+_mixed_ipv6_address = Regex(
+    r"::ffff:" + ipv4_address.__regex__()[1]
+).set_parser_name("mixed IPv6 address")
+ipv6_address = (
+    _full_ipv6_address | _mixed_ipv6_address | _short_ipv6_address
 ).set_parser_name("IPv6 address")
 "IPv6 address (long, short, or mixed form)"
 
-- 
2.43.0


From e4a033d947738dc909902eb3e443bbfbea681f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:14 +0000
Subject: [PATCH 64/87] fix: ISO8601 datetime has no colon without seconds

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index b1d428c..7b8b862 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -933,7 +933,7 @@ iso8601_date = (
 iso8601_datetime = (
     Regex(
         r"(?P<year>\d{4})-(?P<month>\d\d)-(?P<day>\d\d)[T"
-        r" ](?P<hour>\d\d):(?P<minute>\d\d)(:(?P<second>\d\d(\.\d*)?)?)?(?P<tz>Z|[+-]\d\d:?\d\d)?"
+        r" ](?P<hour>\d\d):(?P<minute>\d\d)(:(?P<second>\d\d(\.\d*)?))?(?P<tz>Z|[+-]\d\d:?\d\d)?"
     )
     .capture_groups()
     .set_parser_name("ISO8601 datetime")
-- 
2.43.0


From 6dd8fdab2f809ae95031e1cd9ac20e72a144f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 65/87] fix: silent Debugger prints nothing

---
 mo_parsing/debug.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index 8cabe2f..69653f5 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -61,7 +61,8 @@ def _debug_parse(debugger):
                 for fn in self.parse_action:
                     tokens = fn(tokens, tokens.start, string)
             except Exception as cause:
-                fail(self, start, string, cause)
+                if not debugger.silent:
+                    fail(self, start, string, cause)
                 raise
         if not debugger.silent:
             match(self, loc, tokens.end, string, tokens)
-- 
2.43.0


From 59a283cbc77699fca0d6ab93a54f47fd24a14100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 66/87] fix: text of a Forward does not depend on what was
 printed before

---
 mo_parsing/enhancement.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 65091dd..782c623 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -1,5 +1,6 @@
 # encoding: utf-8
 from collections import OrderedDict
+from threading import local
 
 from mo_dots import Null, is_null
 from mo_future import text, is_text
@@ -28,6 +29,13 @@ Word: object
 _get = object.__getattribute__
 
 
+class _Printing(local):
+    in_forward = False  # avoid recursion when printing
+
+
+_printing = _Printing()
+
+
 class ParseEnhancement(ParserElement):
     """
     Abstract subclass of `ParserElement`, for combining and
@@ -551,9 +559,9 @@ class Forward(ParserElement):
     __slots__ = [
         "expr",
         "used_by",
-        "_str",
         "_in_regex",
         "_in_expecting",
+        "_str",
         "__in_whitespace",
     ]
 
@@ -562,9 +570,9 @@ class Forward(ParserElement):
         self.expr = None
         self.used_by = []
 
-        self._str = None  # avoid recursion
         self._in_regex = None  # avoid recursion
         self._in_expecting = None  # avoid recursion
+        self._str = None
         self.__in_whitespace = False
         if expr:
             self << whitespaces.CURRENT.normalize(expr)
@@ -573,9 +581,9 @@ class Forward(ParserElement):
         output = ParserElement.copy(self)
         output.expr = self
         output.parse_action = []  # THE ORIGINAL STILL RUNS ITS OWN
-        output._str = None
         output._in_regex = None
         output._in_expecting = None
+        output._str = None
         output.__in_whitespace = False
 
         output.used_by = []
@@ -589,7 +597,7 @@ class Forward(ParserElement):
         self.used_by.append(expr)
 
     def __lshift__(self, other):
-        self._str = ""
+        self._str = None
         if is_forward(self.expr):
             return self.expr << other
 
@@ -691,15 +699,20 @@ class Forward(ParserElement):
         if self.parser_name:
             return self.parser_name
 
+        # Avoid infinite recursion
+        if _printing.in_forward:
+            return "Forward: ..."
+
         if self._str:
             return self._str
 
-        # Avoid infinite recursion
-        self._str = "Forward: ..."
+        _printing.in_forward = True
         try:
             self._str = "Forward: " + text(self.expr)[:1000]
         except Exception:
-            pass
+            self._str = "Forward: ..."
+        finally:
+            _printing.in_forward = False
         return self._str
 
     def __call__(self, name):
-- 
2.43.0


From 82cc0c187e7a58c2a3d4bb3f5b6ca16437484c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 67/87] fix: Debugger refuses actions that roll back the end of
 parsing

---
 mo_parsing/debug.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index 69653f5..0713ff7 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -10,6 +10,7 @@ from mo_parsing.utils import (
     col,
     stack_depth,
     quote as plain_quote,
+    Log,
     ParseException,
 )
 
@@ -59,7 +60,13 @@ def _debug_parse(debugger):
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             try:
                 for fn in self.parse_action:
-                    tokens = fn(tokens, tokens.start, string)
+                    next_tokens = fn(tokens, tokens.start, string)
+                    if next_tokens.end < tokens.end:
+                        Log.error(
+                            "parse action {{name}} not allowed to roll back the end of parsing",
+                            name=fn.__name__
+                        )
+                    tokens = next_tokens
             except Exception as cause:
                 if not debugger.silent:
                     fail(self, start, string, cause)
-- 
2.43.0


From 2d72d69f0e77b8b4f96313a23916658083b040c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:36 +0000
Subject: [PATCH 68/87] fix: Forward can be defined as another Forward that has
 a name, actions or no definition yet

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 782c623..914bfc3 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -601,7 +601,7 @@ class Forward(ParserElement):
         if is_forward(self.expr):
             return self.expr << other
 
-        while is_forward(other):
+        while is_forward(other) and other.expr and not other.is_annotated():
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
-- 
2.43.0


From 0909e709fb1e0c9d7fd717be65d0a759c5d789cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:17 +0000
Subject: [PATCH 69/87] fix: MatchAll matches all its required parts, so is as
 long as their sum

---
 mo_parsing/expressions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index ff20547..dd33974 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -769,8 +769,7 @@ class MatchAll(ParseExpression):
         return output
 
     def _min_length(self):
-        # TODO: MAY BE TOO CONSERVATIVE, WE MAY BE ABLE TO PROVE self CAN CONSUME A CHARACTER
-        return min(e.min_length() for e in self.exprs)
+        return sum(e.min_length() for e in self.exprs)
 
     @property
     def whitespace(self):
-- 
2.43.0


From c28d164363a339a212eb46c4ee14ef51189da3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 70/87] fix: left recursion is found when rules are defined in
 any order

---
 mo_parsing/enhancement.py |  8 +++++++
 mo_parsing/expressions.py | 46 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 914bfc3..75e0c6e 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -562,6 +562,7 @@ class Forward(ParserElement):
         "_in_regex",
         "_in_expecting",
         "_str",
+        "_checked",
         "__in_whitespace",
     ]
 
@@ -573,6 +574,7 @@ class Forward(ParserElement):
         self._in_regex = None  # avoid recursion
         self._in_expecting = None  # avoid recursion
         self._str = None
+        self._checked = False  # for left recursion, when all is defined
         self.__in_whitespace = False
         if expr:
             self << whitespaces.CURRENT.normalize(expr)
@@ -584,6 +586,7 @@ class Forward(ParserElement):
         output._in_regex = None
         output._in_expecting = None
         output._str = None
+        output._checked = False
         output.__in_whitespace = False
 
         output.used_by = []
@@ -605,6 +608,7 @@ class Forward(ParserElement):
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
+        self._checked = False
         self.check_recursion()
         return self
 
@@ -672,6 +676,10 @@ class Forward(ParserElement):
             self.__in_whitespace = False
 
     def parse_impl(self, string, loc, do_actions=True):
+        if not self._checked:
+            # THE RULES IT USES MAY HAVE BEEN DEFINED LATER
+            self.check_recursion()
+            self._checked = True
         try:
             result = self.expr._parse(string, loc, do_actions)
             return ForwardResults(self, result.start, result.end, [result], result.failures)
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index dd33974..299a5ed 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -3,12 +3,13 @@ import json
 from collections import OrderedDict
 from operator import itemgetter
 
+from mo_dots import is_null
 from mo_future import Iterable, text, generator_types
 from mo_imports import export
 
 from mo_parsing import whitespaces
 from mo_parsing.core import ParserElement, _PendingSkip
-from mo_parsing.enhancement import Optional, SkipTo, Many, LookBehind
+from mo_parsing.enhancement import Forward, Optional, SkipTo, Many, LookBehind, TokenConverter
 from mo_parsing.exceptions import (
     ParseException,
     ParseSyntaxException,
@@ -28,6 +29,47 @@ from mo_parsing.utils import (
 from mo_parsing.whitespaces import Whitespace
 
 
+def can_be_empty(expr):
+    """
+    RETURN True IF expr CAN MATCH WITHOUT CONSUMING
+    (A Forward THAT HAS NO DEFINITION, YET, IS ASSUMED TO CONSUME; IT IS CHECKED AGAIN WHEN USED)
+    """
+    found = set()  # THE IDS OF EXPRESSIONS THAT CAN BE EMPTY
+    while True:
+        before = len(found)
+        if _find_empty(expr, found, set()):
+            return True
+        if len(found) == before:
+            return False
+
+
+def _find_empty(expr, found, seen):
+    if id(expr) in found:
+        return True
+    if id(expr) in seen:
+        return False
+    seen.add(id(expr))
+
+    if isinstance(expr, (And, MatchAll)):
+        result = all(_find_empty(e, found, seen) for e in expr.exprs)
+    elif isinstance(expr, ParseExpression):
+        result = any(_find_empty(e, found, seen) for e in expr.exprs)
+    elif isinstance(expr, Forward):
+        result = not is_null(expr.expr) and _find_empty(expr.expr, found, seen)
+    elif isinstance(expr, Many):
+        result = expr.parser_config.min_match == 0 or _find_empty(expr.expr, found, seen)
+    elif isinstance(expr, SkipTo):
+        result = not expr.parser_config.include or _find_empty(expr.expr, found, seen)
+    elif isinstance(expr, TokenConverter):
+        result = _find_empty(expr.expr, found, seen)
+    else:
+        result = expr.min_length() == 0
+
+    if result:
+        found.add(id(expr))
+    return result
+
+
 class ParseExpression(ParserElement):
     """Abstract subclass of ParserElement, for combining and
     post-processing parsed tokens.
@@ -295,7 +337,7 @@ class And(ParseExpression):
         subRecCheckList = seen + (self,)
         for e in self.exprs:
             e.check_recursion(subRecCheckList)
-            if e.min_length():
+            if e.min_length() or not can_be_empty(e):
                 return
 
     def reverse(self):
-- 
2.43.0


From ae33006006a86fb792462770496d7151f2cb8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 71/87] fix: left recursion through MatchAll is refused

---
 mo_parsing/expressions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 299a5ed..4906ee6 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -813,6 +813,11 @@ class MatchAll(ParseExpression):
     def _min_length(self):
         return sum(e.min_length() for e in self.exprs)
 
+    def check_recursion(self, seen=empty_tuple):
+        seen_more = seen + (self,)
+        for e in self.exprs:
+            e.check_recursion(seen_more)
+
     @property
     def whitespace(self):
         return [e.whitespace for e in self.exprs]
-- 
2.43.0


From 99e52ef2dfa157b2c61ac2365d4fd3b8030b48b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:50 +0000
Subject: [PATCH 72/87] fix: SkipTo ends when its ignore expression matches
 nothing

---
 mo_parsing/enhancement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 75e0c6e..b933b8b 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -496,11 +496,13 @@ class SkipTo(ParseEnhancement):
                 # advance past ignore expressions
                 while 1:
                     try:
-                        loc = ignore._parse(string, loc).end
-                        skip_end = loc
-                        loc = before_end = self.parser_config.whitespace.skip(string, loc)
+                        ignored = ignore._parse(string, loc).end
                     except ParseException:
                         break
+                    if ignored <= loc:
+                        break  # NOTHING IGNORED
+                    skip_end = ignored
+                    loc = before_end = self.parser_config.whitespace.skip(string, ignored)
             try:
                 loc = self.expr._parse(string, loc, do_actions=False).end
             except ParseException:
-- 
2.43.0


From 1e933d0a97435b87b1922da370bc6c054e45c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 73/87] fix: SkipTo accepts a string to ignore

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index b933b8b..68570a3 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -455,7 +455,7 @@ class SkipTo(ParseEnhancement):
         self.set_config(
             include=include,
             fail=whitespaces.CURRENT.normalize(fail_on),
-            ignore=ignore,
+            ignore=whitespaces.CURRENT.normalize(ignore),
             whitespace=engine_ or whitespaces.CURRENT,
         )
         self.parser_name = str(self)
-- 
2.43.0


From 9fc22cb67dc7afe9eb2b82684c05f0b6aab524fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 74/87] fix: SkipTo looks for fail_on also after what is
 ignored

---
 mo_parsing/enhancement.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 68570a3..72136a2 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -474,6 +474,14 @@ class SkipTo(ParseEnhancement):
         else:
             return "+", f"(.*?)(?={pattern})"
 
+    @staticmethod
+    def _matches(expr, string, loc):
+        try:
+            expr._parse(string, loc)
+            return True
+        except ParseException:
+            return False
+
     def parse_impl(self, string, start, do_actions=True):
         instrlen = len(string)
         fail = self.parser_config.fail
@@ -483,14 +491,9 @@ class SkipTo(ParseEnhancement):
         while loc <= instrlen:
             skip_end = loc
             loc = before_end = self.parser_config.whitespace.skip(string, loc)
-            if fail:
-                # no match if fail_on expression is found first
-                try:
-                    fail._parse(string, loc)
-                except ParseException:
-                    pass
-                else:
-                    raise ParseException(self, start, string)
+            # no match if fail_on expression is found first
+            if fail and self._matches(fail, string, loc):
+                raise ParseException(self, start, string)
 
             if ignore:
                 # advance past ignore expressions
@@ -503,6 +506,8 @@ class SkipTo(ParseEnhancement):
                         break  # NOTHING IGNORED
                     skip_end = ignored
                     loc = before_end = self.parser_config.whitespace.skip(string, ignored)
+                    if fail and self._matches(fail, string, loc):
+                        raise ParseException(self, start, string)
             try:
                 loc = self.expr._parse(string, loc, do_actions=False).end
             except ParseException:
-- 
2.43.0


From 430d880586bfe5aacf4f6d168977b26f5f86b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 75/87] fix: what ends in ... can be used in many expressions

---
 mo_parsing/core.py        | 9 +++++----
 mo_parsing/expressions.py | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index d79c419..9c59ff5 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -810,11 +810,12 @@ class _PendingSkip(ParserElement):
         self.parser_name = "pending_skip"
 
     def __add__(self, other):
-        if isinstance(other, _PendingSkip):
-            return self.anchor + other
+        return self.skip_to(other) + other
 
-        skipper = SkipTo(other)("_skipped")
-        return self.anchor + skipper + other
+    def skip_to(self, other):
+        if isinstance(other, _PendingSkip):
+            return self.anchor
+        return self.anchor + SkipTo(other)("_skipped")
 
     def parse_impl(self, *args):
         Log.error("use of `...` expression without following SkipTo target expression")
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 4906ee6..0ec4376 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -222,16 +222,17 @@ class And(ParseExpression):
             for e in exprs[:-1]
         ):
             same = False
+            exprs = list(exprs)
             for i, e in enumerate(exprs[:-1]):
                 if (
                     isinstance(e, ParseExpression)
                     and e.exprs
                     and isinstance(e.exprs[-1], _PendingSkip)
                 ):
-                    ee = e.exprs[-1] + exprs[i + 1]
-                    e.exprs[-1] = ee
+                    # e MAY BE USED ELSEWHERE, FOLLOWED BY SOMETHING ELSE
+                    exprs[i] = e = e.copy()
+                    e.exprs = e.exprs[:-1] + [e.exprs[-1].skip_to(exprs[i + 1])]
                     e.streamlined = False
-                    exprs[i + 1] = None
 
         # streamline INDIVIDUAL EXPRESSIONS
         acc = []
-- 
2.43.0


From c35709ce6d3a74af78e5cd298772451ae18da218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 76/87] fix: And([..., expr]) skips to all of expr

---
 mo_parsing/expressions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 0ec4376..fcc395f 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -192,15 +192,14 @@ class And(ParseExpression):
             for i, expr in enumerate(exprs):
                 if expr is Ellipsis:
                     if i < len(exprs) - 1:
-                        skipto_arg = (Empty() + exprs[i + 1]).exprs[-1]
-                        tmp.append(SkipTo(skipto_arg)("_skipped"))
+                        tmp.append(SkipTo(exprs[i + 1])("_skipped"))
                     else:
                         raise Exception(
                             "cannot construct And with sequence ending in ..."
                         )
                 else:
                     tmp.append(expr)
-            exprs[:] = tmp
+            exprs = tmp
         super(And, self).__init__(exprs)
         self.set_config(whitespace=whitespace or whitespaces.CURRENT)
 
-- 
2.43.0


From b571ce8e10c5cb29e11e03befe0613b6b7ae41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:01 +0000
Subject: [PATCH 77/87] fix: LookBehind matches what ends at the current
 position

---
 mo_parsing/enhancement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 72136a2..55d3669 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -937,14 +937,14 @@ class PrecededBy(LookAhead):
             ret = self.expr._parse(string, loc)
         else:
             # retreat specified a maximum lookbehind window, iterate
-            test_expr = self.expr + StringEnd()
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
             for offset in range(self.parser_config.retreat, start + 1):
                 try:
-                    ret = test_expr._parse(instring_slice, start - offset)
-                    break
+                    ret = self.expr._parse(instring_slice, start - offset)
+                    if ret.end == start:
+                        break
                 except ParseException as cause:
                     last_cause = cause
             else:
-- 
2.43.0


From 33982108b9a97b0ef243ce5b4d87567012322f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 78/87] fix: LookBehind looks back no further than retreat

---
 mo_parsing/enhancement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 55d3669..ad256d9 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -914,11 +914,12 @@ class PrecededBy(LookAhead):
 
     zero_length = True
     __slots__ = []
-    Config = append_config(ParseEnhancement, "retreat", "exact")
+    Config = append_config(ParseEnhancement, "retreat", "max_retreat", "exact")
 
     def __init__(self, expr, retreat=None):
         super(PrecededBy, self).__init__(expr)
         expr = self.expr
+        self.set_config(max_retreat=MAX_INT if retreat is None else retreat)
 
         if isinstance(expr, (Literal, Keyword, Char)):
             self.set_config(retreat=expr.min_length(), exact=True)
@@ -932,7 +933,7 @@ class PrecededBy(LookAhead):
     def parse_impl(self, string, start=0, do_actions=True):
         if self.parser_config.exact:
             loc = start - self.parser_config.retreat
-            if loc < 0:
+            if loc < 0 or self.parser_config.retreat > self.parser_config.max_retreat:
                 raise ParseException(self, start, string)
             ret = self.expr._parse(string, loc)
         else:
@@ -940,7 +941,8 @@ class PrecededBy(LookAhead):
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
-            for offset in range(self.parser_config.retreat, start + 1):
+            longest = min(start, self.parser_config.max_retreat)
+            for offset in range(self.parser_config.retreat, longest + 1):
                 try:
                     ret = self.expr._parse(instring_slice, start - offset)
                     if ret.end == start:
-- 
2.43.0


From e8291d8403368dbe00f640252e1dde9d9b969570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 79/87] fix: Dict and OpenDict over one group, and ungroup
 opens the group

---
 mo_parsing/enhancement.py | 23 +++++++++++------------
 mo_parsing/helpers.py     | 13 +++++++++++--
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ad256d9..4381305 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -842,18 +842,17 @@ class OpenDict(TokenConverter):
 
 def _dict_post_parse(tokens, loc, string):
     acc = tokens.tokens
-    for a in list(acc):
-        for tok in list(a):
-            if not tok:
-                continue
-            if is_text(tok):
-                new_tok = Annotation(tok, a.start, a.end, [])
-            else:
-                kv = list(tok)
-                key = kv[0]
-                value = kv[1:]
-                new_tok = Annotation(text(key), tok.start, tok.end, value)
-            acc.append(new_tok)
+    for tok in list(tokens):
+        if not tok:
+            continue
+        if is_text(tok):
+            new_tok = Annotation(tok, tokens.start, tokens.end, [])
+        else:
+            kv = list(tok)
+            key = kv[0]
+            value = kv[1:]
+            new_tok = Annotation(text(key), tok.start, tok.end, value)
+        acc.append(new_tok)
 
     return tokens
 
diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 7b8b862..4e112f0 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -24,7 +24,7 @@ from mo_parsing.exceptions import ParseException
 from mo_parsing.expressions import And
 from mo_parsing.infix import delimited_list
 from mo_parsing.regex import Regex
-from mo_parsing.results import ParseResults, Annotation
+from mo_parsing.results import Annotation, ForwardResults, ParseResults
 from mo_parsing.tokens import (
     CharsNotIn,
     Empty,
@@ -371,7 +371,16 @@ def ungroup(expr):
     """Helper to undo mo_parsing's default grouping of And expressions,
     even if all but one are non-empty.
     """
-    return TokenConverter(expr) / (lambda t: t[0])
+    def open_group(tokens):
+        item = tokens[0]
+        if isinstance(item, ParseResults) and isinstance(item.type, Group):
+            # THE CONTENTS OF THE GROUP, WITH THEIR NAMES
+            while isinstance(item, ForwardResults):
+                item = item.tokens[0]
+            return item.tokens
+        return item
+
+    return TokenConverter(expr) / open_group
 
 
 def located_expr(expr):
-- 
2.43.0


From 12c5f27cba9491f33bc98c5e47db2e9c1aebeeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 80/87] fix: with_attribute finds attributes with an empty
 value or none

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 4e112f0..6868e04 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -617,7 +617,7 @@ def with_attribute(**attr):
 
     def pa(tokens, loc, string):
         for name, expected_value in attr.items():
-            if name not in tokens:
+            if name not in tokens.keys():
                 raise ParseException(
                     tokens.type, loc, string, f"is expecting {name} attribute"
                 )
-- 
2.43.0


From 8cead258042f87a2949e322a03c403d2bf845f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 81/87] fix: replaceHTMLEntity replaces the entity

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 6868e04..9c04c4e 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -787,7 +787,7 @@ commonHTMLEntity = Regex(
 
 def replaceHTMLEntity(t):
     """Helper parser action to replace common HTML entities with their special characters"""
-    return _htmlEntityMap.get(t.entity)
+    return _htmlEntityMap.get(t[0][1:-1])
 
 
 # it's easy to get these comment structures wrong - they're very common, so may as well make them available
-- 
2.43.0


From 23a63f24f8f8e50d933f29154feaeee4cac54979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:00 +0000
Subject: [PATCH 82/87] fix: assignment to a name replaces the part, wherever
 it is

---
 mo_parsing/enhancement.py |  2 +-
 mo_parsing/results.py     | 54 ++++++++++++++++++++++++++++-----------
 mo_parsing/utils.py       |  2 +-
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 4381305..0bedb0b 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -424,7 +424,7 @@ class Optional(Many):
             results = self.expr._parse(string, start, do_actions)
             return ParseResults(self, results.start, results.end, [results], results.failures)
         except ParseException as pe:
-            return ParseResults(self, start, start, self.parser_config.default_value, [pe])
+            return ParseResults(self, start, start, list(self.parser_config.default_value), [pe])
 
     def __str__(self):
         if self.parser_name:
diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index a6a80c8..9f7db17 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -95,32 +95,44 @@ class ParseResults(object):
         if isinstance(k, (slice, int)):
             Log.error("not supported")
 
+        if self is NO_RESULTS:
+            Log.error("not allowed")
+
         if v is None:
             v = NO_RESULTS
 
+        v = self._replace(k, v)
+        if v is not NO_RESULTS:
+            if isinstance(v, ParseResults):
+                while isinstance(v, ForwardResults):
+                    # THE FORWARD IS TRANSPARENT
+                    v = v.tokens[0]
+                self.tokens.append(Annotation(k, v.start, v.end, list(v.tokens)))
+            else:
+                self.tokens.append(Annotation(k, -1, 0, list(enlist(v))))
+
+    def _replace(self, k, v):
+        # PUT v IN PLACE OF THE PART NAMED k
+        # RETURN v, IF THERE IS NO SUCH PART
         for i, tok in enumerate(self.tokens):
             if isinstance(tok, ParseResults):
                 if tok.name == k:
-                    if v is not NO_RESULTS:
-                        # KEEP THE NAME
-                        v = ParseResults(tok.type, tok.start, tok.end, enlist(v), [])
-                    self.tokens[i] = v
+                    self.tokens[i] = v if v is NO_RESULTS else tok._with_value(v)
                     v = NO_RESULTS  # ERASE ALL OTHERS
+                elif isinstance(tok, ForwardResults) and not tok.name:
+                    # THE FORWARD IS TRANSPARENT
+                    v = tok._replace(k, v)
                 elif isinstance(tok.type, Group):
                     continue
                 elif tok.name:
                     continue
+                else:
+                    v = tok._replace(k, v)
+        return v
 
-                tok.__setitem__(k, NO_RESULTS)  # ERASE ALL CHILDREN
-
-        if v is not NO_RESULTS:
-            tokens = self.tokens
-            if isinstance(self, ForwardResults):
-                tokens = tokens[0].tokens
-            if isinstance(v, ParseResults):
-                tokens.append(Annotation(k, v.start, v.end, v.tokens))
-            else:
-                tokens.append(Annotation(k, -1, 0, enlist(v)))
+    def _with_value(self, v):
+        # KEEP THE NAME
+        return ParseResults(self.type, self.start, self.end, list(enlist(v)), [])
 
     def __contains__(self, k):
         return any((r.name) == k for r in self.tokens)
@@ -388,7 +400,16 @@ class ForwardResults(ParseResults):
         return self.tokens[0][item]
 
     def __setitem__(self, k, v):
-        self.tokens[0][k] = v
+        if self._is_named_part():
+            ParseResults.__setitem__(self, k, v)
+        else:
+            self.tokens[0][k] = v
+
+    def _with_value(self, v):
+        if isinstance(self.type, Group):
+            inner = self.tokens[0]._with_value(v)
+            return ForwardResults(self._type, self.start, self.end, [inner], [])
+        return ParseResults(self._type, self.start, self.end, list(enlist(v)), [])
 
     def __bool__(self):
         return self.tokens[0].__bool__()
@@ -460,6 +481,9 @@ class Annotation(ParseResults):
             Log.error("expecting a list")
         ParseResults.__init__(self, Empty()(name), start, end, value, [])
 
+    def _with_value(self, v):
+        return Annotation(self.name, self.start, self.end, list(enlist(v)))
+
     def __str__(self):
         return "{" + text(self.name) + ": " + text(self.tokens) + "}"
 
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 15c0c3c..5736094 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -346,7 +346,7 @@ def wrap_parse_action(func, is_condition=False):
 
             if isinstance(result, (list, tuple)):
                 return ParseResults(
-                    token.type, token.start, token.end, result, token.failures
+                    token.type, token.start, token.end, list(result), token.failures
                 )
             else:
                 return ParseResults(
-- 
2.43.0


From 92fda601d564329e23bf97fa1c898ed132f3d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:10 +0000
Subject: [PATCH 83/87] fix: a choice must try a repetition that skips
 whitespace of its own first

---
 mo_parsing/enhancement.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 0bedb0b..0d2893d 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -235,6 +235,17 @@ class Many(ParseEnhancement):
         )
         self.stop_on(stop_on)
 
+    def expecting(self):
+        expect = ParseEnhancement.expecting(self)
+        if expect:
+            # OUR WHITESPACE IS SKIPPED BEFORE THE FIRST MATCH
+            whitespace = self.parser_config.whitespace
+            if whitespace.ignore_list:
+                return {}
+            for c in whitespace.white_chars:
+                expect.setdefault(c, [self])
+        return expect
+
     def stop_on(self, ender):
         if ender:
             end = self.parser_config.whitespace.normalize(ender)
-- 
2.43.0


From 0610984edb22f565e84c44a43da4211849470797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:06 +0000
Subject: [PATCH 84/87] fix: an infix operator must leave the operand that a
 tighter neighbour claims

---
 mo_parsing/infix.py | 55 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index 55f2b86..3581f32 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -238,12 +238,48 @@ def infix_notation(
         )
     ])
 
+    # LEVEL AND ASSOCIATIVITY OF EACH OPERATOR PART THAT CLAIMS THE OPERAND ON ITS...
+    claims = {"left": {}, "right": {}}
+    parts = [
+        (part, level, assoc, sides)
+        for level, (_, op, _, arity, assoc, _) in enumerate(op_list)
+        if arity > 1
+        for part, sides in (
+            [(op[0], ["left"]), (op[1], ["right"])]
+            if arity == 3
+            else [(op, ["left", "right"])]
+        )
+    ]
+    for part, level, assoc, sides in parts:
+        if sum(part is p for p, *_ in parts) == 1:
+            # USED FOR ONE LEVEL ONLY
+            for side in sides:
+                claims[side][id(part)] = level, assoc
+
     def make_tree(tokens, loc, string):
         flat_tokens = list(tokens)
 
         def is_operand(index):
             return flat_tokens[index][1][0] == "operand"
 
+        def is_claimed(index, side, favoured):
+            """
+            TRUE IF OPERATOR AT index TAKES THE OPERAND ON ITS side, BEFORE THE CURRENT LEVEL DOES
+            """
+            if not 0 <= index < len(flat_tokens):
+                return False
+            role, op = flat_tokens[index][1]
+            if role != "infix" or id(op) not in claims[side]:
+                return False
+            level, assoc = claims[side][id(op)]
+            return level < op_index or (level == op_index and assoc is favoured)
+
+        def left_claimed(index):
+            return is_claimed(index - 1, "right", LEFT_ASSOC)
+
+        def right_claimed(index):
+            return is_claimed(index + 1, "left", RIGHT_ASSOC)
+
         num = len(op_list)
         op_index = 0
         while len(flat_tokens) > 1 and op_index < num:
@@ -253,7 +289,7 @@ def infix_notation(
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
                     for i, (r, o) in todo:
-                        if o == ("prefix", op) and is_operand(i + 1):
+                        if o == ("prefix", op) and is_operand(i + 1) and not right_claimed(i + 1):
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -271,7 +307,7 @@ def infix_notation(
                     # SUFFIX OPERATOR 3!
                     todo = list(enumerate(flat_tokens[1:]))
                     for i, (r, o) in todo:
-                        if o == ("suffix", op) and is_operand(i):
+                        if o == ("suffix", op) and is_operand(i) and not left_claimed(i):
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -291,7 +327,13 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == ("infix", op) and is_operand(i) and is_operand(i + 2):
+                    if (
+                        o == ("infix", op)
+                        and is_operand(i)
+                        and is_operand(i + 2)
+                        and not left_claimed(i)
+                        and not right_claimed(i + 2)
+                    ):
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
@@ -321,7 +363,12 @@ def infix_notation(
                 for i, (r0, o0) in todo:
                     if o0 == ("infix", op[0]):
                         r1, o1 = flat_tokens[i + 3]
-                        if o1 == ("infix", op[1]) and all(is_operand(i + j) for j in (0, 2, 4)):
+                        if (
+                            o1 == ("infix", op[1])
+                            and all(is_operand(i + j) for j in (0, 2, 4))
+                            and not left_claimed(i)
+                            and not right_claimed(i + 4)
+                        ):
                             seq = [
                                 flat_tokens[i][0],
                                 flat_tokens[i + 2][0],
-- 
2.43.0


From 1c6aec03bb2814d9c2906f5cc81065b7d9f08ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:54 +0000
Subject: [PATCH 85/87] fix: left recursion must be looked for again when other
 rules are defined

---
 mo_parsing/enhancement.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 0d2893d..1b518eb 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -27,6 +27,7 @@ Word: object
 )
 
 _get = object.__getattribute__
+_definitions = 0  # NUMBER OF TIMES A Forward WAS DEFINED
 
 
 class _Printing(local):
@@ -592,7 +593,7 @@ class Forward(ParserElement):
         self._in_regex = None  # avoid recursion
         self._in_expecting = None  # avoid recursion
         self._str = None
-        self._checked = False  # for left recursion, when all is defined
+        self._checked = -1  # for left recursion, the definitions that were checked
         self.__in_whitespace = False
         if expr:
             self << whitespaces.CURRENT.normalize(expr)
@@ -604,7 +605,7 @@ class Forward(ParserElement):
         output._in_regex = None
         output._in_expecting = None
         output._str = None
-        output._checked = False
+        output._checked = -1
         output.__in_whitespace = False
 
         output.used_by = []
@@ -626,7 +627,8 @@ class Forward(ParserElement):
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
-        self._checked = False
+        global _definitions
+        _definitions += 1
         self.check_recursion()
         return self
 
@@ -694,10 +696,11 @@ class Forward(ParserElement):
             self.__in_whitespace = False
 
     def parse_impl(self, string, loc, do_actions=True):
-        if not self._checked:
+        if self._checked != _definitions:
             # THE RULES IT USES MAY HAVE BEEN DEFINED LATER
+            definitions = _definitions
             self.check_recursion()
-            self._checked = True
+            self._checked = definitions
         try:
             result = self.expr._parse(string, loc, do_actions)
             return ForwardResults(self, result.start, result.end, [result], result.failures)
-- 
2.43.0


From c2b50320416527a8ded0da09f59645554ce49194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 86/87] fix: min, max and set are meant to be parse actions

---
 mo_parsing/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 5736094..8a206ea 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -307,7 +307,8 @@ def line(loc, string):
 
 def wrap_parse_action(func, is_condition=False):
     if func in singleArgBuiltins:
-        spec = inspect.getfullargspec(func)
+        # SOME HAVE NO SIGNATURE TO INSPECT
+        spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
     elif func.__class__.__name__ == "staticmethod":
         func = func.__func__
         spec = inspect.getfullargspec(func)
-- 
2.43.0


From fdb3b581dbe41da1ad1e616f1c4b7dafd2024f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:52 +0000
Subject: [PATCH 87/87] fix: an operation includes its suppressed operator

---
 mo_parsing/infix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index 3581f32..cfa3ef4 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -293,7 +293,7 @@ def infix_notation(
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
-                                    expr, tok.start, tok.end, (tok,), []
+                                    expr, r.start, tok.end, (tok,), []
                                 )
                             else:
                                 result = ParseResults(
@@ -311,7 +311,7 @@ def infix_notation(
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
-                                    expr, tok.start, tok.end, (tok,), []
+                                    expr, tok.start, r.end, (tok,), []
                                 )
                             else:
                                 result = ParseResults(
-- 
2.43.0

