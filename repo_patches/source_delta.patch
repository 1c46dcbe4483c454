From ba971bb289feb194c3a4b844e28e2d83ac0812e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 01/13] fix: QueryGroup nodes report the node type of a group
 instead of a segment

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index da59ee8..1a12fab 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -864,7 +864,7 @@ class QueryGroup(QueryNode):
             min_occurs: the minimum occurrence
             max_occurs: the maximum occurrence
         """
-        super().__init__(QueryNodeType.QUERY_SEGMENT, child=child)
+        super().__init__(QueryNodeType.QUERY_GROUP, child=child)
 
         self.min_occurs = min_occurs
         """The minimum occurrence of group content."""
-- 
2.43.0


From ff7269c9c9cea059608403ccad97c49aaae87142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 02/13] fix: is_layer_qualifier_empty() is true only without a
 qualifier

It answered the opposite, so that has_layer_qualifier() was never true.
---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 1a12fab..2412ac8 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -583,7 +583,7 @@ class Expression(QueryNode):
             bool: ``True`` if no Layer Type Identifier qualifier was set, ``False`` otherwise
         """
         # NOTE: check only `self.qualifier is None` ?
-        return bool(self.qualifier)
+        return not self.qualifier
 
     def has_layer_qualifier(self, qualifier: str) -> bool:
         """Check if the expression used a given qualifier for the Layer Type
-- 
2.43.0


From 3bee7fb2a08ef308387a35f0216c4fe94c2ee150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 03/13] fix: is_regex_flags_empty() is true only without regex
 flags

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 2412ac8..ba5f59e 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -626,7 +626,7 @@ class Expression(QueryNode):
         Returns:
             bool: ``True`` if no regex flags where set, ``False`` otherwise
         """
-        return bool(self.regex_flags)
+        return not self.regex_flags
 
     def has_regex_flag(self, flag: RegexFlag) -> bool:
         """Check if a regex flag is set.
-- 
2.43.0


From 7f7b5eb21975126e09dc5febe053664b2a572eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 04/13] fix: get_child() returns None for the index just past
 the last child

It raised an IndexError, also from get_within() without a within clause.
---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index ba5f59e..6258e23 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -465,7 +465,7 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
             QueryNode: the child node of this node or ``None`` if not child was found
                        (e.g. type mismatch or index out of bounds)
         """
-        if not self.children or idx < 0 or idx > self.child_count:
+        if not self.children or idx < 0 or idx >= self.child_count:
             return None
         if not clazz:
             return self.children[idx]
-- 
2.43.0


From 6da1bedf8ebc7f75b123c1aebd7c5c86743b2362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 05/13] fix: get_last_child() finds the last child of the
 requested type

It returned None whenever a child of another type existed.
---
 src/fcsql/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 6258e23..bd60eba 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -497,7 +497,10 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
         Returns:
             QueryNode: the last child node of this node or ``None``
         """
-        return self.get_child(self.child_count - 1, clazz=clazz)
+        for child in reversed(self.children):
+            if not clazz or isinstance(child, clazz):
+                return child
+        return None
 
     def __str__(self) -> str:
         chs = " ".join(map(str, self.children))
-- 
2.43.0


From f0f7ef59e31b083120ed22376e6f9b60a9c2bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 06/13] fix: visitors dispatch to the handlers of And, Or, Not,
 Group and Wildcard expressions

visit_ExpressionAnd() and the like were never called, as the values of
those node types are "And" etc.
---
 src/fcsql/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index bd60eba..3e25df0 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -153,6 +153,9 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
 
             method = "visit_" + node.node_type.value
 
+        or, where no such method exists, on the name of the node class
+        (e.g., ``visit_ExpressionAnd`` for nodes of type ``And``).
+
         Args:
             node: the node to visit
 
@@ -164,7 +167,10 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
 
         # search for specific visit function based on node_type
         method_name = f"visit_{node.node_type}"
-        method = getattr(self, method_name, self.visitChildren)
+        method = getattr(self, method_name, None)
+        if method is None:
+            # the node types of nested expressions do not carry the name of their node class
+            method = getattr(self, f"visit_{type(node).__name__}", self.visitChildren)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
             LOGGER.debug("visiting '%s()': %s", method.__name__, node)
-- 
2.43.0


From 683215033318a7604c08e60b661aeeb23cafe2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 07/13] fix: accept the escape sequences \} and \] of the
 grammar

---
 src/fcsql/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 3e25df0..a3bd80f 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1624,8 +1624,12 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                     chars.append("\\)")
                 elif cp == "{":  # regex: opening curly brace
                     chars.append("\\{")
+                elif cp == "}":  # regex: closing curly brace
+                    chars.append("\\}")
                 elif cp == "[":  # regex: opening square bracket
                     chars.append("\\[")
+                elif cp == "]":  # regex: closing square bracket
+                    chars.append("\\]")
                 elif cp == "|":  # regex: vertical bar
                     chars.append("\\|")
                 elif cp == "x":  # x HEX HEX
-- 
2.43.0


From d6c0ad91546b2ab80681493063c353dc629ab71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 08/13] fix: report codepoints from U+80000000 on as invalid
 codepoints

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index a3bd80f..75e35d5 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1663,7 +1663,7 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                 cp |= ExpressionTreeBuilder.parseHexChar(val[i])
             try:
                 return chr(cp)
-            except ValueError:
+            except (ValueError, OverflowError):
                 raise ExpressionTreeBuilderException(f"invalid codepoint: U+{cp:X}")
 
         else:
-- 
2.43.0


From bceaacb18e82ac3b2ac4a58d87d62d0582b51169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 09/13] fix: position of lexer errors is an offset into the
 whole query

It was the offset into the line, wrong from the second line on.
---
 src/fcsql/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 75e35d5..cf70d65 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -23,6 +23,7 @@ from antlr4 import CommonTokenStream
 from antlr4 import InputStream
 from antlr4 import ParserRuleContext
 from antlr4 import Token
+from antlr4.error.Errors import LexerNoViableAltException
 from antlr4.Recognizer import Recognizer
 from antlr4.tree.Tree import TerminalNodeImpl
 
@@ -990,7 +991,8 @@ class ErrorListener(antlr4.error.ErrorListener.ErrorListener):
                 LOGGER.debug(f"{recognizer=}")
 
         if pos is None:
-            pos = column
+            # lexer errors have no token and `column` only counts from the start of the line
+            pos = e.startIndex if isinstance(e, LexerNoViableAltException) else column
 
         self.errors.append(
             ErrorDetail(
-- 
2.43.0


From 64bea7bae0e164a9ae0a537cd389f13bd2f26f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 10/13] fix: antlr_parse() raises SyntaxError also for
 unrecognized characters

They were dropped and the remaining tokens parsed.
---
 src/fcsql/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index d3a5955..c807fd6 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -48,6 +48,7 @@ def antlr_parse(input: str) -> FCSParser.QueryContext:
     lexer = FCSLexer(input_stream)
     stream = CommonTokenStream(lexer)
     parser = FCSParser(stream)
+    lexer.addErrorListener(ExceptionThrowingErrorListener())
     parser.addErrorListener(ExceptionThrowingErrorListener())
     tree: FCSParser.QueryContext = parser.query()
     return tree
-- 
2.43.0


From a07840e4ab3b606ddd340a5b39318a32b892acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 11/13] fix: an aborted validation leaves no stale parent nodes
 in the validator

---
 src/fcsql/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index 155bcec..b9bc1f1 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -110,6 +110,9 @@ class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
         self.errors = []
         self.warnings = []
 
+        # reset parents (left over if the last validation was aborted)
+        self.stack.clear()
+
         # start validation
         self.visit(node)
 
-- 
2.43.0


From 6c2033cb4f72c6cb67a5c67fae89df7ba1826f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 12/13] fix: validate() no longer fails with a RecursionError
 on deeply nested queries

---
 src/fcsql/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index c807fd6..8b117f9 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -173,6 +173,9 @@ def validate(
     except SpecificationValidationError:
         # not will raise if raise_at_first_violation enabled
         return False
+    except RecursionError:
+        # queries the parser can just about handle might be nested too deeply for the validator
+        return [ErrorDetail("query is nested too deeply to be validated")] if return_errors else False
 
     errors = list()
     errors.extend(validator.errors)
-- 
2.43.0


From 0b067294be7cf5a6d2ae1fbc872c4f14e658e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 13/13] fix: SpecificationValidationError can be copied and
 pickled

---
 src/fcsql/validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index b9bc1f1..26828c8 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -42,6 +42,10 @@ class SpecificationValidationError(Exception):
         self.node = node
         self.query_fragment = query_fragment
 
+    def __reduce__(self):
+        # by default exceptions are copied/pickled with their message arguments only
+        return (type(self), (self.args[0], self.node, self.query_fragment, *self.args[1:]), self.__dict__)
+
 
 class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
     """An abstract base Validator for FCS-QL queries.
-- 
2.43.0

