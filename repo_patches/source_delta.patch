From 74c3bc9779c60574f75ae0c89cb51879be950e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 01/58] fix: pass compiler when a literal or variable is added
 to or multiplied by a compound int expression

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8bfe8c7..f5fa968 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -558,7 +558,7 @@ class IntOpGroup(AcaciaExpr):
     def _r_add_mul(self, name: str, other, compiler):
         # a (+ or *) b is b (+ or *) a
         if isinstance(other, (IntLiteral, IntVar)):
-            return getattr(self, name)(other)
+            return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
     def _r_sub_div_mod(self, other, name, compiler):
-- 
2.43.0


From f467617d6b25b4d0c522a0ca6c0e927f0e4b4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 02/58] fix: argument order of reflected -, / and % of compound
 int expressions

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index f5fa968..8847ca3 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -561,7 +561,7 @@ class IntOpGroup(AcaciaExpr):
             return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
-    def _r_sub_div_mod(self, other, name, compiler):
+    def _r_sub_div_mod(self, name: str, other, compiler):
         # Convert `other` to `IntOpGroup` and use this to handle this
         # operation.
         if isinstance(other, (IntLiteral, IntVar)):
-- 
2.43.0


From 8cbd4a26949a48b61fd017068cf81bddb41ed731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 03/58] fix: unary minus of non-constant int expressions
 crashed

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8847ca3..2357631 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -527,7 +527,7 @@ class IntOpGroup(AcaciaExpr):
 
     def unaryneg(self, compiler):
         # -expr = expr * (-1)
-        return self.mul(compiler.add_int_const(-1))
+        return self.mul(IntLiteral(-1), compiler)
 
     ## BINARY (SELF ... OTHER) OPERATORS
 
-- 
2.43.0


From 5dd4f841e2698911676b84a231a454fc4ab6396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 04/58] fix: augmented assignment of an int variable with a
 compound int expression

---
 acaciamc/objects/integer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 2357631..b5365ef 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -353,11 +353,13 @@ class IntVar(VarValue):
         """
         # In this condition, we convert a (op)= b to a = a (op) b
         ## Calculate
-        value = getattr(self, STR2METHOD[operator])(other, compiler)
+        value = getattr(
+            IntOpGroup.from_intexpr(self), STR2METHOD[operator]
+        )(other, compiler)
         ## Export
         tmp = IntVar.new(compiler, tmp=True)
         res = value.export(tmp, compiler)
-        res.extend(tmp.export(self))
+        res.extend(tmp.export(self, compiler))
         return res
 
     iadd = partialmethod(_iadd_sub, '+')
-- 
2.43.0


From d82dd6b09a85a7f2601923657a873678f6c5dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 05/58] fix: comparing an int with the smallest or largest int
 emitted an out-of-range literal

---
 acaciamc/objects/boolean.py | 19 ++++++++++++++++++-
 acaciamc/objects/integer.py |  6 +++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c28d029..79f864a 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -28,7 +28,7 @@ __all__ = [
     'BoolLiteral', 'BoolVar', 'NotBoolVar', 'CompareBase', 'WildBool',
     'NotWildBool', 'SupportsAsExecute',
     # Factory functions
-    'new_and_group', 'new_or_expression',
+    'new_and_group', 'new_or_expression', 'new_matches_compare',
     # Utils
     'to_BoolVar'
 ]
@@ -493,6 +493,23 @@ def new_or_expression(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
     # invert result (-> `not (not a and not b and not c)`)
     return res.unarynot(compiler)
 
+def new_matches_compare(
+    dependencies: CMDLIST_T, slot: cmds.ScbSlot,
+    operator: Operator, literal: int
+) -> AcaciaExpr:
+    """Compare a scoreboard slot with a literal integer."""
+    # No score is greater than INT_MAX or less than INT_MIN. Such a
+    # comparison can't be written as a range of 32-bit integers.
+    if literal == INT_MAX and operator is Operator.greater:
+        return BoolLiteral(False)
+    if literal == INT_MAX and operator is Operator.less_equal:
+        return BoolLiteral(True)
+    if literal == INT_MIN and operator is Operator.less:
+        return BoolLiteral(False)
+    if literal == INT_MIN and operator is Operator.greater_equal:
+        return BoolLiteral(True)
+    return ScbMatchesCompare(dependencies, slot, operator, literal)
+
 # Utils
 def to_BoolVar(expr: AcaciaExpr, compiler, tmp=True) \
         -> Tuple[CMDLIST_T, BoolVar]:
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index b5365ef..c892bc8 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -36,7 +36,7 @@ import operator
 
 from .types import Type
 from .boolean import (
-    CompareBase, BoolDataType, BoolLiteral, ScbMatchesCompare, to_BoolVar
+    CompareBase, BoolDataType, BoolLiteral, new_matches_compare, to_BoolVar
 )
 from acaciamc.error import *
 from acaciamc.constants import INT_MIN, INT_MAX
@@ -268,7 +268,7 @@ class IntVar(VarValue):
         if not other.data_type.matches_cls(IntDataType):
             raise InvalidOpError
         if isinstance(other, IntLiteral):
-            return ScbMatchesCompare([], self.slot, op, other.value)
+            return new_matches_compare([], self.slot, op, other.value)
         return IntCompare(self, op, other)
 
     def swap(self, other: "IntVar", compiler):
@@ -514,7 +514,7 @@ class IntOpGroup(AcaciaExpr):
             raise InvalidOpError
         if isinstance(other, IntLiteral):
             commands, var = to_IntVar(self, compiler)
-            return ScbMatchesCompare(commands, var.slot, op, other.value)
+            return new_matches_compare(commands, var.slot, op, other.value)
         return IntCompare(self, op, other)
 
     rawtextify = _int_rawtextify
-- 
2.43.0


From 958f86d8486b38cd9fbc972e8e47019b76cbb7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 06/58] fix: comparing two negated boolean conjunctions for
 equality was rejected

---
 acaciamc/objects/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 79f864a..e4b3d0c 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -64,7 +64,7 @@ def _bool_compare(self: AcaciaExpr, op: Operator, other: AcaciaExpr, compiler):
     elif isinstance(other, NotBoolVar):
         slot2 = other.slot
         invert = not invert
-    elif isinstance(other, (CompareBase, WildBool)):
+    elif isinstance(other, (CompareBase, WildBool, NotWildBool)):
         _dep, other_var = to_BoolVar(other, compiler)
         dep.extend(_dep)
         slot2 = other_var.slot
-- 
2.43.0


From b8f6005611fea3352fee779c4e670b44bb262a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 07/58] fix: comparing a bool literal with a value of another
 type crashed the compiler

---
 acaciamc/objects/boolean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index e4b3d0c..e3ef701 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -162,6 +162,7 @@ class BoolLiteral(ConstExprCombined):
         true = self.value == (op is Operator.equal_to)
         if self.data_type.is_type_of(other):
             return other if true else other.unarynot(compiler)
+        raise InvalidOpError
 
     def ccompare(self, op: Operator, other: "CTObj"):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From 8f8727efdfcedeae7c556b4508e97825d27004a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 08/58] fix: both branches of an if statement ran when the
 first one changed the condition variable

---
 acaciamc/mccmdgen/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 03766b8..ecafef5 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -407,8 +407,12 @@ class Generator(ASTVisitor):
             )
             return
         # Fallback
-        dep, condition_var = to_BoolVar(condition, self.compiler, tmp=False)
-        self.current_file.extend(dep)
+        # The result must be kept in a new variable, since the first
+        # branch may change variables that the condition depends on.
+        condition_var = BoolVar.new(self.compiler)
+        self.current_file.extend(
+            condition.export(condition_var, self.compiler)
+        )
         if has_then:
             self.current_file.write(cmds.Execute(
                 [cmds.ExecuteScoreMatch(condition_var.slot, "1")],
-- 
2.43.0


From 0961fe4225ce9f2921d10da08064b3d95d99410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 09/58] fix: function calls in the condition of a while loop
 ran only once

---
 acaciamc/mccmdgen/generator.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index ecafef5..cd91d82 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -426,12 +426,17 @@ class Generator(ASTVisitor):
 
     def visit_While(self, node: While):
         # condition
-        condition: AcaciaExpr = self.visit(node.condition)
+        # Commands that evaluate the condition (e.g. function calls) need
+        # to run before every iteration.
+        cond_file = cmds.MCFunctionFile()
+        with self.set_mcfunc_file(cond_file):
+            condition: AcaciaExpr = self.visit(node.condition)
         if not condition.data_type.matches_cls(BoolDataType):
             self.error_c(ErrorType.WRONG_WHILE_CONDITION,
                          got=str(condition.data_type))
         # body
-        with self.new_mcfunc_file() as body_file:
+        body_file = cmds.MCFunctionFile()
+        with self.set_mcfunc_file(body_file):
             self.write_debug('While definition')
             body_file.write_debug('## Part 1. Body')
             for stmt in node.body:
@@ -443,6 +448,7 @@ class Generator(ASTVisitor):
                 self.write_debug(
                     'Skipped because the condition always evaluates to False'
                 )
+                self.current_file.extend(cond_file.commands)
                 return
             else:
                 self.error_c(ErrorType.ENDLESS_WHILE_LOOP)
@@ -452,8 +458,10 @@ class Generator(ASTVisitor):
         else:
             dep, cond_var = to_BoolVar(condition, self.compiler, tmp=False)
             subcmds = [cmds.ExecuteScoreMatch(cond_var.slot, "1")]
+        dep = cond_file.commands + dep
         # triggering the function
-        if body_file.has_content():
+        if body_file.has_content() or cond_file.has_content():
+            self.compiler.add_file(body_file)
             body_file.write_debug('## Part 2. Recursion')
             for file in (body_file, self.current_file):
                 file.extend(dep)
-- 
2.43.0


From 7107bf3319c72e8fba0305cf0b49dae775687cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 10/58] fix: temporary scores in use were overwritten by the
 function called

---
 acaciamc/compiler.py           | 11 +++++++++++
 acaciamc/mccmdgen/generator.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ab6c4e3..96c467c 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -273,6 +273,17 @@ class Compiler:
         """
         self._free_tmp_score.append(slot)
 
+    @contextmanager
+    def separate_tmps(self):
+        """Context manager. Temporary scores allocated inside are never
+        shared with the outside. Body of a function needs this because
+        it may be called when temporary scores of the caller are in use.
+        """
+        old = self._free_tmp_score
+        self._free_tmp_score = []
+        yield
+        self._free_tmp_score = old
+
     def add_int_const(self, value: int) -> IntVar:
         """Sometimes a constant is needed when calculating in MC
         e.g. `a * 2`, we need a score to store 2, so that we can use
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index cd91d82..9557ddf 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -599,7 +599,7 @@ class Generator(ASTVisitor):
 
     @contextlib.contextmanager
     def _in_noninline_func(self, func: AcaciaFunction):
-        with self.new_ctx():
+        with self.new_ctx(), self.compiler.separate_tmps():
             self.ctx.new_scope()
             self.ctx.current_function = func
             self.ctx.function_state = FUNC_NORMAL
-- 
2.43.0


From 7572fed42a3454ea8a715655fc7c83a3448e1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 11/58] fix: fields of two entity expressions that may be the
 same entity were treated as distinct

---
 acaciamc/mccmdgen/cmds.py   | 36 +++++++++++++++++++++++++-----------
 acaciamc/modules/math.py    |  2 +-
 acaciamc/objects/boolean.py |  8 +++-----
 acaciamc/objects/integer.py |  2 +-
 4 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 33069a3..5f4fe1b 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -42,6 +42,17 @@ class ScbSlot(NamedTuple):
             mc_str(self.objective)
         )
 
+    def may_alias(self, other: "ScbSlot") -> bool:
+        """Whether the two slots may refer to the same score.
+        Different selectors may select the same entity.
+        """
+        if self.objective != other.objective:
+            return False
+        return self.target == other.target or any(
+            target == "*" or target.startswith("@")
+            for target in (self.target, other.target)
+        )
+
 class Command(metaclass=ABCMeta):
 
     is_debug = False  # only write when -d is set
@@ -93,7 +104,7 @@ class ScbSetConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbAddConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -106,7 +117,7 @@ class ScbAddConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbRemoveConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -119,7 +130,7 @@ class ScbRemoveConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbOp(Enum):
     ADD_EQ = "+="
@@ -147,15 +158,17 @@ class ScbOperation(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (slot.may_alias(self.operand1)
+                    or slot.may_alias(self.operand2))
         else:
-            return slot == self.operand1
+            return slot.may_alias(self.operand1)
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (slot.may_alias(self.operand1)
+                    or slot.may_alias(self.operand2))
         else:
-            return slot == self.operand2
+            return slot.may_alias(self.operand2)
 
 class ScbRandom(Command):
     def __init__(self, target: ScbSlot, min_: int, max_: int):
@@ -170,7 +183,7 @@ class ScbRandom(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbObjAdd(Command):
     def __init__(self, name: str, display_name: Optional[str] = None):
@@ -377,7 +390,8 @@ class ExecuteScoreComp(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand1 or slot == self.operand2
+        return (slot.may_alias(self.operand1)
+                or slot.may_alias(self.operand2))
 
     def resolve(self) -> str:
         return "%s score %s %s %s" % (
@@ -395,7 +409,7 @@ class ExecuteScoreMatch(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand
+        return slot.may_alias(self.operand)
 
     def resolve(self) -> str:
         return "%s score %s matches %s" % (
@@ -549,7 +563,7 @@ class RawtextOutput(Command):
         )
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot in self.score_slots
+        return any(map(slot.may_alias, self.score_slots))
 
 class TitlerawTimes(Command):
     def __init__(self, player: str, fade_in: int, stay: int, fade_out: int):
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 4a448fc..71dbf71 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -36,7 +36,7 @@ class IntXOpSelf(IntOp):
         self.x = x
 
     def scb_did_assign(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.x
+        return slot.may_alias(self.x)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(STR2SCBOP[self.op], self.x, var.slot)]
diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index e3ef701..b9079d3 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -237,11 +237,9 @@ class NotBoolVar(AcaciaExpr):
                              cmds.ScbSetConst(var.slot, 0))
             ]
         else:
-            return [
-                cmds.ScbSetConst(var.slot, 0),
-                cmds.Execute([cmds.ExecuteScoreMatch(self.slot, "0")],
-                             cmds.ScbSetConst(var.slot, 1))
-            ]
+            return _export_bool(
+                [cmds.ExecuteScoreMatch(self.slot, "0")], var, compiler
+            )
 
     def compare(self, op, other, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index c892bc8..9768030 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -427,7 +427,7 @@ class IntOpVar(IntOp):
         self.slot = slot
 
     def scb_did_read(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.slot
+        return slot.may_alias(self.slot)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(self.op, var.slot, self.slot)]
-- 
2.43.0


From 62c9e38b8d2cc7349119f09d48fba99d38a4c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:16 +0000
Subject: [PATCH 12/58] fix: inlined conditional calls ignored scores changed
 by raw commands

---
 acaciamc/mccmdgen/cmds.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 5f4fe1b..ce55039 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -93,6 +93,15 @@ class Cmd(Command):
     def resolve(self) -> str:
         return self.value
 
+    def scb_did_assign(self, slot: ScbSlot) -> bool:
+        # A selector may select other entities after any command. Any
+        # score can be modified by a command that mentions /scoreboard
+        # or runs a function.
+        return (
+            slot.target == "*" or slot.target.startswith("@")
+            or "scoreboard" in self.value or "function" in self.value
+        )
+
 class ScbSetConst(Command):
     def __init__(self, target: ScbSlot, value: int):
         self.target = target
-- 
2.43.0


From 429c6eff80978a7c7c8b9bcc6563ee7c08717dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 13/58] fix: the optimizer generated different output every
 time

---
 acaciamc/mccmdgen/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 8345daf..f742c87 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -41,7 +41,8 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 _visit(ref)
         for file in self.entry_files():
             _visit(file)
-        self.files = list(visited)
+        # Keep the order of files, so that the output is deterministic.
+        self.files = [file for file in self.files if file in visited]
 
     @property
     @abstractmethod
-- 
2.43.0


From 4a0291dd5ad3f8898f0e9e3e91684e3c0c324f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 14/58] fix: constructor assigned to an existing variable that
 its arguments read

---
 acaciamc/mccmdgen/generator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 9557ddf..1ad3fe1 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -234,7 +234,7 @@ class Generator(ASTVisitor):
         var = dt.new_var(self.compiler)
         self.register_symbol(node.target, var)
         if node.value is not None:
-            self._assign(var, node.value)
+            self._assign(var, node.value, is_new=True)
 
     def visit_AutoVarDef(self, node: AutoVarDef):
         is_ctor: bool = False
@@ -258,7 +258,8 @@ class Generator(ASTVisitor):
         if value is not None and not is_ctor:
             self.current_file.extend(value.export(var, self.compiler))
 
-    def _assign(self, target: AcaciaExpr, value_node: Expression):
+    def _assign(self, target: AcaciaExpr, value_node: Expression,
+                is_new: bool = False):
         if not target.is_assignable():
             self.error_c(ErrorType.INVALID_ASSIGN_TARGET)
         value_type: Optional[DataType] = None
@@ -266,7 +267,13 @@ class Generator(ASTVisitor):
         # analyze rvalue
         if isinstance(value_node, Call):
             func, table = self._call_inspect(value_node)
-            if isinstance(func, ConstructorFunction):
+            args, keywords = table
+            # An existing target cannot be reconstructed in place if the
+            # arguments may read it.
+            if isinstance(func, ConstructorFunction) and (is_new or all(
+                isinstance(arg, ConstExpr)
+                for arg in (*args, *keywords.values())
+            )):
                 value_type, ctor_kwds = \
                     func.pre_initialize(*table, self.compiler)
             else:
-- 
2.43.0


From fc740a20affdbf6c16bfb010a621cb331fd6ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 15/58] fix: calls of virtual methods with several inline
 implementations crashed

---
 acaciamc/objects/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f228af1..043305d 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -551,7 +551,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 file.extend(_call_bm(args, keywords, only_bm))
                 continue
             # Fallback
-            for impl, (_, templates, get_self_var) in self.impls.items():
+            for bm, templates, get_self_var in self.impls.values():
                 file.write_debug(
                     "# For %s"
                     % (", ".join(template.name for template in templates))
@@ -561,7 +561,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, impl)
+                commands = _call_bm(args, keywords, bm)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From 32ccfc9d952144e7cfaaf2d0e122b9473e13bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 16/58] fix: results of virtual method calls in one expression
 shared one variable

---
 acaciamc/objects/functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 043305d..a65ed02 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -513,12 +513,17 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         file = cmds.MCFunctionFile()
         self.files.append((args, keywords, file))
         compiler.add_file(file)
-        return self.result_var, [
+        # Make a copy of `result_var`
+        result = self.result_var.data_type.new_var(compiler)
+        commands = [
             cmds.Execute(
                 [cmds.ExecuteEnv("as", self.object.to_str())],
                 cmds.InvokeFunction(file)
-            )
+            ),
+            *self.result_var.export(result, compiler)
         ]
+        result.is_temporary = True
+        return result, commands
 
     def _generate(self, compiler: "Compiler"):
         def _call_bm(args: ARGS_T, keywords: KEYWORDS_T,
-- 
2.43.0


From f33730e0e898d8bfb3b9f5519cfa71aacae0187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 17/58] fix: temporary scores and nested calls in virtual
 method dispatchers

---
 acaciamc/compiler.py          | 7 ++++---
 acaciamc/objects/functions.py | 8 ++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 96c467c..bfbe96a 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -171,9 +171,10 @@ class Compiler:
         ## start
         with self._load_generator(main_path, self.file_main) as generator:
             generator.parse()
-        ## callback
-        for cb in self._before_finish_cbs:
-            cb(self)
+            ## callback
+            for cb in self._before_finish_cbs:
+                with self.separate_tmps():
+                    cb(self)
         ## add tick.mcfunction
         if self.file_tick.has_content():
             self.output_mgr.new_file(
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index a65ed02..e420600 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -496,7 +496,6 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile]] = []
         self.result_var = result_var
         self.func_repr = self.name
-        compiler.before_finish(self._generate)
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
@@ -511,6 +510,8 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
         file = cmds.MCFunctionFile()
+        if not self.files:
+            compiler.before_finish(self._generate)
         self.files.append((args, keywords, file))
         compiler.add_file(file)
         # Make a copy of `result_var`
@@ -541,7 +542,10 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             only_selfvar = None if _getself is None else _getself()
         else:
             only_bm = only_selfvar = None
-        for args, keywords, file in self.files:
+        files = self.files
+        # More calls may be added when inline implementations are called
+        self.files = []
+        for args, keywords, file in files:
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
-- 
2.43.0


From e389310778f594b452d8db83b4f8ad3fbd89a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 18/58] fix: methods inherited through multiple inheritance did
 not follow the MRO

---
 acaciamc/objects/entity_template.py | 52 +++++++++++++++--------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 054ec5a..aa06c1d 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -103,16 +103,25 @@ class _MethodDispatcher:
         for bound in self.bound:
             bound.add_implementation(template, implementation, get_self_var)
 
-    def register_inherit(self, template: "EntityTemplate",
-                         parent: "EntityTemplate"):
-        for impl, (templates, get_self) in self.impls.items():
-            if parent in templates:
-                templates.append(template)
-                for bound in self.bound:
-                    bound.add_implementation(template, impl, get_self)
-                break
-        else:
-            unreachable("Base not found")
+    def register_inherit(self, template: "EntityTemplate"):
+        impl, get_self = self.resolve(template)
+        self.impls[impl][0].append(template)
+        for bound in self.bound:
+            bound.add_implementation(template, impl, get_self)
+
+    def resolve(self, template: "EntityTemplate"):
+        """Find the implementation used by `template` through its MRO."""
+        best = None
+        for impl, (templates, get_self_var) in self.impls.items():
+            try:
+                i = template.mro_.index(templates[0])
+            except ValueError:
+                pass
+            else:
+                if best is None or i < best[0]:
+                    best = i, impl, get_self_var
+        _, impl, get_self_var = best
+        return impl, get_self_var
 
     def bind_to(self, entity: "_EntityBase"):
         res = BoundVirtualMethod(
@@ -125,17 +134,7 @@ class _MethodDispatcher:
         return res
 
     def bind_to_cast(self, entity: "_EntityBase"):
-        best = None
-        mro = entity.cast_template.mro_
-        for impl, (templates, get_self_var) in self.impls.items():
-            try:
-                i = mro.index(templates[0])
-            except ValueError:
-                pass
-            else:
-                if best is None or i < best[0]:
-                    best = i, impl, get_self_var
-        _, impl, get_self_var = best
+        impl, get_self_var = self.resolve(entity.cast_template)
         return BoundMethod(entity, self.method_name, impl, get_self_var)
 
 class _SimpleMethod:
@@ -322,10 +321,13 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                                 method=method)
             for method, mgr in parent.simple_methods.items():
                 _check(m_virtual, m_static, method)
-                m_simple[method] = mgr
+                if mgr.template is parent:  # not inherited
+                    m_simple[method] = mgr
             for method, impl in parent.static_methods.items():
                 _check(m_virtual, m_simple, method)
-                m_static[method] = impl
+                if not any(base.static_methods.get(method) is impl
+                           for base in parent.mro_[1:]):  # not inherited
+                    m_static[method] = impl
         ## Make sure field names do not conflict with method names
         for attr in attr_list:
             if attr in m_virtual or attr in m_simple or attr in m_static:
@@ -340,7 +342,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                     raise Error(ErrorType.OVERRIDE_QUALIFIER,
                                 got=qualifier.localized, name=method)
                 _check_override(implementation, method)
-                disp = parent.method_dispatchers[method]
+                disp = m_virtual[method]
                 self.method_dispatchers[method] = disp
                 disp.register(self, implementation)
                 continue
@@ -373,7 +375,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             if method not in self.method_dispatchers:
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
-                disp.register_inherit(self, parent)
+                disp.register_inherit(self)
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
                 # Inherited simple methods
-- 
2.43.0


From 38b2457f80f2a6f14d90be0a4c97424fa82b43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 19/58] fix: math.mod overflowed when the divisor is large

---
 acaciamc/modules/_math.aca | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/_math.aca b/acaciamc/modules/_math.aca
index 7415838..f8a03da 100644
--- a/acaciamc/modules/_math.aca
+++ b/acaciamc/modules/_math.aca
@@ -8,7 +8,11 @@ def mod(x: int, y: int) -> int:
      * -10 % 3 == -1 while mod(-10, 3) == 2
      * -10 % -3 == mod(-10, -3) == -1
      *#
-    result (x % y + y) % y
+    res := x % y
+    # NOTE `res + y` never overflows here
+    if res != 0 and (res > 0) != (y > 0):
+        res += y
+    result res
 
 def floordiv(x: int, y: int) -> int:
     #**
-- 
2.43.0


From 1ea8f1c4e08686d400a5f1a2b7d36ce2f9ddb947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 20/58] fix: schedule.register_loop with a compound interval

---
 acaciamc/modules/schedule.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 2e00f21..6046b3f 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -217,13 +217,15 @@ def register_loop(compiler: "Compiler", target: AcaciaCallable,
     init_cmds = [cmds.ScbSetConst(timer.slot, 0)]
     # Tick loop
     ## Call on times up AND reset timer
-    tick_commands.extend(interval.export(timer, compiler))
-    compiler.file_tick.extend(
-        cmds.execute(
-            [cmds.ExecuteScoreMatch(timer.slot, "..0")], runs=cmd
-        )
-        for cmd in tick_commands
-    )
+    # All commands have to be in one file since they may change `timer`.
+    loop_file = cmds.MCFunctionFile()
+    compiler.add_file(loop_file)
+    loop_file.extend(tick_commands)
+    loop_file.extend(interval.export(timer, compiler))
+    compiler.file_tick.write(cmds.Execute(
+        [cmds.ExecuteScoreMatch(timer.slot, "..0")],
+        runs=cmds.InvokeFunction(loop_file)
+    ))
     ## Decrease the timer by 1
     compiler.file_tick.write(cmds.ScbRemoveConst(timer.slot, 1))
     # Result
-- 
2.43.0


From 2e0051d2636386d3ec1fc08ca74bc936a1f5c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 21/58] fix: non-constant argument for a compile-time argument
 crashed the compiler

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 9ce908c..66d660f 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -782,7 +782,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
         elif isinstance(origin, acacia.ConstExpr):
             convert = lambda: converter.cconvert(origin.to_ctexpr())
         else:
-            raise _PreconvertError(_PE_NOT_CONST)
+            raise _PreconvertError(_PE_NOT_CONST, origin)
     else:
         if isinstance(converter, CTConverter):
             convert = lambda: converter.cconvert(origin)
@@ -790,7 +790,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
             try:
                 origin_rt = abs(origin).to_rt()
             except InvalidOpError:
-                raise _PreconvertError(_PE_NOT_RT)
+                raise _PreconvertError(_PE_NOT_RT, origin)
             convert = lambda: converter.convert(origin_rt)
     return convert
 
-- 
2.43.0


From 63b5e90217bd47abd7346a9e665478e4fc12d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 22/58] fix: interface paths with . or .. could leave the
 output folder or overwrite other files

---
 acaciamc/error.py              | 1 +
 acaciamc/lang/en_US.lang       | 1 +
 acaciamc/mccmdgen/generator.py | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index fabea2c..b027698 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -146,6 +146,7 @@ class ErrorType(LocalizedEnum):
     INTERFACE_PATH_SLASH_START = "error.errortype.interfacepathslashstart"
     INTERFACE_PATH_SLASH_END = "error.errortype.interfacepathslashend"
     INTERFACE_PATH_DOUBLE_SLASH = "error.errortype.interfacepathdoubleslash"
+    INTERFACE_PATH_DOTS = "error.errortype.interfacepathdots"
     INTERFACE_PATH_INVALID_CHAR = "error.errortype.interfacepathinvalidchar"
     # Compiler
     IO = "error.errortype.io"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index b8cd93a..1571d32 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -219,6 +219,7 @@ error.errortype.interfacepathslashstart = An interface path cannot start with a
 error.errortype.interfacepathslashend = An interface path cannot end with a slash
 error.errortype.interfacepathdoubleslash = Double slashes found in interface path
 error.errortype.interfacepathempty = Empty interface path
+error.errortype.interfacepathdots = "{name}" cannot be used as a name in interface path
 error.errortype.interfacepathinvalidchar = Invalid character {char!r} in interface path
 error.errortype.io = I/O Error: {message}
 error.errortype.modulenotfound = Module not found: "{module}"
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 1ad3fe1..ae5f0b3 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -496,6 +496,9 @@ class Generator(ASTVisitor):
         for c in path:
             if c not in FUNCTION_PATH_CHARS:
                 self.error_c(ErrorType.INTERFACE_PATH_INVALID_CHAR, char=c)
+        for name in path.split('/'):
+            if name == '.' or name == '..':
+                self.error_c(ErrorType.INTERFACE_PATH_DOTS, name=name)
         # Make sure the path is unique and not reserved
         if self.compiler.is_reserved_path(path):
             self.error_c(ErrorType.RESERVED_INTERFACE_PATH, path=path)
-- 
2.43.0


From e8a8b08199271c96526b4a1e902b375c0cc11a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 23/58] fix: main file was overwritten when init file has the
 same name

---
 acaciamc/cli.py          | 5 +++++
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 6 insertions(+)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index e5423b4..be15bc7 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -159,6 +159,11 @@ def get_config(args) -> Config:
         if args.init_file is not _NOTGIVEN:
             assert_id(args.init_file, '--init-file')
             kwds["init_file"] = args.init_file
+        defaults = Config()
+        init_file = kwds.get("init_file", defaults.init_file)
+        main_file = kwds.get("main_file", defaults.main_file)
+        if init_file.lower() == main_file.lower():
+            fatal(localize("cli.getconfig.samefile") % init_file)
     if args.internal_folder:
         assert_id(args.internal_folder, '--internal-folder')
         kwds["internal_folder"] = args.internal_folder
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 1571d32..675e63f 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -87,6 +87,7 @@ cli.assertid.fatal = option {option}: {msg}
 cli.getconfig.invalidfunctionfolder = invalid name {name} in function folder path: {msg}
 cli.getconfig.invalidmcversion = invalid Minecraft version: %s
 cli.getconfig.mcversiontooold = Minecraft version is too low: %s, at least 1.19.50 expected
+cli.getconfig.samefile = init file and main file cannot have the same name: %s
 cli.getconfig.maxinlinetoolow = max inline file size must >= 0: %s
 
 ## try_rmtree ##
-- 
2.43.0


From fc0ff6e2de3d783e07b625b4c7d37b59f89cc773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:23 +0000
Subject: [PATCH 24/58] fix: map keys of different types (1 and True) collided

---
 acaciamc/objects/list_.py | 6 ++++--
 acaciamc/objects/map_.py  | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index bb0b0c7..ace691e 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -149,7 +149,7 @@ class AcaciaList(ConstExpr):
         return self.items
 
     def hash(self):
-        return tuple(x.hash() for x in self.items)
+        return tuple((type(x.data_type), x.hash()) for x in self.items)
 
     def add(self, other: AcaciaExpr, compiler):
         if isinstance(other, AcaciaList):
@@ -229,7 +229,9 @@ class CTConstList(CTObj):
         return self.ptrs
 
     def chash(self):
-        return tuple(abs(x).chash() for x in self.ptrs)
+        return tuple(
+            (abs(x).cdata_type, abs(x).chash()) for x in self.ptrs
+        )
 
     def to_rt(self):
         return AcaciaList([abs(x).to_rt() for x in self.ptrs])
diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index c582c09..bdc45cc 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -194,9 +194,11 @@ class CTConstMap(CTObj):
     @staticmethod
     def get_key(key: "CTExpr"):
         try:
-            return abs(key).chash()
+            hash_ = abs(key).chash()
         except InvalidOpError:
             raise Error(ErrorType.INVALID_MAP_KEY)
+        else:
+            return (abs(key).cdata_type, hash_)
 
     def set(self, key: "CTExpr", value: "CTExpr"):
         key = abs(key)
-- 
2.43.0


From e7baf0270610f6d76cad2941d20d47ffe630543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 25/58] fix: zero step in list.range and slice crashed the
 compiler

---
 acaciamc/lang/en_US.lang  | 4 ++++
 acaciamc/objects/list_.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 675e63f..cfd7475 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -424,6 +424,10 @@ objects.entityfilter.hasitem.slot = should be None when slot_type is None
 
 objects.externegroup.resolve = <resolve of %s>
 
+### objects/list_.py ###
+
+objects.list.zerostep = must not be 0
+
 ### objects/functions.py ###
 
 ## BinaryFunction (and others) ##
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index ace691e..926f44c 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -17,6 +17,7 @@ from .types import Type
 from .integer import IntDataType, IntLiteral
 from acaciamc.tools import axe, cmethod_of
 from acaciamc.error import *
+from acaciamc.localization import localize
 from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTObj, CTObjPtr, CTDataType
@@ -31,6 +32,10 @@ class ListDataType(DefaultDataType):
 ctdt_constlist = CTDataType("const_list")
 ctdt_list = CTDataType("list", (ctdt_constlist,))
 
+def _validate_step(step: int):
+    if step == 0:
+        raise axe.ArgumentError("step", localize("objects.list.zerostep"))
+
 class ListType(Type):
     def do_init(self):
         @cmethod_of(self, "range")
@@ -56,6 +61,7 @@ class ListType(Type):
             @axe.arg("stop", axe.LiteralInt())
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start: int, stop: int, step: int):
+                _validate_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "__new__")
         @axe.chop
@@ -128,6 +134,7 @@ class AcaciaList(ConstExpr):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _validate_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
@@ -205,6 +212,7 @@ class CTConstList(CTObj):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _validate_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
-- 
2.43.0


From 52538924caefa3a25845b67e825621d87537bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 26/58] fix: duplicate struct attributes crashed the compiler

---
 acaciamc/mccmdgen/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index ae5f0b3..a0140f8 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -944,7 +944,7 @@ class Generator(ASTVisitor):
             if isinstance(decl, StructField):
                 name, type_ = res
                 if name in fields:
-                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, name=name)
+                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, attr=name)
                 fields[name] = type_
             else:
                 assert isinstance(decl, Pass)
-- 
2.43.0


From e9bdcef3ec73807db4d0ad5816eeb646a138bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 27/58] fix: compile-time augmented assignment ignored
 reflected operators

---
 acaciamc/mccmdgen/ctexecuter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index d582565..99e1d5a 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -282,11 +282,14 @@ class CTExecuter(ASTVisitor):
         try:
             res = getattr(abs(target), BINOPS[node.operator])(value)
         except InvalidOpError:
-            t1 = abs(target).cdata_type.name
-            t2 = value.cdata_type.name
-            self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=f'{node.operator.value}=',
-                            operand=f'"{t1}", "{t2}"')
+            try:
+                res = getattr(value, RBINOPS[node.operator])(abs(target))
+            except InvalidOpError:
+                t1 = abs(target).cdata_type.name
+                t2 = value.cdata_type.name
+                self.error_node(node, ErrorType.INVALID_OPERAND,
+                                operator=f'{node.operator.value}=',
+                                operand=f'"{t1}", "{t2}"')
         target.set(res)
 
     def visit_ReferenceDef(self, node: ReferenceDef):
-- 
2.43.0


From af78e9f9a8313f1ccee678a58466ddc909be2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 28/58] fix: concatenated fstring lost the commands it depends
 on

---
 acaciamc/modules/print.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index d8771ce..dc407a4 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -167,6 +167,7 @@ class FString(ConstExprCombined):
         if isinstance(other, String):
             res.rawtext.append(cmds.RawtextText(other.value))
         elif isinstance(other, FString):
+            res.dependencies.extend(other.dependencies)
             res.rawtext.extend(other.rawtext)
         else:
             raise InvalidOpError
-- 
2.43.0


From 0f6338c05745c59686159ec94566288739dbef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 29/58] fix: empty expression in fstring pattern crashed the
 compiler

---
 acaciamc/modules/print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index dc407a4..8fec645 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -78,7 +78,7 @@ class _FStrParser:
         """Get the expr from an format
         e.g. "0" -> args[0]; "key" -> keywords["key"]
         """
-        if all(c in DIGITS for c in name):
+        if name and all(c in DIGITS for c in name):
             index = int(name)
             try:
                 expr = self.args[index]
-- 
2.43.0


From 9c4e6c6e9ceee5f7ceb32e6ad3e9400fa02b25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 30/58] fix: module file found depended on the order of the
 directory

---
 acaciamc/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index bfbe96a..bbddcc0 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -344,7 +344,7 @@ class Compiler:
                 # meaning this `root` is invalid; continue
                 continue
             ## Step 3
-            for child in os.listdir(final):
+            for child in sorted(os.listdir(final)):
                 path = os.path.join(final, child)
                 if not os.path.isfile(path):
                     continue
-- 
2.43.0


From b0332f2338f34195fdd912386d71357e0c610efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 31/58] fix: source file with invalid encoding crashed the
 compiler

---
 acaciamc/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index bbddcc0..4d81599 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -451,6 +451,8 @@ class Compiler:
             if not err.location.file_set():
                 err.location.file = path
             raise
+        except UnicodeError as err:
+            self.raise_error(Error(ErrorType.IO, message=str(err)))
         finally:
             src_file.close()
         self.current_generator = Generator(
-- 
2.43.0


From c4d6c767651507c56440acfe2f01ad92ae0450e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:25 +0000
Subject: [PATCH 32/58] fix: result outside of functions crashed the compiler

---
 acaciamc/mccmdgen/generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index a0140f8..fd4015b 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -954,6 +954,8 @@ class Generator(ASTVisitor):
         ))
 
     def visit_Result(self, node: Result):
+        if self.ctx.function_state == FUNC_NONE:
+            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
         rt = self.ctx.current_function.result_type
         def _check(t: "DataType"):
             if rt is not None and not rt.matches(t):
@@ -1005,9 +1007,6 @@ class Generator(ASTVisitor):
                 if not isinstance(value, ConstExpr):
                     self.error_c(ErrorType.RESULT_NOT_CONST)
                 self.ctx.inline_result = value
-        else:
-            assert self.ctx.function_state == FUNC_NONE
-            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
 
     def visit_NewCall(self, node: NewCall):
         if self.ctx.entity_new_data is None:
-- 
2.43.0


From 574ed6fccf5e8776685c0cc283e035ef74322eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 33/58] fix: fstrings shared the scores of their expressions

---
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/integer.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index b9079d3..906ef00 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -99,7 +99,8 @@ def _export_bool(subcmds: List["_ExecuteSubcmd"], var: "BoolVar",
 
 def _bool_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for bool."""
-    dependencies, var = to_BoolVar(self, compiler)
+    # The text may outlive the statement, so a temporary can't be used.
+    dependencies, var = to_BoolVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class BoolDataType(DefaultDataType, Storable, SupportsEntityField):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 9768030..2e60595 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -104,7 +104,8 @@ STR2PYINTOP: Dict[str, Callable[[int, int], int]] = {
 
 def _int_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for int."""
-    dependencies, var = to_IntVar(self, compiler)
+    # The text may outlive the statement, so a temporary can't be used.
+    dependencies, var = to_IntVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class IntDataType(DefaultDataType, Storable, SupportsEntityField):
-- 
2.43.0


From 31c95e305dbb84437e792e06b38808e1de4dbb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:33 +0000
Subject: [PATCH 34/58] fix: nested with_font leaked the outer font into the
 inner text

---
 acaciamc/modules/print.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 8fec645..6a64980 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -285,8 +285,9 @@ def _with_font(compiler: "Compiler", text: FString, color: str,
         if isinstance(component, _FontComponent):
             if component.label == "start":
                 start_levels += 1
-                if start_levels == 1 and i > start_i:
-                    scopes.append((start_i, i))
+                if start_levels == 1:
+                    if i > start_i:
+                        scopes.append((start_i, i))
                     start_i = -1
             if component.label == "end":
                 start_levels -= 1
-- 
2.43.0


From 759d703b84bf151e395da372f615411711e7b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 35/58] fix: inline override methods could not access
 attributes of their own template

---
 acaciamc/objects/entity_template.py | 13 +++++++++----
 acaciamc/objects/functions.py       | 25 +++++++++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index aa06c1d..e8bcd0e 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -101,13 +101,16 @@ class _MethodDispatcher:
                 return _sv
         self.impls[implementation] = ([template], get_self_var)
         for bound in self.bound:
-            bound.add_implementation(template, implementation, get_self_var)
+            bound.add_implementation(
+                template, implementation, get_self_var, template
+            )
 
     def register_inherit(self, template: "EntityTemplate"):
         impl, get_self = self.resolve(template)
-        self.impls[impl][0].append(template)
+        templates = self.impls[impl][0]
+        templates.append(template)
         for bound in self.bound:
-            bound.add_implementation(template, impl, get_self)
+            bound.add_implementation(template, impl, get_self, templates[0])
 
     def resolve(self, template: "EntityTemplate"):
         """Find the implementation used by `template` through its MRO."""
@@ -130,7 +133,9 @@ class _MethodDispatcher:
         self.bound.append(res)
         for impl, (templates, get_self_var) in self.impls.items():
             for template in templates:
-                res.add_implementation(template, impl, get_self_var)
+                res.add_implementation(
+                    template, impl, get_self_var, templates[0]
+                )
         return res
 
     def bind_to_cast(self, entity: "_EntityBase"):
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index e420600..a1ff49a 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -428,10 +428,16 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
     cdata_type = ctdt_function
 
     def __init__(self, object_: "_EntityBase", method_name: str,
-                 definition: METHODDEF_T):
+                 definition: METHODDEF_T,
+                 template: Optional["EntityTemplate"] = None):
+        """
+        `template` is the one that `self` has in inline methods,
+        defaults to the template of `object_`.
+        """
         super().__init__(FunctionDataType())
         self.name = method_name
         self.object = object_
+        self.template = object_.template if template is None else template
         self.definition = definition
         self.is_inline = isinstance(definition, InlineFunction)
         self.func_repr = self.name
@@ -444,7 +450,7 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
             # `EntityReference` is needed so that `self` is not
             # assignable.
             self.definition.context.self_value = \
-                EntityReference.from_other(self.object)
+                EntityReference(self.object.get_selector(), self.template)
         result, commands = self.definition.call(args, keywords, compiler)
         # `BinaryFunction`s cannot be method implementation
         # because we are not sure about their result data type
@@ -499,13 +505,24 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
-        get_self_var: Optional[Callable[[], "TaggedEntity"]]
+        get_self_var: Optional[Callable[[], "TaggedEntity"]],
+        owner: "EntityTemplate"
     ):
+        """
+        `template` is the template that uses `definition`, `owner` is
+        the one that defines it.
+        """
         if definition in self.impls:
             _, templates, _ = self.impls[definition]
             templates.append(template)
         elif template.is_subtemplate_of(self.object.template):
-            bound_method = _BoundMethod(self.object, self.name, definition)
+            # The definition may be in a subtemplate of our object's and
+            # use attributes that our object's template does not have.
+            if self.object.template.is_subtemplate_of(owner):
+                owner = self.object.template
+            bound_method = _BoundMethod(
+                self.object, self.name, definition, owner
+            )
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
-- 
2.43.0


From 440ea77b706a03c127b000ef79c8c2ccbea4b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 36/58] fix: filters after a limited one were applied before
 its limit

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a893ae4..31b90c7 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -407,7 +407,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_context(
         self, compiler, *context: "_ExecuteSubcmd"
     ) -> MCSelector:
-        if self.context_occupied:
+        if self.context_occupied or self.next_use_new_data:
             self._new_data(compiler)
         self.data[-1].subcmds.extend(context)
         self.context_occupied = True
-- 
2.43.0


From 32ecf62fc0a7a418d127965fc5b3cf962af0a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 37/58] fix: random filter emitted type=None when the type is
 already known

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 31b90c7..814709d 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -139,7 +139,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
                             % (type_, self.entity_type)
                     )
             if not selector.has_arg("type"):
-                selector.type(type_)
+                selector.type(self.entity_type)
             selector.limit(limit)
             # There should be a difference between these two:
             # (Supporse there are more than 5 entities with name "xxx")
-- 
2.43.0


From 2e3fbdfd38840b6a35b7c4beafa15a7f0e011903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 38/58] fix: int ranges of filters dropped the leading '!' and
 crashed on two '..'

---
 acaciamc/objects/entity_filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 814709d..ffb0d1b 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -47,10 +47,12 @@ class IntRange(axe.AnyOf):
             return str(origin_py)
         assert isinstance(origin_py, str)
         origin_py = origin_py.lstrip()
+        prefix = ""
         if origin_py.startswith("!"):
+            prefix = "!"
             origin_py = origin_py[1:]
         if ".." in origin_py:
-            min_, max_ = origin_py.split("..")
+            min_, _, max_ = origin_py.partition("..")
             min_ = min_.strip()
             max_ = max_.strip()
             if not min_ and not max_:
@@ -58,10 +60,10 @@ class IntRange(axe.AnyOf):
             if (min_ and not self.check_int(min_)
                 or max_ and not self.check_int(max_)):
                 self.wrong_argument()
-            return "%s..%s" % (min_, max_)
+            return "%s%s..%s" % (prefix, min_, max_)
         else:
             if self.check_int(origin_py):
-                return origin_py
+                return prefix + origin_py
             else:
                 self.wrong_argument()
 
-- 
2.43.0


From 935fa7d46ad6863cf10c1860d888085aa41b291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 39/58] fix: second is_game_mode replaced the first one in a
 filter

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index ffb0d1b..bbaed89 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -321,7 +321,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
         @axe.arg("mode", axe.LiteralString())
         @transform_immutable(self)
         def _is_game_mode(self: EntityFilter, compiler, mode: str):
-            selector = self.last_selector(compiler)
+            selector = self.new_if_got(compiler, "m")
             selector.game_mode(mode)
             self.entity_type = PLAYER
             return self
-- 
2.43.0


From f3c3a34688288ee8af8032def7edf2dc7dedd5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 40/58] fix: malformed selector when a filter is given no
 values

---
 acaciamc/mccmdgen/mcselector.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/acaciamc/mccmdgen/mcselector.py b/acaciamc/mccmdgen/mcselector.py
index c0f0d62..6cdaa43 100644
--- a/acaciamc/mccmdgen/mcselector.py
+++ b/acaciamc/mccmdgen/mcselector.py
@@ -81,12 +81,11 @@ class MCSelector:
         var = self.var
         if var is None:
             var = "e"  # when var is not set it should be all entities
-        return "@%s%s" % (
-            var,
-            "[%s]" % ",".join(self.arg_to_str(arg, value)
-                              for arg, value in self.args.items())
-            if self.args else ""
-        )
+        # Arguments without any value (e.g. no tags) produce nothing
+        args = ",".join(filter(None, (
+            self.arg_to_str(arg, value) for arg, value in self.args.items()
+        )))
+        return "@%s%s" % (var, "[%s]" % args if args else "")
 
     def player_type(self):
         if self.has_arg("type"):
-- 
2.43.0


From a4bc5f6e4aca2933fe50059b50662abd8d53045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 41/58] fix: report invalid augmented assignments as errors

AcaciaExpr.iadd etc. lacked the operand parameter, so that an augmented
assignment to a target without that operator ended in a TypeError
instead of the error about invalid operands.
---
 acaciamc/mccmdgen/expr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/expr.py b/acaciamc/mccmdgen/expr.py
index 74fadbe..a085881 100644
--- a/acaciamc/mccmdgen/expr.py
+++ b/acaciamc/mccmdgen/expr.py
@@ -186,15 +186,15 @@ class AcaciaExpr:
     def unarynot(self, compiler: "Compiler") -> "AcaciaExpr":
         raise InvalidOpError
 
-    def iadd(self, compiler: "Compiler") -> CMDLIST_T:
+    def iadd(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def isub(self, compiler: "Compiler") -> CMDLIST_T:
+    def isub(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imul(self, compiler: "Compiler") -> CMDLIST_T:
+    def imul(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def idiv(self, compiler: "Compiler") -> CMDLIST_T:
+    def idiv(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imod(self, compiler: "Compiler") -> CMDLIST_T:
+    def imod(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
 
 class ConstExpr(AcaciaExpr, metaclass=ABCMeta):
-- 
2.43.0


From 372e35ea5714729b4b78093a7d835002bc5b4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 42/58] fix: Pos(x, y, z) in compile time functions

The overload returned a tuple, which is only valid at run time, and
crashed the compiler in const functions.
---
 acaciamc/objects/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 15e9b99..8fd0005 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -64,9 +64,9 @@ class PosType(Type):
                 offset.set(1, y, CoordinateType.ABSOLUTE)
                 offset.set(2, z, CoordinateType.ABSOLUTE)
                 inst = Position()
-                new_inst, cmds = (inst.attribute_table.lookup("apply")
-                                  .call([offset], {}, compiler))
-                return new_inst, cmds
+                new_inst, _ = (inst.attribute_table.lookup("apply")
+                               .call([offset], {}, compiler))
+                return new_inst
 
     def datatype_hook(self):
         return PosDataType()
-- 
2.43.0


From edf268d5237fe2dbecd5c24679a9b01ee51f68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 43/58] fix: map.update() in compile time functions

Its argument was declared with the run time converter MapOf, whose
element converters do not exist in compile time functions; any call
crashed the compiler.
---
 acaciamc/objects/map_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index bdc45cc..842d5c7 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -237,7 +237,7 @@ class CTMap(CTConstMap):
             return res
         @cmethod_of(self, "update", runtime=False)
         @axe.chop
-        @axe.arg("other", axe.MapOf(axe.Constant(), axe.Constant()))
+        @axe.arg("other", axe.CTMapOf(axe.Constant(), axe.Constant()))
         def _update(compiler, other: Dict[CTObj, CTObj]):
             for k, v in other.items():
                 self.set(k, v)
-- 
2.43.0


From bfdc9cf74696db24344b358350b831b1cffdd909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 44/58] fix: locate errors in calls of virtual methods

Arguments of virtual method calls are checked when the whole program has
been visited, where no node is being processed; errors had neither file
nor line. Remember the location of the call.
---
 acaciamc/compiler.py          |  8 ++++++++
 acaciamc/objects/functions.py | 31 ++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 4d81599..ef6a39b 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -235,6 +235,14 @@ class Compiler:
         error.location.file = self._current_file
         raise error
 
+    def current_location(self) -> SourceLocation:
+        """Return the location that is being visited."""
+        location = SourceLocation(self._current_file)
+        if self.current_generator is not None:
+            node = self.current_generator.processing_node
+            location.linecol = (node.lineno, node.col)
+        return location
+
     def add_file(self, file: cmds.MCFunctionFile, path: Optional[str] = None):
         """
         Add a new file to the project.
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index a1ff49a..d80a0f4 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -499,7 +499,8 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 Optional[Callable[[], "TaggedEntity"]]
             ]] = {}
         self.files: \
-            List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile]] = []
+            List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile,
+                       SourceLocation]] = []
         self.result_var = result_var
         self.func_repr = self.name
 
@@ -529,7 +530,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         file = cmds.MCFunctionFile()
         if not self.files:
             compiler.before_finish(self._generate)
-        self.files.append((args, keywords, file))
+        # Arguments are checked in `_generate` when the whole program has
+        # been visited, so remember where this call is.
+        self.files.append((args, keywords, file, compiler.current_location()))
         compiler.add_file(file)
         # Make a copy of `result_var`
         result = self.result_var.data_type.new_var(compiler)
@@ -545,12 +548,18 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def _generate(self, compiler: "Compiler"):
         def _call_bm(args: ARGS_T, keywords: KEYWORDS_T,
-                     bm: _BoundMethod) -> CMDLIST_T:
-            result, commands = bm.call_withframe(
-                args, keywords, compiler,
-                location=
-                    localize("objects.function.bvm.dispatcher") % self.name
-            )
+                     bm: _BoundMethod,
+                     location: SourceLocation) -> CMDLIST_T:
+            try:
+                result, commands = bm.call_withframe(
+                    args, keywords, compiler,
+                    location=
+                        localize("objects.function.bvm.dispatcher") % self.name
+                )
+            except Error as err:
+                if not err.location.file_set():
+                    err.location = location
+                raise
             commands.extend(result.export(self.result_var, compiler))
             return commands
 
@@ -562,7 +571,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         files = self.files
         # More calls may be added when inline implementations are called
         self.files = []
-        for args, keywords, file in files:
+        for args, keywords, file, location in files:
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
@@ -574,7 +583,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     file.extend(only_selfvar.clear())
                     # XXX direct access to TaggedEntity.tag
                     file.write("tag @s add %s" % only_selfvar.tag)
-                file.extend(_call_bm(args, keywords, only_bm))
+                file.extend(_call_bm(args, keywords, only_bm, location))
                 continue
             # Fallback
             for bm, templates, get_self_var in self.impls.values():
@@ -587,7 +596,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, bm)
+                commands = _call_bm(args, keywords, bm, location)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From 640269721bf076e9b773c1d25ceaec2cc857089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 45/58] fix: report wrong arguments of binary functions in
 compile time functions

The error message asked a pointer (the value of a variable) for its type,
which crashed the compiler.
---
 acaciamc/tools/axe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 66d660f..d74c6e0 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -402,7 +402,7 @@ def _exprrepr(expr: _EXPR_T) -> str:
     if isinstance(expr, acacia.AcaciaExpr):
         return str(expr.data_type)
     assert isinstance(expr, (acaciact.CTObj, acaciact.CTObjPtr))
-    return expr.cdata_type.name
+    return abs(expr).cdata_type.name
 
 class LiteralInt(UTyped):
     """Accepts an integer literal and converts it to Python `int`.
-- 
2.43.0


From a8a49624bafff6baaace380f40683549d56dcfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 46/58] fix: reject surrogates in unicode escapes

---
 acaciamc/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 0758b6d..0a23486 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -664,7 +664,8 @@ class Tokenizer:
                 code.append(self.current_char)
                 self.forward()
             unicode = int(''.join(code), base=16)
-            if unicode >= 0x110000:
+            if unicode >= 0x110000 or 0xD800 <= unicode <= 0xDFFF:
+                # Surrogates are not characters and cannot be encoded
                 _err()
             return chr(unicode)
         # when escape can't be recognized, just return "\\"
-- 
2.43.0


From 7f6316fe554c534567de4587f11e754478382365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 47/58] fix: report decimal integers with too many digits as
 overflow

---
 acaciamc/tokenizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 0a23486..6303e5b 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -579,7 +579,10 @@ class Tokenizer:
         else:  # integer
             if not res:
                 self.error(ErrorType.INTEGER_REQUIRED, base=base)
-            value = int(''.join(res), base=base)
+            try:
+                value = int(''.join(res), base=base)
+            except ValueError:  # too many digits for Python
+                self.error(ErrorType.INT_OVERFLOW, lineno=ln, col=col)
             return Token(TokenType.integer, value=value, lineno=ln, col=col)
 
     def handle_name(self):
-- 
2.43.0


From e9e7fe2f2e9785f25065125f405f393633db07a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 48/58] fix: list.repeat with a list or map in compile time
 functions

---
 acaciamc/objects/list_.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 926f44c..5f91596 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -73,7 +73,10 @@ class ListType(Type):
         @axe.chop
         @axe.arg("object", axe.AnyValue(), rename="obj")
         @axe.arg("times", axe.LiteralInt())
-        def _repeat(compiler, obj: AcaciaExpr, times: int):
+        def _repeat(compiler, obj: Union[AcaciaExpr, CTObj], times: int):
+            if not isinstance(obj, AcaciaExpr):
+                # Objects that only exist at compile time
+                return CTConstList(repeat(obj, times))
             return AcaciaList(repeat(obj, times))
         @cmethod_of(self, "geometric")
         @axe.chop
-- 
2.43.0


From fa970e226cb2c122678e791736e61ef96d7d2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 49/58] fix: write coordinates and floats in decimal notation

---
 acaciamc/mccmdgen/cmds.py           | 6 ++++++
 acaciamc/modules/world.py           | 2 +-
 acaciamc/objects/float_.py          | 3 ++-
 acaciamc/objects/position_offset.py | 3 ++-
 acaciamc/objects/rotation.py        | 6 ++++--
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index ce55039..43364a4 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -1,6 +1,7 @@
 """Abstraction of Minecraft commands."""
 
 from abc import ABCMeta, abstractmethod
+from decimal import Decimal
 from enum import Enum
 from typing import List, NamedTuple, Optional, Union, Iterable, Callable, Dict
 import json
@@ -20,6 +21,11 @@ def mc_str(s: str) -> str:
     else:
         return s
 
+def mc_float(x: float) -> str:
+    """Decimal notation; Minecraft does not read exponents ("1e-05")."""
+    s = str(x)
+    return format(Decimal(s), "f") if "e" in s else s
+
 def mc_selector(s: str) -> str:
     if s.startswith("@"):
         return s
diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 0643344..8de733f 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -697,7 +697,7 @@ def spread(compiler, target: "MCSelector", center: Position,
         )
     cmd = cmds.Execute(
         center.context, "spreadplayers ~ ~ %s %s %s" % (
-            interval, range_, target.to_str()
+            cmds.mc_float(interval), cmds.mc_float(range_), target.to_str()
         )
     )
     return resultlib.commands([cmd])
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index c86c08c..8f45017 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -7,6 +7,7 @@ from functools import partialmethod
 from acaciamc.error import Error, ErrorType
 from acaciamc.tools import axe, cmethod_of
 from acaciamc.mccmdgen.datatype import DefaultDataType
+from acaciamc.mccmdgen.cmds import mc_float
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.utils import InvalidOpError
@@ -51,7 +52,7 @@ class Float(ConstExprCombined):
         return Float(float(integer.value))
 
     def __str__(self) -> str:
-        return str(self.value)
+        return mc_float(self.value)
 
     def cunarypos(self):
         return self
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 778205e..6f972e0 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -15,6 +15,7 @@ from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+import acaciamc.mccmdgen.cmds as cmds
 from .types import Type
 
 class CoordinateType(Enum):
@@ -121,7 +122,7 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
 
     def __str__(self) -> str:
         return " ".join(
-            type_.value + str(value)
+            type_.value + cmds.mc_float(value)
             for type_, value in zip(self.value_types, self.values)
         )
 
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 98014d5..6e7b769 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -51,7 +51,9 @@ class RotType(Type):
             def absolute(cls, compiler, vertical: float, horizontal: float):
                 inst = Rotation()
                 inst.context.append(cmds.ExecuteEnv(
-                    "rotated", "%s %s" % (vertical, horizontal)
+                    "rotated", "%s %s" % (
+                        cmds.mc_float(vertical), cmds.mc_float(horizontal)
+                    )
                 ))
                 return inst
         @cmethod_of(self, "face_entity")
@@ -104,7 +106,7 @@ class Rotation(ConstExprCombined, ImmutableMixin):
                 if arg is None:
                     vh.append("~")
                 else:
-                    vh.append(type_prefix + str(arg))
+                    vh.append(type_prefix + cmds.mc_float(arg))
             self.context.append(cmds.ExecuteEnv("rotated", " ".join(vh)))
             return self
         return _setter
-- 
2.43.0


From 6679ac7cb8cbdf1dccfa2e9536f73ea6b7337e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 50/58] fix: block tests leaked their position and dimension
 into the commands they guard

---
 acaciamc/modules/world.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 8de733f..37c7a30 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -955,6 +955,17 @@ def xp_add_points(compiler, player: "MCSelector", amount: int):
 
 ##### Judgement #####
 
+def _test_in_context(compiler: "Compiler", subcmds: list):
+    """Return a boolean that is true iff `subcmds` succeed. The contexts
+    (position, dimension, etc.) in `subcmds` are not visible to other
+    conditions and to the commands that are run conditionally.
+    """
+    var = BoolVar.new(compiler)
+    return WildBool([cmds.ExecuteScoreMatch(var.slot, "1")], [
+        cmds.ScbSetConst(var.slot, 0),
+        cmds.Execute(subcmds, cmds.ScbSetConst(var.slot, 1)),
+    ])
+
 @_register("is_block")
 @axe.chop
 @axe.arg("pos", PosDataType)
@@ -964,7 +975,7 @@ def is_block(compiler, pos: Position, block: Block):
         *pos.context,
         cmds.ExecuteCond("block", "~ ~ ~ %s" % block.to_str(compiler))
     ]
-    return WildBool(subcmds, [])
+    return _test_in_context(compiler, subcmds)
 
 @_register("is_same_area")
 @axe.chop
@@ -980,7 +991,7 @@ def is_same_area(compiler, pos: Position, offset: PosOffset,
             offset, other, "masked" if ignore_air else "all"
         ))
     ]
-    return WildBool(subcmds, [])
+    return _test_in_context(compiler, subcmds)
 
 @_register("is_entity")
 @axe.chop
-- 
2.43.0


From e2287e55e8cee96607b949803bf018b219b5e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 51/58] fix: reject anchors other than feet and eyes

---
 acaciamc/constants.py        | 3 ++-
 acaciamc/objects/position.py | 4 ++--
 acaciamc/objects/rotation.py | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/acaciamc/constants.py b/acaciamc/constants.py
index ede7063..4d56801 100644
--- a/acaciamc/constants.py
+++ b/acaciamc/constants.py
@@ -1,7 +1,7 @@
 """Constants for Acacia."""
 
 __all__ = [
-    "INT_MIN", "INT_MAX", "DEFAULT_ANCHOR", "XYZ",
+    "INT_MIN", "INT_MAX", "ANCHORS", "DEFAULT_ANCHOR", "XYZ",
     "TERMINATOR_CHARS", "FUNCTION_PATH_CHARS",
     "COLORS", "COLORS_NEW"
 ]
@@ -10,6 +10,7 @@ from string import ascii_letters, digits
 
 INT_MIN = -2 ** 31
 INT_MAX = 2 ** 31 - 1
+ANCHORS = ("feet", "eyes")
 DEFAULT_ANCHOR = "feet"
 XYZ = ("x", "y", "z")
 
diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 8fd0005..42e7cd2 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -6,7 +6,7 @@ from typing import List, TYPE_CHECKING
 
 from acaciamc.error import *
 from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
-from acaciamc.constants import DEFAULT_ANCHOR, XYZ
+from acaciamc.constants import ANCHORS, DEFAULT_ANCHOR, XYZ
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
@@ -42,7 +42,7 @@ class PosType(Type):
             """
             @axe.overload
             @axe.arg("target", entity_module.EntityDataType)
-            @axe.arg("anchor", axe.LiteralString())
+            @axe.arg("anchor", axe.LiteralStringEnum(*ANCHORS))
             def from_entity(cls, compiler, target: "_EntityBase", anchor: str):
                 inst = Position()
                 inst.context.append(cmds.ExecuteEnv("at", target.to_str()))
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 6e7b769..f3999d2 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -10,7 +10,7 @@ __all__ = ["RotType", "RotDataType", "Rotation"]
 from typing import List, TYPE_CHECKING
 
 from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
-from acaciamc.constants import DEFAULT_ANCHOR
+from acaciamc.constants import ANCHORS, DEFAULT_ANCHOR
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
@@ -59,7 +59,8 @@ class RotType(Type):
         @cmethod_of(self, "face_entity")
         @axe.chop
         @axe.arg("target", entity_module.EntityDataType)
-        @axe.arg("anchor", axe.LiteralString(), default=DEFAULT_ANCHOR)
+        @axe.arg("anchor", axe.LiteralStringEnum(*ANCHORS),
+                 default=DEFAULT_ANCHOR)
         def _face_entity(compiler, target: "_EntityBase", anchor: str):
             inst = Rotation()
             inst.context.append(cmds.ExecuteEnv(
-- 
2.43.0


From 43c74ef2ccdc4d5cd600fae978936f4eb12c7923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 52/58] fix: importing a name twice in one from-import kept
 only the last alias

---
 acaciamc/ast.py                | 10 ++++++----
 acaciamc/mccmdgen/generator.py |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/acaciamc/ast.py b/acaciamc/ast.py
index 0af1052..406b245 100644
--- a/acaciamc/ast.py
+++ b/acaciamc/ast.py
@@ -2,7 +2,7 @@
 
 from typing import (
     Union as _Union, List as _List, Optional as _Optional, Dict as _Dict,
-    Iterable as _Iterable
+    Iterable as _Iterable, Tuple as _Tuple
 )
 
 from acaciamc.localization import LocalizedEnum as _LocalizedEnum
@@ -334,9 +334,11 @@ class FromImport(Statement):  # import specific things from a module
     ):
         super().__init__(lineno, col)
         self.meta = meta
-        self.id2name: _Dict[str, str] = {}
-        for name, alias in zip(names, aliases):
-            self.id2name[name] = name if alias is None else alias
+        # pairs of names in the module and names in the importing scope
+        self.id2name: _List[_Tuple[str, str]] = [
+            (name, name if alias is None else alias)
+            for name, alias in zip(names, aliases)
+        ]
 
 class FromImportAll(Statement):  # import everything in a module
     def __init__(self, meta: ModuleMeta, lineno, col):
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index fd4015b..787dede 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -725,13 +725,13 @@ class Generator(ASTVisitor):
     def visit_FromImport(self, node: FromImport):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
         self.write_debug("Import from %s" % path)
-        for name, alias in node.id2name.items():
+        for name, alias in node.id2name:
             value = self.attribute_of(module, name)
             if value is None:
                 self.error_c(ErrorType.MODULE_NO_ATTRIBUTE,
                              attr=name, module=str(node.meta))
             self.register_symbol(alias, value)
-        self.ctx.scope.no_export.update(node.id2name.values())
+        self.ctx.scope.no_export.update(alias for _, alias in node.id2name)
 
     def visit_FromImportAll(self, node: FromImportAll):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
-- 
2.43.0


From 83ef8f232c056613b432d4d1e53a3178cba75018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 53/58] fix: extending a compile-time list by itself never
 ended

---
 acaciamc/objects/list_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 5f91596..7a7647e 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -265,7 +265,8 @@ class CTList(CTConstList):
         @axe.arg("values", axe.CTIterator())
         @axe.slash
         def _extend(compiler, values: List["CTExpr"]):
-            self.ptrs.extend(map(self._new_element, values))
+            # `values` may be `self.ptrs` itself
+            self.ptrs.extend([self._new_element(v) for v in values])
         @cmethod_of(self, "append", runtime=False)
         @axe.chop
         @axe.arg("value", axe.Constant())
-- 
2.43.0


From 5222a26797398921eea4c42799e72b11f767976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 54/58] fix: changes to a mutable default argument of a
 compile-time function persisted across calls

---
 acaciamc/mccmdgen/ctexpr.py   |  6 ++++++
 acaciamc/objects/functions.py | 10 +++++++++-
 acaciamc/objects/list_.py     |  3 +++
 acaciamc/objects/map_.py      |  4 ++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexpr.py b/acaciamc/mccmdgen/ctexpr.py
index e2f5624..a7c4376 100644
--- a/acaciamc/mccmdgen/ctexpr.py
+++ b/acaciamc/mccmdgen/ctexpr.py
@@ -45,6 +45,12 @@ class CTObj:
     def to_rt(self) -> "ConstExpr":
         raise InvalidOpError
 
+    def ccopy(self) -> "CTObj":
+        """Return a deep copy of this object. Can be omitted if the
+        object can't be modified.
+        """
+        return self
+
     def cimplicitcast(self, type_: "CTDataType") -> "CTExpr":
         raise InvalidOpError
 
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index d80a0f4..7c6d751 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -113,6 +113,10 @@ class ArgumentHandler(Generic[IT, T, DT]):
         """
         return value
 
+    def get_default(self, arg: str) -> T:
+        """Get the default value of `arg` for a call."""
+        return self.arg_defaults[arg]
+
     def type_check(self, arg: str, value: T, type_: DT) -> Optional[T]:
         """
         Must be implemented by subclasses to check if the `value` is of
@@ -154,7 +158,7 @@ class ArgumentHandler(Generic[IT, T, DT]):
         for arg, value in res.copy().items():
             if value is None:
                 if arg in self.arg_defaults:
-                    res[arg] = self.arg_defaults[arg]
+                    res[arg] = self.get_default(arg)
                 else:
                     raise Error(ErrorType.MISSING_ARG, arg=arg)
         return res
@@ -323,6 +327,10 @@ class CTArgHandler(ArgumentHandler[
             value = value.to_ctexpr()
         return value
 
+    def get_default(self, arg: str):
+        # The function may modify the value (e.g. lists)
+        return abs(self.arg_defaults[arg]).ccopy()
+
     def type_check(self, arg: str, value: CTExpr, dt: "CTDataType"):
         v = abs(value)
         if not dt.is_typeof(v):
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 7a7647e..8327a1f 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -244,6 +244,9 @@ class CTConstList(CTObj):
             (abs(x).cdata_type, abs(x).chash()) for x in self.ptrs
         )
 
+    def ccopy(self):
+        return type(self)([abs(x).ccopy() for x in self.ptrs])
+
     def to_rt(self):
         return AcaciaList([abs(x).to_rt() for x in self.ptrs])
 
diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index 842d5c7..76090d5 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -217,6 +217,10 @@ class CTConstMap(CTObj):
             return ptr
         return None
 
+    def ccopy(self):
+        return type(self)((k.ccopy() for k in self.citerate()),
+                          (abs(v).ccopy() for v in self.values()))
+
     def to_rt(self):
         return Map((k.to_rt() for k in self.citerate()),
                    (abs(v).to_rt() for v in self.values()))
-- 
2.43.0


From 98990cb1e7ac01ffb65b81f4a7917debc014a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 55/58] fix: the result of a const function changed with later
 assignments to its variable

---
 acaciamc/mccmdgen/ctexecuter.py | 3 +++
 acaciamc/mccmdgen/generator.py  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 99e1d5a..0098d7e 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -40,6 +40,7 @@ class CTExecuter(ASTVisitor):
         self.builtins = generator.compiler.builtins
         self.current_scope = SymbolTable(scope, self.builtins)
         self.result: Optional[CTExpr] = None
+        self.result_value: Optional[CTObj] = None
         self.curnode: Optional[AST] = None
 
     def visit(self, node: AST, **kwds):
@@ -349,6 +350,8 @@ class CTExecuter(ASTVisitor):
     def visit_Result(self, node: Result):
         # Toplevel result
         self.result = self.visit(node.value)
+        # The variable given may be assigned to afterwards
+        self.result_value = abs(self.result)
 
     # TODO compile time struct?
 
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 787dede..808e33a 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1271,6 +1271,8 @@ class Generator(ASTVisitor):
             result = ctexec.result
         if result is None:
             result = NoneLiteral()
+        elif abs(result) is not ctexec.result_value:
+            result = ctexec.result_value
         if not func.result_type.is_typeof(result):
             # This function might be called by `CTExecuter` and
             # therefore the error location should be set by that.
-- 
2.43.0


From 57ebb5da8efcb7ace33598d21726a7f4f70c0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 56/58] fix: errors of operators in const functions named an
 internal key instead of the operator

---
 acaciamc/mccmdgen/ctexecuter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 0098d7e..5085f7e 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -5,6 +5,7 @@ from contextlib import contextmanager
 
 from acaciamc.ast import *
 from acaciamc.error import Error, ErrorType, SourceLocation
+from acaciamc.localization import localize
 from acaciamc.mccmdgen.ctexpr import *
 from acaciamc.mccmdgen.symbol import SymbolTable, CTRTConversionError
 from acaciamc.mccmdgen.utils import unreachable, InvalidOpError
@@ -160,7 +161,7 @@ class CTExecuter(ASTVisitor):
             return meth()
         except InvalidOpError:
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=node.operator.value,
+                            operator=node.operator.localized,
                             operand=f'"{obj.cdata_type.name}"')
 
     def visit_BinOp(self, node: BinOp):
@@ -176,7 +177,7 @@ class CTExecuter(ASTVisitor):
                 rs = right.cdata_type.name
                 self.error_node(
                     node, ErrorType.INVALID_OPERAND,
-                    operator=node.operator.value,
+                    operator=node.operator.localized,
                     operand=f'"{ls}", "{rs}"'
                 )
         return res
@@ -197,7 +198,7 @@ class CTExecuter(ASTVisitor):
                     rs = right.cdata_type.name
                     self.error_node(
                         node, ErrorType.INVALID_OPERAND,
-                        operator=operator.value,
+                        operator=operator.localized,
                         operand=f'"{ls}", "{rs}"'
                     )
             if not res:
@@ -215,7 +216,7 @@ class CTExecuter(ASTVisitor):
                 self.error_node(
                     node.operands[i],
                     ErrorType.INVALID_BOOLOP_OPERAND,
-                    operator=operator.value,
+                    operator=operator.localized,
                     operand=operand.cdata_type.name
                 )
             if operand.value and operator is Operator.or_:
@@ -289,7 +290,9 @@ class CTExecuter(ASTVisitor):
                 t1 = abs(target).cdata_type.name
                 t2 = value.cdata_type.name
                 self.error_node(node, ErrorType.INVALID_OPERAND,
-                                operator=f'{node.operator.value}=',
+                                operator=localize(
+                                    f'{node.operator.value}.augmented'
+                                ),
                                 operand=f'"{t1}", "{t2}"')
         target.set(res)
 
-- 
2.43.0


From d2e65ce6888d0743c89337e8b330f7c9afc9a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 57/58] fix: an error in a const function of an imported module
 was located in the importing file

---
 acaciamc/mccmdgen/ctexecuter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 5085f7e..e1be324 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -55,6 +55,8 @@ class CTExecuter(ASTVisitor):
         try:
             return self.visit(node, **kwds)
         except Error as e:
+            if not e.location.file_set():
+                e.location.file = self.file_name
             if not e.location.linecol_set():
                 e.location.linecol = (self.curnode.lineno, self.curnode.col)
             raise
@@ -64,7 +66,7 @@ class CTExecuter(ASTVisitor):
 
     def error_node(self, node: AST, *args, **kwds):
         err = Error(*args, **kwds)
-        # `err.location.file` is to be done by `Generator`
+        err.location.file = self.file_name
         err.location.linecol = (node.lineno, node.col)
         raise err
 
-- 
2.43.0


From bbb5b7f0030de311e525de9a6e9399c6557f3888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 58/58] fix: the name of a ticking area was written unquoted
 into /schedule

---
 acaciamc/modules/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 6046b3f..77f1a08 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -169,7 +169,7 @@ class Task(ConstExprCombined):
             return resultlib.commands([
                 cmds.ScheduleFunction(
                     self.target_file,
-                    "on_area_loaded add tickingarea %s" % name
+                    "on_area_loaded add tickingarea %s" % cmds.mc_str(name)
                 ),
             ])
         self.attribute_table.set("_timer", self.timer)
-- 
2.43.0

