From 8e59899f03aa58c621dedd16a4d2db45f5c1cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 01/47] fix: integer operations whose right operand is a
 compound expression

---
 acaciamc/objects/integer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8bfe8c7..20a659c 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -353,11 +353,13 @@ class IntVar(VarValue):
         """
         # In this condition, we convert a (op)= b to a = a (op) b
         ## Calculate
-        value = getattr(self, STR2METHOD[operator])(other, compiler)
+        value = getattr(
+            IntOpGroup.from_intexpr(self), STR2METHOD[operator]
+        )(other, compiler)
         ## Export
         tmp = IntVar.new(compiler, tmp=True)
         res = value.export(tmp, compiler)
-        res.extend(tmp.export(self))
+        res.extend(tmp.export(self, compiler))
         return res
 
     iadd = partialmethod(_iadd_sub, '+')
@@ -558,10 +560,10 @@ class IntOpGroup(AcaciaExpr):
     def _r_add_mul(self, name: str, other, compiler):
         # a (+ or *) b is b (+ or *) a
         if isinstance(other, (IntLiteral, IntVar)):
-            return getattr(self, name)(other)
+            return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
-    def _r_sub_div_mod(self, other, name, compiler):
+    def _r_sub_div_mod(self, name: str, other, compiler):
         # Convert `other` to `IntOpGroup` and use this to handle this
         # operation.
         if isinstance(other, (IntLiteral, IntVar)):
-- 
2.43.0


From eb79ae7e3d2c967ee2c44b4f74cad1e658a8ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 02/47] fix: run the commands of a while condition before every
 iteration

---
 acaciamc/mccmdgen/generator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 03766b8..2ca8458 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -422,7 +422,11 @@ class Generator(ASTVisitor):
 
     def visit_While(self, node: While):
         # condition
-        condition: AcaciaExpr = self.visit(node.condition)
+        # The commands it generates (e.g. function calls) need to run
+        # again before every iteration, so collect them separately.
+        condition_file = cmds.MCFunctionFile()
+        with self.set_mcfunc_file(condition_file):
+            condition: AcaciaExpr = self.visit(node.condition)
         if not condition.data_type.matches_cls(BoolDataType):
             self.error_c(ErrorType.WRONG_WHILE_CONDITION,
                          got=str(condition.data_type))
@@ -436,6 +440,7 @@ class Generator(ASTVisitor):
         if isinstance(condition, BoolLiteral):
             # optimize when condition is known at compile time
             if condition.value is False:
+                self.current_file.extend(condition_file.commands)
                 self.write_debug(
                     'Skipped because the condition always evaluates to False'
                 )
@@ -449,9 +454,12 @@ class Generator(ASTVisitor):
             dep, cond_var = to_BoolVar(condition, self.compiler, tmp=False)
             subcmds = [cmds.ExecuteScoreMatch(cond_var.slot, "1")]
         # triggering the function
-        if body_file.has_content():
+        if body_file.has_content() or condition_file.has_content():
+            if not body_file.has_content():
+                self.compiler.add_file(body_file)
             body_file.write_debug('## Part 2. Recursion')
             for file in (body_file, self.current_file):
+                file.extend(condition_file.commands)
                 file.extend(dep)
                 file.write(cmds.Execute(
                     subcmds, runs=cmds.InvokeFunction(body_file)
-- 
2.43.0


From 2b6848f35f0cf65c2a43c0b08c74935f1b4f585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 03/47] fix: decide both branches of an if on the value its
 condition had at the start

---
 acaciamc/mccmdgen/generator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 2ca8458..8aedf6a 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -407,7 +407,15 @@ class Generator(ASTVisitor):
             )
             return
         # Fallback
-        dep, condition_var = to_BoolVar(condition, self.compiler, tmp=False)
+        if has_then and has_else and isinstance(condition, BoolVar):
+            # "then" branch may change the variable, which must not affect
+            # the decision on "else" branch
+            condition_var = BoolVar.new(self.compiler)
+            dep = condition.export(condition_var, self.compiler)
+        else:
+            dep, condition_var = to_BoolVar(
+                condition, self.compiler, tmp=False
+            )
         self.current_file.extend(dep)
         if has_then:
             self.current_file.write(cmds.Execute(
-- 
2.43.0


From f8a9fa84184937b8d50ca87a2b5fe8b6d9c69fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 04/47] fix: comparing with a negated compound boolean

---
 acaciamc/objects/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c28d029..2dee5a0 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -64,7 +64,7 @@ def _bool_compare(self: AcaciaExpr, op: Operator, other: AcaciaExpr, compiler):
     elif isinstance(other, NotBoolVar):
         slot2 = other.slot
         invert = not invert
-    elif isinstance(other, (CompareBase, WildBool)):
+    elif isinstance(other, (CompareBase, WildBool, NotWildBool)):
         _dep, other_var = to_BoolVar(other, compiler)
         dep.extend(_dep)
         slot2 = other_var.slot
-- 
2.43.0


From 30b2a6e5d9dccb48136364f7d299d51dc8f2379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 05/47] fix: report comparison of a bool literal with a
 non-bool as an error

---
 acaciamc/objects/boolean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 2dee5a0..ba5ea36 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -162,6 +162,7 @@ class BoolLiteral(ConstExprCombined):
         true = self.value == (op is Operator.equal_to)
         if self.data_type.is_type_of(other):
             return other if true else other.unarynot(compiler)
+        raise InvalidOpError
 
     def ccompare(self, op: Operator, other: "CTObj"):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From 0c24c663b12191fbebc4fc39c93af6c5b0c994ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 06/47] fix: comparisons with the greatest and smallest
 integers

---
 acaciamc/objects/boolean.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index ba5ea36..d00f514 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -289,6 +289,15 @@ class ScbMatchesCompare(CompareBase):
 
     def as_execute(self, compiler) -> Tuple[CMDLIST_T, List["_ExecuteSubcmd"]]:
         res = []
+        if (
+            (self.operator is Operator.greater and self.literal == INT_MAX)
+            or (self.operator is Operator.less and self.literal == INT_MIN)
+        ):
+            # Never true. `literal` +/- 1 is not a valid score here.
+            res.append(cmds.ExecuteScoreMatch(
+                self.slot, '%d..' % INT_MIN, invert=True
+            ))
+            return self.dependencies.copy(), res
         match_range = {
             Operator.greater: '%d..' % (self.literal + 1),
             Operator.greater_equal: '%d..' % self.literal,
-- 
2.43.0


From 60b62e0108d99e45f4930b421ed89f020c21cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 07/47] fix: unary minus on integer variables

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 20a659c..67eeec0 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -529,7 +529,7 @@ class IntOpGroup(AcaciaExpr):
 
     def unaryneg(self, compiler):
         # -expr = expr * (-1)
-        return self.mul(compiler.add_int_const(-1))
+        return self.mul(compiler.add_int_const(-1), compiler)
 
     ## BINARY (SELF ... OTHER) OPERATORS
 
-- 
2.43.0


From 17afaab9341a96192ef0a748b9796b6dff1274db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 08/47] fix: constructor arguments that refer to the assignment
 target, and constructing a subtype

---
 acaciamc/mccmdgen/generator.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 8aedf6a..81a4bb0 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -286,10 +286,35 @@ class Generator(ASTVisitor):
         if value is not None:
             commands = value.export(target, self.compiler)
         else:
-            commands = func.initialize(target, self.compiler, **ctor_kwds)
+            commands = self._construct(
+                func, table, value_type, ctor_kwds, target
+            )
         # write commands
         self.current_file.extend(commands)
 
+    def _construct(self, func: ConstructorFunction,
+                   table: Tuple[ARGS_T, KEYWORDS_T], data_type: Storable,
+                   ctor_kwds: dict, target: VarValue) -> CMDLIST_T:
+        """
+        Return commands that construct an object (whose type is
+        `data_type`) and assign it to `target`.
+        """
+        args, keywords = table
+        if (
+            data_type.matches(target.data_type)
+            and all(isinstance(arg, (IntLiteral, BoolLiteral, String))
+                    for arg in (*args, *keywords.values()))
+        ):
+            # optimization: construct in place
+            return func.initialize(target, self.compiler, **ctor_kwds)
+        # The arguments may refer to `target`, or the constructed object
+        # may be of a subtype.
+        instance = data_type.new_var(self.compiler)
+        return [
+            *func.initialize(instance, self.compiler, **ctor_kwds),
+            *instance.export(target, self.compiler)
+        ]
+
     def visit_Assign(self, node: Assign):
         target = self.visit(node.target)
         self._assign(target, node.value)
@@ -966,7 +991,7 @@ class Generator(ASTVisitor):
             if value is None:
                 dt, kwds = func.pre_initialize(*table, self.compiler)
                 _check(dt)
-                commands = func.initialize(rv, self.compiler, **kwds)
+                commands = self._construct(func, table, dt, kwds, rv)
             else:
                 _check(value.data_type)
                 commands = value.export(rv, self.compiler)
-- 
2.43.0


From 54f7a6f22df91822a78bb311cde0c8ee658e2001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 09/47] fix: temporary scores overwritten by functions called
 while they are in use

---
 acaciamc/compiler.py           | 11 +++++++++++
 acaciamc/mccmdgen/generator.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ab6c4e3..8dbaf37 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -273,6 +273,17 @@ class Compiler:
         """
         self._free_tmp_score.append(slot)
 
+    @contextmanager
+    def isolated_tmp(self):
+        """Temporary scores used in this context are never shared with
+        the code outside of it. Bodies of functions need this because
+        the caller may be holding temporary scores during the call.
+        """
+        old_free_tmp_score = self._free_tmp_score
+        self._free_tmp_score = []
+        yield
+        self._free_tmp_score = old_free_tmp_score
+
     def add_int_const(self, value: int) -> IntVar:
         """Sometimes a constant is needed when calculating in MC
         e.g. `a * 2`, we need a score to store 2, so that we can use
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 81a4bb0..8258557 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -628,7 +628,7 @@ class Generator(ASTVisitor):
 
     @contextlib.contextmanager
     def _in_noninline_func(self, func: AcaciaFunction):
-        with self.new_ctx():
+        with self.new_ctx(), self.compiler.isolated_tmp():
             self.ctx.new_scope()
             self.ctx.current_function = func
             self.ctx.function_state = FUNC_NORMAL
-- 
2.43.0


From 5933939b614ba0607eda2c5d5472348e3250a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:57 +0000
Subject: [PATCH 10/47] fix: looking up inherited virtual methods with several
 base templates

---
 acaciamc/objects/entity_template.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 054ec5a..463ca5a 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -103,10 +103,16 @@ class _MethodDispatcher:
         for bound in self.bound:
             bound.add_implementation(template, implementation, get_self_var)
 
-    def register_inherit(self, template: "EntityTemplate",
-                         parent: "EntityTemplate"):
-        for impl, (templates, get_self) in self.impls.items():
-            if parent in templates:
+    def register_inherit(self, template: "EntityTemplate"):
+        # The first item in list is the template which defines the
+        # implementation.
+        impl_of = {
+            templates[0]: (impl, templates, get_self)
+            for impl, (templates, get_self) in self.impls.items()
+        }
+        for base in template.mro_[1:]:
+            if base in impl_of:
+                impl, templates, get_self = impl_of[base]
                 templates.append(template)
                 for bound in self.bound:
                     bound.add_implementation(template, impl, get_self)
@@ -340,7 +346,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                     raise Error(ErrorType.OVERRIDE_QUALIFIER,
                                 got=qualifier.localized, name=method)
                 _check_override(implementation, method)
-                disp = parent.method_dispatchers[method]
+                disp = m_virtual[method]
                 self.method_dispatchers[method] = disp
                 disp.register(self, implementation)
                 continue
@@ -373,7 +379,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             if method not in self.method_dispatchers:
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
-                disp.register_inherit(self, parent)
+                disp.register_inherit(self)
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
                 # Inherited simple methods
-- 
2.43.0


From 24000090f00c7f3bc36f38645a6ef20ab5b5ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 11/47] fix: methods and new inherited from several base
 templates follow the resolution order

---
 acaciamc/objects/entity_template.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 463ca5a..367ddcb 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -261,6 +261,8 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
         self.simple_methods: Dict[str, _SimpleMethod] = {}
         self.static_methods: Dict[str, AcaciaCallable] = {}
         self.mro_: List[EntityTemplate] = [self]  # Method Resolution Order
+        # Names of methods that are not inherited
+        self.own_methods = set(methods)
         # Runtime identification number
         # Mark which template an entity is using at runtime.
         # All entities managed by Acacia have a id on scoreboard
@@ -328,10 +330,12 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                                 method=method)
             for method, mgr in parent.simple_methods.items():
                 _check(m_virtual, m_static, method)
-                m_simple[method] = mgr
+                if method in parent.own_methods:
+                    m_simple[method] = mgr
             for method, impl in parent.static_methods.items():
                 _check(m_virtual, m_simple, method)
-                m_static[method] = impl
+                if method in parent.own_methods:
+                    m_static[method] = impl
         ## Make sure field names do not conflict with method names
         for attr in attr_list:
             if attr in m_virtual or attr in m_simple or attr in m_static:
@@ -389,9 +393,12 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                 # Inherited static methods
                 self.static_methods[method] = impl
         ## `new` method
+        # Inherited `new` is that of the first base in MRO defining one.
+        self.inherits_new = method_new is None and len(self.mro_) > 1
         if method_new is None:
-            if len(self.mro_) > 1:
-                mnew = self.mro_[1].method_new
+            if self.inherits_new:
+                mnew = next(base.method_new for base in self.mro_[1:]
+                            if not base.inherits_new)
             else:
                 # This template has no base
                 mnew = get_deleted_entity_new(self.name)
-- 
2.43.0


From eda11e95de29e663805424e14025789fcc53eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 12/47] fix: crash when a virtual method dispatcher needs
 temporary scores

---
 acaciamc/compiler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 8dbaf37..90a976e 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -173,7 +173,8 @@ class Compiler:
             generator.parse()
         ## callback
         for cb in self._before_finish_cbs:
-            cb(self)
+            with self.isolated_tmp():
+                cb(self)
         ## add tick.mcfunction
         if self.file_tick.has_content():
             self.output_mgr.new_file(
@@ -264,7 +265,9 @@ class Compiler:
         else:
             # else, allocate a new one
             res = self.allocate()
-        self.current_generator.current_tmp_scores.append(res)
+        # There is no generator in callbacks of `before_finish`.
+        if self.current_generator is not None:
+            self.current_generator.current_tmp_scores.append(res)
         return res
 
     def free_tmp(self, slot: cmds.ScbSlot):
-- 
2.43.0


From 7477c728cb249224a20741192e758e24e750e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:16 +0000
Subject: [PATCH 13/47] fix: self of inline methods called through a virtual
 method

---
 acaciamc/objects/functions.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f228af1..a30b1e0 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -428,11 +428,17 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
     cdata_type = ctdt_function
 
     def __init__(self, object_: "_EntityBase", method_name: str,
-                 definition: METHODDEF_T):
+                 definition: METHODDEF_T,
+                 self_template: Optional["EntityTemplate"] = None):
+        """
+        `self_template` is the template of `self` in an inline method;
+        defaults to that of the object.
+        """
         super().__init__(FunctionDataType())
         self.name = method_name
         self.object = object_
         self.definition = definition
+        self.self_template = self_template
         self.is_inline = isinstance(definition, InlineFunction)
         self.func_repr = self.name
         self.source = self.definition.source
@@ -443,8 +449,10 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
                    "Unexpected target function %r" % self.definition
             # `EntityReference` is needed so that `self` is not
             # assignable.
-            self.definition.context.self_value = \
-                EntityReference.from_other(self.object)
+            self.definition.context.self_value = EntityReference(
+                self.object.get_selector(),
+                self.self_template or self.object.template
+            )
         result, commands = self.definition.call(args, keywords, compiler)
         # `BinaryFunction`s cannot be method implementation
         # because we are not sure about their result data type
@@ -506,7 +514,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             _, templates, _ = self.impls[definition]
             templates.append(template)
         elif template.is_subtemplate_of(self.object.template):
-            bound_method = _BoundMethod(self.object, self.name, definition)
+            bound_method = _BoundMethod(
+                self.object, self.name, definition, template
+            )
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
@@ -551,7 +561,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 file.extend(_call_bm(args, keywords, only_bm))
                 continue
             # Fallback
-            for impl, (_, templates, get_self_var) in self.impls.items():
+            for bm, templates, get_self_var in self.impls.values():
                 file.write_debug(
                     "# For %s"
                     % (", ".join(template.name for template in templates))
@@ -561,7 +571,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, impl)
+                commands = _call_bm(args, keywords, bm)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From 7fd9f0514041fea5876a64d8dabb6069a85cd7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 14/47] fix: results of virtual method calls overwritten by
 later calls, and calls made by dispatchers

---
 acaciamc/objects/functions.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index a30b1e0..523042d 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -504,6 +504,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile]] = []
         self.result_var = result_var
         self.func_repr = self.name
+        self.generated = False
         compiler.before_finish(self._generate)
 
     def add_implementation(
@@ -523,12 +524,20 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         file = cmds.MCFunctionFile()
         self.files.append((args, keywords, file))
         compiler.add_file(file)
-        return self.result_var, [
+        if self.generated:
+            # Called by another dispatcher that is generated later
+            self._generate(compiler)
+        commands: CMDLIST_T = [
             cmds.Execute(
                 [cmds.ExecuteEnv("as", self.object.to_str())],
                 cmds.InvokeFunction(file)
             )
         ]
+        # Make a copy of `result_var`
+        result = self.result_var.data_type.new_var(compiler)
+        commands.extend(self.result_var.export(result, compiler))
+        result.is_temporary = True
+        return result, commands
 
     def _generate(self, compiler: "Compiler"):
         def _call_bm(args: ARGS_T, keywords: KEYWORDS_T,
@@ -546,7 +555,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             only_selfvar = None if _getself is None else _getself()
         else:
             only_bm = only_selfvar = None
-        for args, keywords, file in self.files:
+        self.generated = True
+        while self.files:
+            args, keywords, file = self.files.pop(0)
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
-- 
2.43.0


From 9355ab5f376c7c40bef520c2ea558517c03cef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 15/47] fix: scores of entities that two selectors may share

---
 acaciamc/mccmdgen/cmds.py   | 31 ++++++++++++++++++++-----------
 acaciamc/modules/math.py    |  2 +-
 acaciamc/objects/boolean.py |  8 +++-----
 acaciamc/objects/integer.py |  2 +-
 4 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 33069a3..ea923be 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -42,6 +42,15 @@ class ScbSlot(NamedTuple):
             mc_str(self.objective)
         )
 
+    def overlaps(self, other: "ScbSlot") -> bool:
+        """Whether the slots may refer to the same score. Different
+        selectors may select the same entity.
+        """
+        return self.objective == other.objective and (
+            self.target == other.target
+            or (self.target.startswith("@") and other.target.startswith("@"))
+        )
+
 class Command(metaclass=ABCMeta):
 
     is_debug = False  # only write when -d is set
@@ -93,7 +102,7 @@ class ScbSetConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.overlaps(self.target)
 
 class ScbAddConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -106,7 +115,7 @@ class ScbAddConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.overlaps(self.target)
 
 class ScbRemoveConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -119,7 +128,7 @@ class ScbRemoveConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.overlaps(self.target)
 
 class ScbOp(Enum):
     ADD_EQ = "+="
@@ -147,15 +156,15 @@ class ScbOperation(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return slot.overlaps(self.operand1) or slot.overlaps(self.operand2)
         else:
-            return slot == self.operand1
+            return slot.overlaps(self.operand1)
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return slot.overlaps(self.operand1) or slot.overlaps(self.operand2)
         else:
-            return slot == self.operand2
+            return slot.overlaps(self.operand2)
 
 class ScbRandom(Command):
     def __init__(self, target: ScbSlot, min_: int, max_: int):
@@ -170,7 +179,7 @@ class ScbRandom(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.overlaps(self.target)
 
 class ScbObjAdd(Command):
     def __init__(self, name: str, display_name: Optional[str] = None):
@@ -377,7 +386,7 @@ class ExecuteScoreComp(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand1 or slot == self.operand2
+        return slot.overlaps(self.operand1) or slot.overlaps(self.operand2)
 
     def resolve(self) -> str:
         return "%s score %s %s %s" % (
@@ -395,7 +404,7 @@ class ExecuteScoreMatch(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand
+        return slot.overlaps(self.operand)
 
     def resolve(self) -> str:
         return "%s score %s matches %s" % (
@@ -549,7 +558,7 @@ class RawtextOutput(Command):
         )
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot in self.score_slots
+        return any(slot.overlaps(s) for s in self.score_slots)
 
 class TitlerawTimes(Command):
     def __init__(self, player: str, fade_in: int, stay: int, fade_out: int):
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 4a448fc..e555c04 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -36,7 +36,7 @@ class IntXOpSelf(IntOp):
         self.x = x
 
     def scb_did_assign(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.x
+        return slot.overlaps(self.x)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(STR2SCBOP[self.op], self.x, var.slot)]
diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index d00f514..e3aef01 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -237,11 +237,9 @@ class NotBoolVar(AcaciaExpr):
                              cmds.ScbSetConst(var.slot, 0))
             ]
         else:
-            return [
-                cmds.ScbSetConst(var.slot, 0),
-                cmds.Execute([cmds.ExecuteScoreMatch(self.slot, "0")],
-                             cmds.ScbSetConst(var.slot, 1))
-            ]
+            return _export_bool(
+                [cmds.ExecuteScoreMatch(self.slot, "0")], var, compiler
+            )
 
     def compare(self, op, other, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 67eeec0..501e57c 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -427,7 +427,7 @@ class IntOpVar(IntOp):
         self.slot = slot
 
     def scb_did_read(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.slot
+        return slot.overlaps(self.slot)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(self.op, var.slot, self.slot)]
-- 
2.43.0


From a6e9672395c5b18dd505e077cc464e439a07cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 16/47] fix: creating an entity whose new method refers to the
 assignment target

---
 acaciamc/mccmdgen/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 8258557..4313614 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -302,6 +302,8 @@ class Generator(ASTVisitor):
         args, keywords = table
         if (
             data_type.matches(target.data_type)
+            # `new` method of the template may refer to `target`
+            and not isinstance(func, EntityTemplate)
             and all(isinstance(arg, (IntLiteral, BoolLiteral, String))
                     for arg in (*args, *keywords.values()))
         ):
-- 
2.43.0


From 175ea34b6afcf6b59f6fc69177090046b39c302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 17/47] fix: assigning to a variable read by a method whose
 body is not generated yet

---
 acaciamc/mccmdgen/cmds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index ea923be..4a077b4 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -320,6 +320,9 @@ class _InvokeFunction(Command):
 
     @_scb_check_for_invoke
     def scb_did_read(self, slot: ScbSlot) -> bool:
+        if not self.file.has_content():
+            # Commands may not have been generated yet.
+            return True
         for cmd in self.file.commands:
             if cmd.scb_did_read(slot):
                 return True
-- 
2.43.0


From 9359d5ee49d43bca37f107ded4dc7d8dc0c666a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 18/47] fix: inlined bodies that change the entity their
 condition is about

---
 acaciamc/mccmdgen/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 8345daf..70e5ea0 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -125,6 +125,9 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                     slots.add(subcmd.operand)
                 else:
                     unreachable()
+            if any(slot.target.startswith("@") for slot in slots):
+                # Commands may change what the selector selects.
+                return True
             for command in commands:
                 for slot in slots:
                     if command.scb_did_assign(slot):
-- 
2.43.0


From ac725e0d51af3dde238a31f471cb6f49f695f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 19/47] fix: declared types of by-value arguments and results
 of inline functions

---
 acaciamc/mccmdgen/generator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 4313614..2a5d1c1 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1003,13 +1003,18 @@ class Generator(ASTVisitor):
             _check(value.data_type)
             p = self.ctx.current_function.result_port
             if p is FuncPortType.by_value:
-                dt = value.data_type
+                dt = value.data_type if rt is None else rt
                 if not isinstance(dt, Storable):
                     self.error_c(ErrorType.UNSUPPORTED_RESULT_TYPE,
                                  result_type=str(dt))
                 if self.ctx.inline_result is None:
                     self.ctx.inline_result = dt.new_var(self.compiler)
                     self.ctx.inline_result.is_temporary = True
+                elif not self.ctx.inline_result.data_type.matches(dt):
+                    self.error_c(
+                        ErrorType.WRONG_RESULT_TYPE, got=str(dt),
+                        expect=str(self.ctx.inline_result.data_type)
+                    )
                 self.current_file.extend(
                     value.export(self.ctx.inline_result, self.compiler)
                 )
@@ -1248,7 +1253,9 @@ class Generator(ASTVisitor):
                         self.error_c(ErrorType.CANT_REF_ARG, arg=arg)
                     self.register_symbol(arg, value)
                 elif port is FuncPortType.by_value:
-                    dt = value.data_type
+                    dt = func.arg_handler.arg_types[arg]
+                    if dt is None:
+                        dt = value.data_type
                     if not isinstance(dt, Storable):
                         self.error_c(ErrorType.UNSUPPORTED_ARG_TYPE,
                                      arg=arg, arg_type=str(dt))
-- 
2.43.0


From 70a6eab5b91326a772d3d3a597eb05ee8de66234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 20/47] fix: random selection among entities whose type is
 known from earlier conditions

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a893ae4..ba31075 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -139,7 +139,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
                             % (type_, self.entity_type)
                     )
             if not selector.has_arg("type"):
-                selector.type(type_)
+                selector.type(self.entity_type)
             selector.limit(limit)
             # There should be a difference between these two:
             # (Supporse there are more than 5 entities with name "xxx")
-- 
2.43.0


From 0db20a7796bf6c4234da7b8a8a3155b7d2b8b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 21/47] fix: position conditions that come after a random
 selection

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index ba31075..814709d 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -407,7 +407,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_context(
         self, compiler, *context: "_ExecuteSubcmd"
     ) -> MCSelector:
-        if self.context_occupied:
+        if self.context_occupied or self.next_use_new_data:
             self._new_data(compiler)
         self.data[-1].subcmds.extend(context)
         self.context_occupied = True
-- 
2.43.0


From 56b7e281937c08c8e06d04b88c87578b789caa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 22/47] fix: negated integer ranges in entity filters

---
 acaciamc/objects/entity_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 814709d..5a4c0c4 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -47,7 +47,9 @@ class IntRange(axe.AnyOf):
             return str(origin_py)
         assert isinstance(origin_py, str)
         origin_py = origin_py.lstrip()
+        prefix = ""
         if origin_py.startswith("!"):
+            prefix = "!"
             origin_py = origin_py[1:]
         if ".." in origin_py:
             min_, max_ = origin_py.split("..")
@@ -58,10 +60,10 @@ class IntRange(axe.AnyOf):
             if (min_ and not self.check_int(min_)
                 or max_ and not self.check_int(max_)):
                 self.wrong_argument()
-            return "%s..%s" % (min_, max_)
+            return "%s%s..%s" % (prefix, min_, max_)
         else:
             if self.check_int(origin_py):
-                return origin_py
+                return prefix + origin_py
             else:
                 self.wrong_argument()
 
-- 
2.43.0


From 429e17e6ce70b11be2743fa49b4a8dc01f4207f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 23/47] fix: several game mode conditions in an entity filter

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 5a4c0c4..3558087 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -321,7 +321,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
         @axe.arg("mode", axe.LiteralString())
         @transform_immutable(self)
         def _is_game_mode(self: EntityFilter, compiler, mode: str):
-            selector = self.last_selector(compiler)
+            selector = self.new_if_got(compiler, "m")
             selector.game_mode(mode)
             self.entity_type = PLAYER
             return self
-- 
2.43.0


From fc70367db626bd6ba5925c079cd67caf83b9ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 24/47] fix: entity filter conditions given an empty list

---
 acaciamc/mccmdgen/mcselector.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/acaciamc/mccmdgen/mcselector.py b/acaciamc/mccmdgen/mcselector.py
index c0f0d62..b9dd5db 100644
--- a/acaciamc/mccmdgen/mcselector.py
+++ b/acaciamc/mccmdgen/mcselector.py
@@ -70,10 +70,13 @@ class MCSelector:
                 "%s=%s" % (scb, range_) for scb, range_ in value
             )
         elif arg == "haspermission":
-            return "haspermission={%s}" % ",".join(
-                [("%s=enabled" % p) for p in value[0]]
-                + [("%s=disabled" % p) for p in value[1]]
-            )
+            permissions = [
+                *("%s=enabled" % p for p in value[0]),
+                *("%s=disabled" % p for p in value[1])
+            ]
+            if not permissions:
+                return ""
+            return "haspermission={%s}" % ",".join(permissions)
         else:
             raise ValueError("Unknown selector argument: %r" % arg)
 
@@ -81,12 +84,11 @@ class MCSelector:
         var = self.var
         if var is None:
             var = "e"  # when var is not set it should be all entities
-        return "@%s%s" % (
-            var,
-            "[%s]" % ",".join(self.arg_to_str(arg, value)
-                              for arg, value in self.args.items())
-            if self.args else ""
-        )
+        args = [self.arg_to_str(arg, value)
+                for arg, value in self.args.items()]
+        # Arguments with an empty list of values do nothing
+        args_s = ",".join(arg for arg in args if arg)
+        return "@%s%s" % (var, "[%s]" % args_s if args_s else "")
 
     def player_type(self):
         if self.has_arg("type"):
-- 
2.43.0


From 53e64521ca8ac4b06d676e428b7e65a4c2bf7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 25/47] fix: player and random conditions right after a nearest
 or farthest one in entity filters

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 3558087..4ceffb0 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -400,7 +400,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_selector_var(
         self, compiler, var: SELECTORVAR_T
     ) -> MCSelector:
-        if self.data[-1].selector.is_var_set():
+        if self.data[-1].selector.is_var_set() or self.next_use_new_data:
             self._new_data(compiler)
         res = self.data[-1].selector
         res.var = var
-- 
2.43.0


From 7ec171446cbc6adbcc821db94f2b6161544ca750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 26/47] fix: updating a map in a const function

---
 acaciamc/objects/map_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index c582c09..859d377 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -235,7 +235,7 @@ class CTMap(CTConstMap):
             return res
         @cmethod_of(self, "update", runtime=False)
         @axe.chop
-        @axe.arg("other", axe.MapOf(axe.Constant(), axe.Constant()))
+        @axe.arg("other", axe.CTMapOf(axe.Constant(), axe.Constant()))
         def _update(compiler, other: Dict[CTObj, CTObj]):
             for k, v in other.items():
                 self.set(k, v)
-- 
2.43.0


From 4f0e50de57ca532f231690943133676bb443d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 27/47] fix: extending a list with itself in a const function

---
 acaciamc/objects/list_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index bb0b0c7..1faa954 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -252,7 +252,8 @@ class CTList(CTConstList):
         @axe.arg("values", axe.CTIterator())
         @axe.slash
         def _extend(compiler, values: List["CTExpr"]):
-            self.ptrs.extend(map(self._new_element, values))
+            # `values` may be the elements of this list
+            self.ptrs.extend([self._new_element(v) for v in values])
         @cmethod_of(self, "append", runtime=False)
         @axe.chop
         @axe.arg("value", axe.Constant())
-- 
2.43.0


From 1c529038c1c98cf63a8b63721bc0a2f54618569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 28/47] fix: equal map keys of different types in const
 functions

---
 acaciamc/objects/boolean.py | 2 +-
 acaciamc/objects/float_.py  | 2 +-
 acaciamc/objects/integer.py | 2 +-
 acaciamc/objects/string.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index e3aef01..fe5cbf4 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -152,7 +152,7 @@ class BoolLiteral(ConstExprCombined):
         return [cmds.RawtextText("1" if self.value else "0")], []
 
     def chash(self):
-        return self.value
+        return ("bool", self.value)
 
     def compare(self, op: Operator, other: AcaciaExpr, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index c86c08c..e9b2bb2 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -44,7 +44,7 @@ class Float(ConstExprCombined):
         return str(self)
 
     def chash(self):
-        return self.value
+        return ("float", self.value)
 
     @classmethod
     def from_int(cls, integer: IntLiteral):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 501e57c..44e57d7 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -209,7 +209,7 @@ class IntLiteral(ConstExprCombined):
         return str(self.value)
 
     def chash(self):
-        return self.value
+        return ("int", self.value)
 
     def export(self, var: "IntVar", compiler):
         return [cmds.ScbSetConst(var.slot, self.value)]
diff --git a/acaciamc/objects/string.py b/acaciamc/objects/string.py
index b069565..db122c7 100644
--- a/acaciamc/objects/string.py
+++ b/acaciamc/objects/string.py
@@ -20,7 +20,7 @@ class String(ConstExprCombined):
         self.value = value
 
     def chash(self):
-        return self.value
+        return ("str", self.value)
 
     def cstringify(self) -> str:
         return self.value
-- 
2.43.0


From f26507fe3b60625ce18862166189a2525d64bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 29/47] fix: crash on a list range or slice with step 0

---
 acaciamc/lang/en_US.lang  |  4 ++++
 acaciamc/objects/list_.py |  6 +++---
 acaciamc/tools/axe.py     | 19 ++++++++++++++++++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index b8cd93a..2e782f9 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -265,6 +265,10 @@ axe.converter.std.ctiterator = (iterable)
 
 axe.converter.std.literalintenum = {origin} (one of {list})
 
+## literalnonzeroint ##
+
+axe.converter.std.literalnonzeroint = {origin} (other than 0)
+
 ## literalstringenum ##
 
 axe.converter.std.literalstringenum = {origin} (one of {list})
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 1faa954..0141e8a 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -54,7 +54,7 @@ class ListType(Type):
             @axe.overload
             @axe.arg("start", axe.LiteralInt())
             @axe.arg("stop", axe.LiteralInt())
-            @axe.arg("step", axe.LiteralInt())
+            @axe.arg("step", axe.LiteralNonzeroInt())
             def full(cls, compiler, start: int, stop: int, step: int):
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "__new__")
@@ -126,7 +126,7 @@ class AcaciaList(ConstExpr):
             @axe.overload
             @axe.arg("start", axe.Nullable(axe.LiteralInt()))
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
-            @axe.arg("step", axe.LiteralInt())
+            @axe.arg("step", axe.LiteralNonzeroInt())
             def full(cls, compiler, start, stop, step: int):
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
@@ -203,7 +203,7 @@ class CTConstList(CTObj):
             @axe.overload
             @axe.arg("start", axe.Nullable(axe.LiteralInt()))
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
-            @axe.arg("step", axe.LiteralInt())
+            @axe.arg("step", axe.LiteralNonzeroInt())
             def full(cls, compiler, start, stop, step: int):
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 9ce908c..29f6dca 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -10,7 +10,8 @@ __all__ = [
     # Converters
     "Converter", "AnyValue", "Typed", "Multityped", "LiteralInt",
     "LiteralFloat", "LiteralString", "LiteralBool", "Nullable", "AnyOf",
-    "Iterator", "Selector", "LiteralIntEnum", "LiteralStringEnum", "ListOf",
+    "Iterator", "Selector", "LiteralIntEnum", "LiteralNonzeroInt",
+    "LiteralStringEnum", "ListOf",
     "MapOf", "PlayerSelector", "RangedLiteralInt", "Callable", "PosXZ",
     "CTConverter", "UConverter", "CTTyped", "CTIterator", "CTReference",
     "Constant", "AnyRT",
@@ -585,6 +586,22 @@ class LiteralIntEnum(LiteralInt):
             self.wrong_argument()
         return origin_int
 
+class LiteralNonzeroInt(LiteralInt):
+    """Accepts any integer literal but 0 and converts it to Python
+    `int`.
+    """
+    def get_show_name(self) -> str:
+        return (
+            localize("axe.converter.std.literalnonzeroint")
+            .format(origin=super().get_show_name())
+        )
+
+    def uconvert(self, origin) -> int:
+        origin_int = super().uconvert(origin)
+        if origin_int == 0:
+            self.wrong_argument()
+        return origin_int
+
 class LiteralStringEnum(LiteralString):
     """Accepts several specific string literals values and converts
     input to Python `str`.
-- 
2.43.0


From cc60a452f68774dae72d51953a009b355dc18894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 30/47] fix: crash when a const function gets a variable of a
 wrong type

---
 acaciamc/objects/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 523042d..d8f5ff2 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -328,7 +328,7 @@ class CTArgHandler(ArgumentHandler[
         if not dt.is_typeof(v):
             # Try implicit type conversion
             try:
-                new_value = value.cimplicitcast(dt)
+                new_value = v.cimplicitcast(dt)
             except InvalidOpError:
                 raise Error(ErrorType.WRONG_ARG_TYPE, arg=arg,
                             expect=dt.name, got=v.cdata_type.name)
-- 
2.43.0


From cd480ad3911224eb91dadfa03c1147cad1535ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 31/47] fix: crash when a builtin function gets a run-time
 value for a constant argument

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 29f6dca..49e19e9 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -799,7 +799,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
         elif isinstance(origin, acacia.ConstExpr):
             convert = lambda: converter.cconvert(origin.to_ctexpr())
         else:
-            raise _PreconvertError(_PE_NOT_CONST)
+            raise _PreconvertError(_PE_NOT_CONST, origin)
     else:
         if isinstance(converter, CTConverter):
             convert = lambda: converter.cconvert(origin)
@@ -807,7 +807,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
             try:
                 origin_rt = abs(origin).to_rt()
             except InvalidOpError:
-                raise _PreconvertError(_PE_NOT_RT)
+                raise _PreconvertError(_PE_NOT_RT, origin)
             convert = lambda: converter.convert(origin_rt)
     return convert
 
-- 
2.43.0


From 3b1d65f5c9061ab897d6744c4c563cc67a7cb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 32/47] fix: list.repeat of lists and maps in const functions

---
 acaciamc/objects/list_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 0141e8a..f176e85 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -67,7 +67,9 @@ class ListType(Type):
         @axe.chop
         @axe.arg("object", axe.AnyValue(), rename="obj")
         @axe.arg("times", axe.LiteralInt())
-        def _repeat(compiler, obj: AcaciaExpr, times: int):
+        def _repeat(compiler, obj: Union[AcaciaExpr, "CTExpr"], times: int):
+            if isinstance(obj, (CTObj, CTObjPtr)):
+                return CTList(repeat(obj, times))
             return AcaciaList(repeat(obj, times))
         @cmethod_of(self, "geometric")
         @axe.chop
-- 
2.43.0


From 23019d4f6ad35108306be7910ee5f4464c891c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 33/47] fix: crash when a const function passes a variable of a
 wrong type to a builtin

---
 acaciamc/tools/axe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 49e19e9..f01361a 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -403,7 +403,7 @@ def _exprrepr(expr: _EXPR_T) -> str:
     if isinstance(expr, acacia.AcaciaExpr):
         return str(expr.data_type)
     assert isinstance(expr, (acaciact.CTObj, acaciact.CTObjPtr))
-    return expr.cdata_type.name
+    return abs(expr).cdata_type.name
 
 class LiteralInt(UTyped):
     """Accepts an integer literal and converts it to Python `int`.
-- 
2.43.0


From 7c0a051fef59b86322e1b141abdf34958552dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 34/47] fix: changes of constant maps in const functions were
 accepted and lost

---
 acaciamc/objects/map_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index 859d377..022b7ff 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -130,8 +130,8 @@ class Map(ConstExpr):
         return self.data.values()
 
     def to_ctexpr(self):
-        return CTMap(list2ct(self.iterate()),
-                     list2ct(self.values()))
+        return CTConstMap(list2ct(self.iterate()),
+                          list2ct(self.values()))
 
 class CTConstMap(CTObj):
     cdata_type = ctdt_constmap
-- 
2.43.0


From 6ad1a7ae7d5da894c4ffbd961390f38d558df0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 35/47] fix: importing one name as several aliases only kept
 the last alias

---
 acaciamc/ast.py                | 8 +++++---
 acaciamc/mccmdgen/generator.py | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/acaciamc/ast.py b/acaciamc/ast.py
index 0af1052..075f7f4 100644
--- a/acaciamc/ast.py
+++ b/acaciamc/ast.py
@@ -2,7 +2,7 @@
 
 from typing import (
     Union as _Union, List as _List, Optional as _Optional, Dict as _Dict,
-    Iterable as _Iterable
+    Iterable as _Iterable, Tuple as _Tuple
 )
 
 from acaciamc.localization import LocalizedEnum as _LocalizedEnum
@@ -334,9 +334,11 @@ class FromImport(Statement):  # import specific things from a module
     ):
         super().__init__(lineno, col)
         self.meta = meta
-        self.id2name: _Dict[str, str] = {}
+        # The same name may be imported more than once (as different
+        # aliases)
+        self.id2name: _List[_Tuple[str, str]] = []
         for name, alias in zip(names, aliases):
-            self.id2name[name] = name if alias is None else alias
+            self.id2name.append((name, name if alias is None else alias))
 
 class FromImportAll(Statement):  # import everything in a module
     def __init__(self, meta: ModuleMeta, lineno, col):
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 2a5d1c1..1150385 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -746,13 +746,13 @@ class Generator(ASTVisitor):
     def visit_FromImport(self, node: FromImport):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
         self.write_debug("Import from %s" % path)
-        for name, alias in node.id2name.items():
+        for name, alias in node.id2name:
             value = self.attribute_of(module, name)
             if value is None:
                 self.error_c(ErrorType.MODULE_NO_ATTRIBUTE,
                              attr=name, module=str(node.meta))
             self.register_symbol(alias, value)
-        self.ctx.scope.no_export.update(node.id2name.values())
+            self.ctx.scope.no_export.add(alias)
 
     def visit_FromImportAll(self, node: FromImportAll):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
-- 
2.43.0


From 5b1d9a4bfe9ce18b9dc8bdb1593a07898ea0cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 36/47] fix: crash on a result statement outside of functions

---
 acaciamc/mccmdgen/generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 1150385..a748d16 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -975,6 +975,8 @@ class Generator(ASTVisitor):
         ))
 
     def visit_Result(self, node: Result):
+        if self.ctx.function_state == FUNC_NONE:
+            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
         rt = self.ctx.current_function.result_type
         def _check(t: "DataType"):
             if rt is not None and not rt.matches(t):
@@ -1031,9 +1033,6 @@ class Generator(ASTVisitor):
                 if not isinstance(value, ConstExpr):
                     self.error_c(ErrorType.RESULT_NOT_CONST)
                 self.ctx.inline_result = value
-        else:
-            assert self.ctx.function_state == FUNC_NONE
-            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
 
     def visit_NewCall(self, node: NewCall):
         if self.ctx.entity_new_data is None:
-- 
2.43.0


From 7e388118af3e5c6e08d91ac7d442427decdfffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 37/47] fix: indentation of lines that begin with a long
 comment was ignored

---
 acaciamc/tokenizer.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 0758b6d..baad19a 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -240,6 +240,8 @@ class Tokenizer:
         self.bracket_stack: List[_BracketFrame] = []
         self.indent_record: List[int] = [0]
         self.indent_len: int = 1  # always = len(self.indent_record)
+        # Indentation of this logical line (-1 once it is handled)
+        self.logical_indent = -1
         self.has_content = False  # if this logical line produced token
         self.last_line_continued = False
         self.inside_command: Optional[_CommandManager] = None
@@ -307,10 +309,9 @@ class Tokenizer:
             while self.current_char == ' ':
                 prespaces += 1
                 self.forward()
-        else:
-            prespaces = -1
-            if self.continued_comment:
-                self.handle_long_comment()
+            self.logical_indent = prespaces
+        elif self.continued_comment:
+            self.handle_long_comment()
         while True:
             if self.inside_command and not self.in_command_fexpr:
                 if self.continued_command:
@@ -428,7 +429,6 @@ class Tokenizer:
             or self.in_string_fexpr
         ):
             self.error(ErrorType.UNCLOSED_FEXPR)
-        backslash = False
         eof = False
         if res:
             self.has_content = True
@@ -462,11 +462,12 @@ class Tokenizer:
                 self.error(ErrorType.EOF_AFTER_CONTINUATION)
             if self.current_char != '\n':
                 self.error(ErrorType.CHAR_AFTER_CONTINUATION)
-            backslash = self.last_line_continued = True
-        # Count indent: if this physical line is not a continued line,
-        # and (this physical line has content or ends with backslash)
-        if (res or backslash) and prespaces != -1:
-            res[:0] = self.handle_indent(prespaces)
+            self.last_line_continued = True
+        # Count indent: if this physical line has the first token of this
+        # logical line (which may start with comments and backslashes).
+        if res and self.logical_indent != -1:
+            res[:0] = self.handle_indent(self.logical_indent)
+            self.logical_indent = -1
         # Add a fake line to clean up if we reach end of file
         if eof:
             self.current_lineno += 1
-- 
2.43.0


From 7b391fdd538909559b51badd26647fcebcf65bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 38/47] fix: main file and init file with the same name
 overwrote each other

---
 acaciamc/cli.py          | 5 ++++-
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index e5423b4..fc25ea7 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -162,7 +162,10 @@ def get_config(args) -> Config:
     if args.internal_folder:
         assert_id(args.internal_folder, '--internal-folder')
         kwds["internal_folder"] = args.internal_folder
-    return Config(**kwds)
+    cfg = Config(**kwds)
+    if cfg.split_init and cfg.init_file.lower() == cfg.main_file.lower():
+        fatal(localize("cli.getconfig.sameinitandmain") % cfg.main_file)
+    return cfg
 
 def try_rmtree(path: str):
     """
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 2e782f9..e7d7912 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -88,6 +88,7 @@ cli.getconfig.invalidfunctionfolder = invalid name {name} in function folder pat
 cli.getconfig.invalidmcversion = invalid Minecraft version: %s
 cli.getconfig.mcversiontooold = Minecraft version is too low: %s, at least 1.19.50 expected
 cli.getconfig.maxinlinetoolow = max inline file size must >= 0: %s
+cli.getconfig.sameinitandmain = init file and main file can't have the same name: %s
 
 ## try_rmtree ##
 
-- 
2.43.0


From b417a503233c38093aa6dbb94b097d8c2304e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 39/47] fix: output depended on memory addresses (order of
 files in the optimizer)

---
 acaciamc/mccmdgen/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 70e5ea0..97ad14a 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -41,7 +41,7 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 _visit(ref)
         for file in self.entry_files():
             _visit(file)
-        self.files = list(visited)
+        self.files = [file for file in self.files if file in visited]
 
     @property
     @abstractmethod
-- 
2.43.0


From c56c9b5007d861c2065d0c75b3993b5d4acf28de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 40/47] fix: concatenating formatted strings lost the commands
 the second one needs

---
 acaciamc/modules/print.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index d8771ce..6fe0515 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -168,6 +168,7 @@ class FString(ConstExprCombined):
             res.rawtext.append(cmds.RawtextText(other.value))
         elif isinstance(other, FString):
             res.rawtext.extend(other.rawtext)
+            res.dependencies.extend(other.dependencies)
         else:
             raise InvalidOpError
         return res
-- 
2.43.0


From b038a6ee7ec9d8aaa4358e15cfc63146f2ba1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 41/47] fix: compiler crash on the pattern "%{}" in
 print.format

---
 acaciamc/modules/print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 6fe0515..206475f 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -78,7 +78,7 @@ class _FStrParser:
         """Get the expr from an format
         e.g. "0" -> args[0]; "key" -> keywords["key"]
         """
-        if all(c in DIGITS for c in name):
+        if name and all(c in DIGITS for c in name):
             index = int(name)
             try:
                 expr = self.args[index]
-- 
2.43.0


From 5685d947817d08c4e83b6548159cbee7c27ce15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 42/47] fix: math.mod was wrong when the sum of remainder and
 divisor overflows

---
 acaciamc/modules/_math.aca | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/_math.aca b/acaciamc/modules/_math.aca
index 7415838..88b414c 100644
--- a/acaciamc/modules/_math.aca
+++ b/acaciamc/modules/_math.aca
@@ -8,7 +8,10 @@ def mod(x: int, y: int) -> int:
      * -10 % 3 == -1 while mod(-10, 3) == 2
      * -10 % -3 == mod(-10, -3) == -1
      *#
-    result (x % y + y) % y
+    res := x % y
+    if res != 0 and (res > 0) != (y > 0):
+        res += y
+    result res
 
 def floordiv(x: int, y: int) -> int:
     #**
-- 
2.43.0


From 4e0510fa9506d4977bc906a18836d8bf020a9159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 43/47] fix: Rot swapped vertical and horizontal rotation in
 the commands

---
 acaciamc/objects/rotation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 98014d5..9259d43 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -50,8 +50,9 @@ class RotType(Type):
             @axe.arg("horizontal", axe.LiteralFloat())
             def absolute(cls, compiler, vertical: float, horizontal: float):
                 inst = Rotation()
+                # /execute rotated takes yaw (horizontal) first
                 inst.context.append(cmds.ExecuteEnv(
-                    "rotated", "%s %s" % (vertical, horizontal)
+                    "rotated", "%s %s" % (horizontal, vertical)
                 ))
                 return inst
         @cmethod_of(self, "face_entity")
@@ -99,12 +100,13 @@ class Rotation(ConstExprCombined, ImmutableMixin):
         @axe.arg("horizontal", axe.Nullable(axe.LiteralFloat()), default=None)
         @transform_immutable(self)
         def _setter(self: Rotation, compiler, vertical, horizontal):
-            vh: List[str] = []
-            for arg in (vertical, horizontal):
+            # /execute rotated takes yaw (horizontal) first
+            hv: List[str] = []
+            for arg in (horizontal, vertical):
                 if arg is None:
-                    vh.append("~")
+                    hv.append("~")
                 else:
-                    vh.append(type_prefix + str(arg))
-            self.context.append(cmds.ExecuteEnv("rotated", " ".join(vh)))
+                    hv.append(type_prefix + str(arg))
+            self.context.append(cmds.ExecuteEnv("rotated", " ".join(hv)))
             return self
         return _setter
-- 
2.43.0


From 602cdab41778be432975381c7344ff21850c2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 44/47] fix: loops with a computed interval stopped setting
 their timer halfway

---
 acaciamc/modules/schedule.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 2e00f21..803f5d6 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -216,8 +216,14 @@ def register_loop(compiler: "Compiler", target: AcaciaCallable,
     # Initialize
     init_cmds = [cmds.ScbSetConst(timer.slot, 0)]
     # Tick loop
-    ## Call on times up AND reset timer
-    tick_commands.extend(interval.export(timer, compiler))
+    ## Call on times up AND reset timer. Resetting must be the last and a
+    ## single command, since all of them run only when `timer` is <= 0.
+    reset_cmds = interval.export(timer, compiler)
+    if len(reset_cmds) > 1:
+        tmp = IntVar.new(compiler)
+        tick_commands.extend(interval.export(tmp, compiler))
+        reset_cmds = tmp.export(timer, compiler)
+    tick_commands.extend(reset_cmds)
     compiler.file_tick.extend(
         cmds.execute(
             [cmds.ExecuteScoreMatch(timer.slot, "..0")], runs=cmd
-- 
2.43.0


From 50de4a654d2bb9e6aaaeacaf458cf83616d1896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 45/47] fix: temporary scores used by constants and results
 were given away at the end of the statement

---
 acaciamc/mccmdgen/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index a748d16..c347ab0 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -215,8 +215,12 @@ class Generator(ASTVisitor):
         self.node_depth -= 1
         if isinstance(node, Statement):
             # free used vars
-            for score in self.current_tmp_scores:
-                self.compiler.free_tmp(score)
+            # NOTE Values of constants and results may still refer to
+            # the tmp scores after the statement (e.g. formatted
+            # strings), so we can't let others use them.
+            if not isinstance(node, (ConstDef, Result)):
+                for score in self.current_tmp_scores:
+                    self.compiler.free_tmp(score)
             self.current_tmp_scores = old_tmp_scores
         return res
 
-- 
2.43.0


From 33648f3ccf3584e6a7298c3b0eab305107b890a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 46/47] fix: conditions about blocks leak their context into
 what depends on them

---
 acaciamc/modules/world.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 0643344..fef4957 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -955,16 +955,21 @@ def xp_add_points(compiler, player: "MCSelector", amount: int):
 
 ##### Judgement #####
 
+def _context_cond(compiler: "Compiler", pos: Position, cond: cmds.ExecuteCond):
+    """Return whether `cond` holds in the context of `pos`. The context
+    must not leak to the commands that depend on this condition.
+    """
+    res = BoolVar.new(compiler, tmp=True)
+    res.is_temporary = True
+    return res, WildBool([*pos.context, cond], []).export(res, compiler)
+
 @_register("is_block")
 @axe.chop
 @axe.arg("pos", PosDataType)
 @axe.arg("block", ArgBlock())
 def is_block(compiler, pos: Position, block: Block):
-    subcmds = [
-        *pos.context,
-        cmds.ExecuteCond("block", "~ ~ ~ %s" % block.to_str(compiler))
-    ]
-    return WildBool(subcmds, [])
+    cond = cmds.ExecuteCond("block", "~ ~ ~ %s" % block.to_str(compiler))
+    return _context_cond(compiler, pos, cond)
 
 @_register("is_same_area")
 @axe.chop
@@ -974,13 +979,10 @@ def is_block(compiler, pos: Position, block: Block):
 @axe.arg("ignore_air", axe.LiteralBool(), default=False)
 def is_same_area(compiler, pos: Position, offset: PosOffset,
                  other: PosOffset, ignore_air: bool):
-    subcmds = [
-        *pos.context,
-        cmds.ExecuteCond("blocks", "~ ~ ~ %s %s %s" % (
-            offset, other, "masked" if ignore_air else "all"
-        ))
-    ]
-    return WildBool(subcmds, [])
+    cond = cmds.ExecuteCond("blocks", "~ ~ ~ %s %s %s" % (
+        offset, other, "masked" if ignore_air else "all"
+    ))
+    return _context_cond(compiler, pos, cond)
 
 @_register("is_entity")
 @axe.chop
-- 
2.43.0


From 5b81d455ae3b6ed7e62d24ac5586856ea4165ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 47/47] fix: coordinates and rotations may be written with an
 exponent

---
 acaciamc/mccmdgen/utils.py          | 10 +++++++++-
 acaciamc/modules/world.py           |  3 ++-
 acaciamc/objects/position_offset.py |  3 ++-
 acaciamc/objects/rotation.py        |  6 ++++--
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/utils.py b/acaciamc/mccmdgen/utils.py
index bdbdf0c..70f00a5 100644
--- a/acaciamc/mccmdgen/utils.py
+++ b/acaciamc/mccmdgen/utils.py
@@ -1,8 +1,9 @@
 """Miscellaneous utility stuffs."""
 
-__all__ = ["InvalidOpError", "unreachable", "apply_decorators"]
+__all__ = ["InvalidOpError", "unreachable", "apply_decorators", "mc_float"]
 
 from typing import Reversible
+from decimal import Decimal
 
 class InvalidOpError(Exception):
     """Can be raised in some methods to indicate an invalid operation."""
@@ -13,6 +14,13 @@ def unreachable(message: str = ""):
     suffix = f": {message}" if message else ""
     raise AssertionError("unreachable() called" + suffix)
 
+def mc_float(value: float) -> str:
+    """Convert a float to string for use in commands. Commands do not
+    accept exponents (e.g. "1e-05").
+    """
+    res = str(value)
+    return format(Decimal(res), "f") if "e" in res else res
+
 def apply_decorators(decorators: Reversible):
     """
     Return a decorator that applies a sequence of decorators.
diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index fef4957..37b299a 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -243,6 +243,7 @@ from acaciamc.objects import *
 from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
+from acaciamc.mccmdgen.utils import mc_float
 from acaciamc.tools import axe, resultlib, cmethod_of
 from acaciamc.tools.versionlib import edu_only
 from acaciamc.localization import localize
@@ -697,7 +698,7 @@ def spread(compiler, target: "MCSelector", center: Position,
         )
     cmd = cmds.Execute(
         center.context, "spreadplayers ~ ~ %s %s %s" % (
-            interval, range_, target.to_str()
+            mc_float(interval), mc_float(range_), target.to_str()
         )
     )
     return resultlib.commands([cmd])
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 778205e..3c5fee3 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -15,6 +15,7 @@ from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+from acaciamc.mccmdgen.utils import mc_float
 from .types import Type
 
 class CoordinateType(Enum):
@@ -121,7 +122,7 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
 
     def __str__(self) -> str:
         return " ".join(
-            type_.value + str(value)
+            type_.value + mc_float(value)
             for type_, value in zip(self.value_types, self.values)
         )
 
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 9259d43..b90b6fa 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -14,6 +14,7 @@ from acaciamc.constants import DEFAULT_ANCHOR
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+from acaciamc.mccmdgen.utils import mc_float
 import acaciamc.mccmdgen.cmds as cmds
 from . import entity as entity_module
 from .types import Type
@@ -52,7 +53,8 @@ class RotType(Type):
                 inst = Rotation()
                 # /execute rotated takes yaw (horizontal) first
                 inst.context.append(cmds.ExecuteEnv(
-                    "rotated", "%s %s" % (horizontal, vertical)
+                    "rotated",
+                    "%s %s" % (mc_float(horizontal), mc_float(vertical))
                 ))
                 return inst
         @cmethod_of(self, "face_entity")
@@ -106,7 +108,7 @@ class Rotation(ConstExprCombined, ImmutableMixin):
                 if arg is None:
                     hv.append("~")
                 else:
-                    hv.append(type_prefix + str(arg))
+                    hv.append(type_prefix + mc_float(arg))
             self.context.append(cmds.ExecuteEnv("rotated", " ".join(hv)))
             return self
         return _setter
-- 
2.43.0

