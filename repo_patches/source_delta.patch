From 8584c89d93573110e8f3944a83fb788b628e9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 01/63] fix: bound keyword argument replaces previous default
 of the parameter

---
 paradigm/_core/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index da4ea56..cf2a50f 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -632,11 +632,12 @@ def _bind_keywords(parameters: t.Tuple[Parameter, ...],
                                 annotation=parameter.annotation,
                                 name=parameter.name,
                                 kind=ParameterKind.KEYWORD_ONLY,
-                                **({'default': parameter.default}
-                                   if (isinstance(parameter, OptionalParameter)
-                                       and parameter.has_default)
-                                   else ({'default': kwargs[parameter.name]}
-                                         if parameter.name in kwargs_names
+                                **({'default': kwargs[parameter.name]}
+                                   if parameter.name in kwargs_names
+                                   else ({'default': parameter.default}
+                                         if (isinstance(parameter,
+                                                        OptionalParameter)
+                                             and parameter.has_default)
                                          else {}))
                         )
                         if (isinstance(parameter, OptionalParameter)
-- 
2.43.0


From 0d5d3e19cc3f102fe6b60c6cbf1bcec2f98e3c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 02/63] fix: all_set/expects reject multiple values for a
 parameter when signature has variadic keywords

---
 paradigm/_core/models.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index cf2a50f..05758e6 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -316,6 +316,11 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if any(positional.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+               and positional.name in kwargs
+               for positional in positionals[:len(args)]):
+            # multiple values for the same parameter
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords: t.Iterable[Parameter] = (
@@ -353,6 +358,11 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if any(positional.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+               and positional.name in kwargs
+               for positional in positionals[:len(args)]):
+            # multiple values for the same parameter
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords = (
-- 
2.43.0


From 759c36cff08e494f0759ea83aaab1a5a19d248f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 03/63] fix: bind accepts keyword argument named as a bound
 positional-only parameter if there are variadic keywords

---
 paradigm/_core/models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 05758e6..b40a9d8 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -386,6 +386,11 @@ class PlainSignature(BaseSignature):
                                         parameters_by_kind[
                                             ParameterKind.VARIADIC_POSITIONAL
                                         ]
+                                ),
+                                has_variadic_keyword=bool(
+                                        parameters_by_kind[
+                                            ParameterKind.VARIADIC_KEYWORD
+                                        ]
                                 )
                         ),
                         kwargs,
@@ -589,7 +594,8 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                       args: t.Tuple[_Arg, ...],
                       kwargs: t.Dict[str, _KwArg],
                       *,
-                      has_variadic: bool) -> t.Tuple[Parameter, ...]:
+                      has_variadic: bool,
+                      has_variadic_keyword: bool) -> t.Tuple[Parameter, ...]:
     def is_positionable(parameter: Parameter) -> bool:
         return (parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
                 or parameter.kind is ParameterKind.POSITIONAL_ONLY)
@@ -607,7 +613,7 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                     or kind is ParameterKind.KEYWORD_ONLY):
                 raise TypeError('Got multiple values '
                                 f'for parameter "{positional.name}".')
-            else:
+            elif not has_variadic_keyword:
                 raise TypeError(f'Parameter "{positional.name}" is {kind!s}, '
                                 'but was passed as a keyword.')
     return positionals[len(args):] + parameters[len(positionals):]
-- 
2.43.0


From 812d47f114c9a990f576483139856bacb076a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 04/63] fix: all_set/expects/bind work with keyword argument
 named 'self'

---
 paradigm/_core/models.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index b40a9d8..c0ac905 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -276,18 +276,18 @@ class BaseSignature(ABC):
     __slots__ = ()
 
     @abstractmethod
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """
         Checks if the signature has no unspecified parameters left
         with given arguments.
         """
 
     @abstractmethod
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """Checks if the signature accepts given arguments."""
 
     @abstractmethod
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
         """Binds given arguments to the signature."""
 
 
@@ -304,7 +304,7 @@ class PlainSignature(BaseSignature):
     def returns(self) -> t.Any:
         return self._returns
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (
                 parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
@@ -346,7 +346,7 @@ class PlainSignature(BaseSignature):
         return (all_parameters_are_optional(rest_positionals_only)
                 and all_parameters_are_optional(rest_keywords))
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
                        + parameters_by_kind[
@@ -376,7 +376,7 @@ class PlainSignature(BaseSignature):
         )
         return not unexpected_keyword_arguments_found
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         return PlainSignature(
                 *_bind_keywords(
@@ -511,15 +511,15 @@ class OverloadedSignature(BaseSignature):
     def signatures(self) -> t.Sequence[PlainSignature]:
         return self._signatures
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.all_set(*args, **kwargs)
                    for signature in self._signatures)
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.expects(*args, **kwargs)
                    for signature in self._signatures)
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> Signature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> Signature:
         signatures = [signature.bind(*args, **kwargs)
                       for signature in self._signatures
                       if signature.expects(*args, **kwargs)]
-- 
2.43.0


From a08bf853f2ea2a77aaa7bacd093ec7e9f3087a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 05/63] fix: bound methods signature is taken from the
 underlying function instead of instance class attribute

---
 paradigm/_core/signatures.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 14808fe..7abb83d 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -70,8 +70,7 @@ def _(_callable: _types.MethodType) -> _Signature:
     try:
         return (_from_callable(_callable)
                 if isinstance(_callable.__self__, type)
-                else (_from_callable(getattr(type(_callable.__self__),
-                                             _callable.__name__))
+                else (_from_callable(_callable.__func__)
                       .bind(_callable.__self__)))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
-- 
2.43.0


From cac9d10931dcea0e8c156d5aca5b41077c02ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 06/63] fix: method wrappers signature is taken from the class
 defining the slot

---
 paradigm/_core/signatures.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 7abb83d..af80681 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -79,11 +79,10 @@ def _(_callable: _types.MethodType) -> _Signature:
 @_decorate_if(from_callable.register(_types.MethodWrapperType),
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
-    self = _callable.__self__
-    assert not isinstance(self, type), _callable
     try:
-        return (_from_callable(getattr(type(self), _callable.__name__))
-                .bind(self))
+        return (_from_callable(getattr(_callable.__objclass__,
+                                       _callable.__name__))
+                .bind(_callable.__self__))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
-- 
2.43.0


From a236f16a49373fc7d377d42591951cc3cebcfe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 07/63] fix: bound builtin methods signature is taken from the
 method itself instead of its override in a subclass

---
 paradigm/_core/signatures.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index af80681..9e0ec3d 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -47,8 +47,7 @@ def _(
     try:
         return ((_from_callable(_callable)
                  if isinstance(_callable.__self__, type)
-                 else (_from_callable(getattr(type(_callable.__self__),
-                                              _callable.__name__))
+                 else (_from_callable(_to_method_descriptor(_callable))
                        .bind(_callable.__self__)))
                 if (_callable.__self__ is not None
                     and not isinstance(_callable.__self__, _types.ModuleType))
@@ -374,6 +373,19 @@ def _is_classmethod(
             ) == classmethod_qualified_path)
 
 
+def _to_method_descriptor(
+        method: _types.BuiltinMethodType
+) -> _t.Callable[..., _t.Any]:
+    self, name = method.__self__, method.__name__
+    for cls in type(self).__mro__:
+        candidate = vars(cls).get(name)
+        if (isinstance(candidate, _types.MethodDescriptorType)
+                and candidate.__get__(self) == method):
+            return candidate
+    result: _t.Callable[..., _t.Any] = getattr(type(self), name)
+    return result
+
+
 class _SignatureNotFound(Exception):
     pass
 
-- 
2.43.0


From 8f12d8bfefb16540cae7b994a0aebbe1a066280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 08/63] fix: signature of builtin class methods does not
 contain bound class parameter

---
 paradigm/_core/signatures.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 9e0ec3d..dd8ecd0 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -45,7 +45,9 @@ def _(
         ]
 ) -> _Signature:
     try:
-        return ((_from_callable(_callable)
+        return (((_from_callable(_callable).bind(_callable.__self__)
+                  if _is_builtin_classmethod(_callable)
+                  else _from_callable(_callable))
                  if isinstance(_callable.__self__, type)
                  else (_from_callable(_to_method_descriptor(_callable))
                        .bind(_callable.__self__)))
@@ -386,6 +388,14 @@ def _to_method_descriptor(
     return result
 
 
+def _is_builtin_classmethod(method: _types.BuiltinMethodType) -> bool:
+    self, name = method.__self__, method.__name__
+    assert isinstance(self, type), method
+    return any(isinstance(candidate, _types.ClassMethodDescriptorType)
+               and candidate.__get__(None, self) == method
+               for candidate in [vars(cls).get(name) for cls in self.__mro__])
+
+
 class _SignatureNotFound(Exception):
     pass
 
-- 
2.43.0


From 0df3f8501d9d7d8f0097215ba8fddcaebcee25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 09/63] fix: first parameter of static methods is not replaced
 by 'Self'

---
 paradigm/_core/signatures.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index dd8ecd0..3d5d8de 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -333,7 +333,10 @@ def _parameters_from(
         result[0] = _RequiredParameter(annotation=_t.Type[_Self],
                                        kind=_ParameterKind.POSITIONAL_ONLY,
                                        name=result[0].name)
-    elif _stubs.nodes_kinds[module_path].get(parent_path) is _NodeKind.CLASS:
+    elif (_stubs.nodes_kinds[module_path].get(parent_path) is _NodeKind.CLASS
+          and not any(_is_staticmethod(decorator_node, module_path,
+                                       parent_path)
+                      for decorator_node in ast_node.decorator_list)):
         result[0] = _RequiredParameter(annotation=_Self,
                                        kind=_ParameterKind.POSITIONAL_ONLY,
                                        name=result[0].name)
@@ -388,6 +391,23 @@ def _to_method_descriptor(
     return result
 
 
+def _is_staticmethod(
+        expression_node: _ast.expr,
+        module_path: _catalog.Path,
+        parent_path: _catalog.Path,
+        *,
+        staticmethod_qualified_path: _catalog.QualifiedPath
+        = (_catalog.module_path_from_module(_builtins),
+           _catalog.path_from_string(staticmethod.__qualname__)),
+) -> bool:
+    maybe_path = _conversion.to_maybe_path(expression_node)
+    return (maybe_path is not None
+            and _scoping.resolve_object_path(
+                    module_path, parent_path, maybe_path, _stubs.definitions,
+                    _stubs.references, _stubs.submodules, _stubs.superclasses
+            ) == staticmethod_qualified_path)
+
+
 def _is_builtin_classmethod(method: _types.BuiltinMethodType) -> bool:
     self, name = method.__self__, method.__name__
     assert isinstance(self, type), method
-- 
2.43.0


From e68e08251e5d5aedc0c1572888d378d903bd442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 10/63] fix: class constructor is looked up by path of the base
 class instead of the derived one

---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 3d5d8de..91acbb2 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -538,8 +538,8 @@ def _to_class_builder_qualified_path(
     for base_module_path, base_object_path in _to_mro(module_path,
                                                       object_path):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
-        constructor_path = (*object_path, constructor_name)
-        initializer_path = (*object_path, initializer_name)
+        constructor_path = (*base_object_path, constructor_name)
+        initializer_path = (*base_object_path, initializer_name)
         if initializer_path in base_module_annotations:
             return (base_module_path, initializer_path)
         elif constructor_path in base_module_annotations:
-- 
2.43.0


From acc8bb1bb7d0a92887987905910b93707036219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 11/63] fix: named tuples constructors are registered under
 their own path

---
 paradigm/_core/stubs.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2fb89cc..0cae2af 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -301,7 +301,10 @@ if _reload_cache:
                         constructor_node = (
                             _named_tuple_to_constructor_ast_node(node)
                         )
-                        self._add_ast_node((class_name,), constructor_node)
+                        constructor_path = (class_name, constructor_node.name)
+                        self._add_ast_node(constructor_path, constructor_node)
+                        self._add_ast_node_kind(constructor_path,
+                                                _NodeKind.FUNCTION)
                         self._add_superclass(class_path, base_module_path,
                                              base_object_path)
                         continue
@@ -906,7 +909,8 @@ if _reload_cache:
                 _catalog.Path, _ModuleSuperclasses
             ],
             builtins_module_path: _catalog.Path
-            = _catalog.module_path_from_module(_builtins)
+            = _catalog.module_path_from_module(_builtins),
+            constructor_name: str = object.__new__.__name__
     ) -> None:
         base_scope = specializations_module_scope
         for part in specialization_object_path:
@@ -931,7 +935,14 @@ if _reload_cache:
                    for child in _recursively_iterate_children(ast_node)
                    if _is_dependency_name(child)}
         )
-        for name in generic_scope.keys():
+        # named tuples constructors are not present in definitions
+        for name in dict.fromkeys(
+                chain(generic_scope.keys(),
+                      [constructor_name]
+                      if ((*generic_object_path, constructor_name)
+                          in generic_module_ast_nodes)
+                      else [])
+        ):
             generic_field_path = (*generic_object_path, name)
             generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
             specialization_field_path = (*specialization_object_path, name)
-- 
2.43.0


From 4eec2280ae4ffbb470a170d5e99ff792b0842914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 12/63] fix: annotations equality is symmetric and respects
 unions & builtin generics

---
 paradigm/_core/annotated.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 2b0efb1..0da31af 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -12,6 +12,12 @@ from typing_extensions import (Literal,
 _T = t.TypeVar('_T')
 GenericAlias: t.Any = type(t.Generic[_T])
 del _T
+_UnionType: t.Any = getattr(types, 'UnionType', t.Union)
+_SPECIALIZED_TYPES: t.Tuple[t.Any, ...] = (
+    GenericAlias,
+    *((types.GenericAlias,) if sys.version_info >= (3, 9) else ()),
+    *((_UnionType,) if sys.version_info >= (3, 10) else ())
+)
 
 
 @singledispatch
@@ -22,14 +28,16 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 
 
 @are_equal.register(GenericAlias)
+@are_equal.register(type(t.List))
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_args, right_args = to_arguments(left), to_arguments(right)
-    left_origin, right_origin = (to_origin(left) or left,
-                                 to_origin(right) or right)
+    left_origin, right_origin = (_to_common_origin(left),
+                                 _to_common_origin(right))
     return (left_origin is right_origin
             and len(left_args) == len(right_args)
+            and _is_specialized(left) is _is_specialized(right)
             and ((all(any(are_equal(left_arg, right_arg)
                           for right_arg in right_args)
                       for left_arg in left_args)
@@ -40,6 +48,19 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
                  else all(map(are_equal, left_args, right_args))))
 
 
+def _is_specialized(value: t.Any) -> bool:
+    return isinstance(value, _SPECIALIZED_TYPES)
+
+
+def _to_common_origin(value: t.Any) -> t.Any:
+    result = to_origin(value)
+    return (value
+            if result is None
+            else (t.Union
+                  if result is _UnionType
+                  else result))
+
+
 @are_equal.register(abc.Sequence)
 def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
     return (type(left) is type(right)
@@ -62,6 +83,9 @@ def _(left: ParamSpecArgs, right: t.Any) -> bool:
             and are_equal(left.__origin__, right.__origin__))
 
 
+if sys.version_info >= (3, 9):
+    are_equal.register(types.GenericAlias, are_equal.dispatch(type))
+
 if sys.version_info < (3, 10):
     @are_equal.register(types.LambdaType)
     def _(left: types.LambdaType,
@@ -112,7 +136,8 @@ def _(left: t.TypeVar, right: t.Any) -> bool:
 @are_equal.register(bytes)
 @are_equal.register(str)
 def _(left: t.Union[bytes, str], right: t.Any) -> bool:
-    result = left == right
+    result = (isinstance(right, bytes if isinstance(left, bytes) else str)
+              and left == right)
     assert isinstance(result, bool), result
     return result
 
-- 
2.43.0


From 6658a4610e12aebe3dd14e6767da74882af04647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 13/63] fix: hashes of equal signatures are equal

---
 paradigm/_core/models.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index c0ac905..a8b1ecf 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -124,7 +124,9 @@ class RequiredParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation, self._kind, self._name))
+        # annotations are compared structurally
+        # so their hashes may be different for equal parameters
+        return hash((self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -216,9 +218,9 @@ class OptionalParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation,
-                     *((self._default,) if self._has_default else ()),
-                     self._kind, self._name))
+        # annotations & defaults are compared structurally
+        # so their hashes may be different for equal parameters
+        return hash((self._has_default, self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -472,7 +474,7 @@ class PlainSignature(BaseSignature):
         return self._parameters, {'returns': self._returns}
 
     def __hash__(self) -> int:
-        return hash((self._parameters, self.returns))
+        return hash(self._parameters)
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
-- 
2.43.0


From 17fb8058ecafeefbf6a31043892e16c8db420131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 14/63] fix: builtin methods lookup passes owner class to
 descriptors

---
 paradigm/_core/signatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 91acbb2..b28621a 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -385,7 +385,7 @@ def _to_method_descriptor(
     for cls in type(self).__mro__:
         candidate = vars(cls).get(name)
         if (isinstance(candidate, _types.MethodDescriptorType)
-                and candidate.__get__(self) == method):
+                and candidate.__get__(self, type(self)) == method):
             return candidate
     result: _t.Callable[..., _t.Any] = getattr(type(self), name)
     return result
-- 
2.43.0


From a49433a207d5db3e1aed79998195f5f9fdc42200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 15/63] fix: annotations representations are evaluable

---
 paradigm/_core/annotated.py | 71 ++++++++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 0da31af..2319e35 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -1,3 +1,4 @@
+import builtins
 import sys
 import types
 import typing as t
@@ -69,6 +70,7 @@ def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
 
 
 @are_equal.register(ParamSpec)
+@are_equal.register(type(ParamSpec('_P')))
 def _(left: ParamSpec, right: t.Any) -> bool:
     return (type(left) is type(right)
             and left.__name__ == right.__name__
@@ -146,6 +148,15 @@ to_arguments = t.get_args
 to_origin = t.get_origin
 
 
+_UNEXPOSED_BUILTINS_TYPES_NAMES: t.Dict[type, str] = {
+    value: name
+    for name, value in vars(types).items()
+    if (isinstance(value, type)
+        and value.__module__ == builtins.__name__
+        and not hasattr(builtins, value.__qualname__))
+}
+
+
 @singledispatch
 def to_repr(value: t.Any) -> str:
     return repr(value)
@@ -153,20 +164,26 @@ def to_repr(value: t.Any) -> str:
 
 @to_repr.register(list)
 def _(value: t.List[t.Any]) -> str:
-    return f'[{", ".join(to_repr(element) for element in value)}]'
+    return (f'[{", ".join(to_repr(element) for element in value)}]'
+            if type(value) is list
+            else repr(value))
 
 
 @to_repr.register(tuple)
 def _(value: t.Tuple[t.Any, ...]) -> str:
-    return (f'({to_repr(value[0])},)'
-            if len(value) == 1
-            else f'({", ".join(to_repr(element) for element in value)})')
+    return ((f'({to_repr(value[0])},)'
+             if len(value) == 1
+             else f'({", ".join(to_repr(element) for element in value)})')
+            if type(value) is tuple
+            else repr(value))
 
 
 @to_repr.register(type)
 def _(value: type) -> str:
     if value in (type(None), type(NotImplemented), type(Ellipsis)):
         return f'{type.__qualname__}({value()!r})'
+    elif value in _UNEXPOSED_BUILTINS_TYPES_NAMES:
+        return f'{types.__name__}.{_UNEXPOSED_BUILTINS_TYPES_NAMES[value]}'
     else:
         args = to_arguments(value)
         result = f'{value.__module__}.{value.__qualname__}'
@@ -207,3 +224,49 @@ def _(value: t.TypeVar) -> str:
     if value.__covariant__:
         arguments.append('covariant=True')
     return f'{to_repr(type(value))}({", ".join(arguments)})'
+
+
+if sys.version_info >= (3, 9):
+    @to_repr.register(types.GenericAlias)
+    def _(value: types.GenericAlias) -> str:
+        arguments = to_arguments(value)
+        return (to_repr(to_origin(value))
+                + (f'[{", ".join(map(to_repr, arguments))}]'
+                   if arguments
+                   else '[()]'))
+
+if sys.version_info >= (3, 10):
+    @to_repr.register(types.UnionType)
+    def _(value: types.UnionType) -> str:
+        return ' | '.join('None'
+                          if argument is type(None)
+                          else to_repr(argument)
+                          for argument in to_arguments(value))
+
+
+@to_repr.register(t.ForwardRef)
+def _(value: t.ForwardRef) -> str:
+    return f'{to_repr(type(value))}({value.__forward_arg__!r})'
+
+
+@to_repr.register(ParamSpec)
+@to_repr.register(type(ParamSpec('_P')))
+def _(value: ParamSpec) -> str:
+    arguments = [repr(value.__name__)]
+    if value.__bound__ is not None:
+        arguments.append(f'bound={to_repr(value.__bound__)}')
+    if value.__contravariant__:
+        arguments.append('contravariant=True')
+    if value.__covariant__:
+        arguments.append('covariant=True')
+    return f'{to_repr(type(value))}({", ".join(arguments)})'
+
+
+@to_repr.register(ParamSpecArgs)
+def _(value: ParamSpecArgs) -> str:
+    return f'{to_repr(value.__origin__)}.args'
+
+
+@to_repr.register(ParamSpecKwargs)
+def _(value: ParamSpecKwargs) -> str:
+    return f'{to_repr(value.__origin__)}.kwargs'
-- 
2.43.0


From 8da44917b8fd063b9c738801c5f49e844dca4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 16/63] fix: optional parameters without known default are
 distinguishable from required ones in string form

---
 paradigm/_core/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index a8b1ecf..989d4b7 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -242,7 +242,12 @@ class OptionalParameter(BaseParameter):
                         f': {annotated.to_repr(self.annotation)}',
                         (f' = {annotated.to_repr(self.default)}'
                          if self.has_default
-                         else '')])
+                         else (''
+                               if (self.kind
+                                   is ParameterKind.VARIADIC_POSITIONAL
+                                   or (self.kind
+                                       is ParameterKind.VARIADIC_KEYWORD))
+                               else ' = ...'))])
 
 
 Parameter = t.Union[OptionalParameter, RequiredParameter]
-- 
2.43.0


From 928080eca4df34f202304a93c097035058531387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 17/63] fix: order of processed modules does not depend on hash
 randomization

---
 paradigm/_core/sources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index afb07ec..9ad7d19 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -77,7 +77,8 @@ def _relative_file_path_to_module_path(path: Path) -> catalog.Path:
 
 
 _stubs_cache = _to_stubs_cache()
-stubs_stdlib_modules_paths = set(_stubs_cache.keys())
+# sorted since result of stubs parsing depends on the order of modules
+stubs_stdlib_modules_paths = sorted(_stubs_cache.keys())
 _sources_directories = {
     Path(sysconfig.get_path('platstdlib')), Path(sysconfig.get_path('stdlib'))
 }
@@ -119,7 +120,7 @@ stdlib_modules_paths = dict.fromkeys(
         chain([catalog.path_from_string(module_name)
                for module_name in sys.builtin_module_names],
               [module_path
-               for path in _sources_directories
-               for module_path in _to_modules_paths(path)
+               for path in sorted(_sources_directories)
+               for module_path in sorted(_to_modules_paths(path))
                if _is_valid_module_path(module_path)])
 ).keys()
-- 
2.43.0


From 4373c407625499ff0c0f4736298f5a37e5c43414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 18/63] fix: evaluation of stubs is thread-safe

---
 paradigm/_core/signatures.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index b28621a..0de6a9d 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -1,7 +1,9 @@
 import ast as _ast
 import builtins as _builtins
 import inspect as _inspect
+import os as _os
 import sys as _sys
+import threading as _threading
 import types as _types
 import typing as _t
 from functools import (partial as _partial,
@@ -30,6 +32,14 @@ from .models import (OptionalParameter as _OptionalParameter,
 from .modules import supported_stdlib_qualified_paths as _qualified_paths
 from .utils import decorate_if as _decorate_if
 
+# evaluation of stubs relies on caches with intermediate values
+# which should not be visible to other threads
+_evaluation_lock = _threading.RLock()
+if hasattr(_os, 'register_at_fork'):
+    _os.register_at_fork(before=_evaluation_lock.acquire,
+                         after_in_child=_evaluation_lock.release,
+                         after_in_parent=_evaluation_lock.release)
+
 
 @_singledispatch
 def from_callable(_callable: _t.Callable[..., _t.Any]) -> _Signature:
@@ -116,9 +126,12 @@ def _(_callable: _t.Callable[..., _t.Any]) -> _Signature:
         )
         ast_nodes = _load_ast_nodes(module_path, object_path)
         class_path, builder_name = object_path[:-1], object_path[-1]
-        return _from_signatures(*[_from_statement_node(ast_node, _callable,
-                                                       module_path, class_path)
-                                  for ast_node in ast_nodes])
+        with _evaluation_lock:
+            return _from_signatures(
+                    *[_from_statement_node(ast_node, _callable, module_path,
+                                           class_path)
+                      for ast_node in ast_nodes]
+            )
     except _SignatureNotFound:
         raw_signature = _inspect.signature(_callable)
         return _from_raw_signature(
@@ -437,10 +450,12 @@ def _from_callable(value: _t.Callable[..., _t.Any]) -> _Signature:
         ast_nodes = _load_ast_nodes(module_path, object_path)
         parent_path = object_path[:-1]
         try:
-            signatures = [
-                _from_statement_node(ast_node, value, module_path, parent_path)
-                for ast_node in ast_nodes
-            ]
+            with _evaluation_lock:
+                signatures = [
+                    _from_statement_node(ast_node, value, module_path,
+                                         parent_path)
+                    for ast_node in ast_nodes
+                ]
         except _SignatureNotFound:
             continue
         else:
-- 
2.43.0


From 0c86b8186a88ca43416fee4ad549b833ab54a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 19/63] fix: abnormal exit of helper process does not hang the
 caller

---
 paradigm/_core/execution.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 2def910..94defe3 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -3,7 +3,7 @@ import multiprocessing
 import sys
 import threading
 import typing as t
-from multiprocessing.queues import SimpleQueue
+from multiprocessing.connection import Connection
 
 
 def is_main_process() -> bool:
@@ -21,17 +21,22 @@ def call_in_process(function: t.Callable[..., t.Any],
         try:
             sys.modules['__main__'] = caller_module
             context = multiprocessing.get_context()
-            queue = context.SimpleQueue()
+            reader, writer = context.Pipe(duplex=False)
             process = context.Process(
-                    target=_put_result_in_queue,
+                    target=_send_result,
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
-                    args=(queue, function, *args),
+                    args=(writer, function, *args),
                     kwargs=kwargs
             )
             process.start()
-            result, error = queue.get()
-            process.join()
+            # otherwise abnormal exit of the process won't be noticed
+            writer.close()
+            try:
+                result, error = reader.recv()
+            finally:
+                reader.close()
+                process.join()
             if error is not None:
                 raise error
             return result
@@ -42,14 +47,14 @@ def call_in_process(function: t.Callable[..., t.Any],
                 sys.modules['__main__'] = main_module
 
 
-def _put_result_in_queue(queue: 'SimpleQueue[t.Any]',
-                         function: t.Callable[..., t.Any],
-                         *args: t.Any,
-                         **kwargs: t.Any) -> None:
+def _send_result(writer: Connection,
+                 function: t.Callable[..., t.Any],
+                 *args: t.Any,
+                 **kwargs: t.Any) -> None:
     try:
         result = function(*args, **kwargs)
     except Exception as error:
-        queue.put((None, error))
+        writer.send((None, error))
         raise error
     else:
-        queue.put((result, None))
+        writer.send((result, None))
-- 
2.43.0


From 6110dffd8860c4370e5bf3bdfe8fa4ef704c6c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 20/63] fix: user-defined functions and classes named like ones
 from the standard library get their own signatures

---
 paradigm/_core/signatures.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 0de6a9d..15ba3a9 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -523,7 +523,7 @@ def resolve_qualified_paths(
     except KeyError:
         assert not module_path or object_path, value
         qualified_paths = ([(module_path, object_path)]
-                           if module_path
+                           if module_path and not _is_namesake(value)
                            else [])
     else:
         qualified_paths = [path
@@ -581,7 +581,7 @@ def _value_has_qualified_path(value: _t.Any,
     candidate = _sys.modules.get(module_name)
     if candidate is None:
         # undecidable, let's keep it
-        return True
+        return not _is_namesake(value)
     for part in object_path:
         try:
             candidate = getattr(candidate, part)
@@ -590,6 +590,27 @@ def _value_has_qualified_path(value: _t.Any,
     return candidate is value
 
 
+def _is_namesake(value: _t.Any,
+                 *,
+                 heap_type_flag: int = 1 << 9,
+                 main_module_name: str = '__main__') -> bool:
+    # checks if user-defined function or class
+    # is just named like one from the standard library
+    if isinstance(value, _types.FunctionType):
+        module = _sys.modules.get(value.__module__)
+        return (module is None
+                or value.__module__ == main_module_name
+                or value.__globals__ is not vars(module))
+    elif isinstance(value, type) and value.__flags__ & heap_type_flag:
+        return (value.__module__ == main_module_name
+                or value.__module__ not in _sys.modules
+                or not _value_has_qualified_path(
+                        value, _catalog.qualified_path_from(value)
+                ))
+    else:
+        return False
+
+
 def _parameter_from_raw(raw: _inspect.Parameter) -> _Parameter:
     annotation, kind, name = (
         _t.Any if raw.annotation is _inspect._empty else raw.annotation,
-- 
2.43.0


From f93fb3a2554fffed737d77ee7c1c3d9bd01433b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 21/63] fix: builtin static methods are found in stubs

---
 paradigm/_core/catalog.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paradigm/_core/catalog.py b/paradigm/_core/catalog.py
index f54696c..9c409a1 100644
--- a/paradigm/_core/catalog.py
+++ b/paradigm/_core/catalog.py
@@ -82,6 +82,14 @@ def _(value: _types.MemberDescriptorType) -> QualifiedPath:
              value.__name__))
 
 
+@qualified_path_from.register(staticmethod)
+def _(value: 'staticmethod[_t.Any]') -> QualifiedPath:
+    function = value.__func__
+    return (qualified_path_from(function)
+            if isinstance(function, _types.BuiltinFunctionType)
+            else ((), ()))
+
+
 @qualified_path_from.register(type)
 def _(value: type) -> QualifiedPath:
     return (path_from_string(value.__module__),
-- 
2.43.0


From 6552739b56be3519f020f239e878d82e4a1eaffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 22/63] fix: builtin methods bound to classes and None,
 inherited builtin class methods get signatures of underlying methods

---
 paradigm/_core/signatures.py | 48 +++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 15ba3a9..656758c 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -54,15 +54,13 @@ def _(
             _types.BuiltinFunctionType, _types.BuiltinMethodType
         ]
 ) -> _Signature:
+    self = _callable.__self__
+    descriptor = _to_maybe_method_descriptor(_callable)
+    if descriptor is not None:
+        return from_callable(descriptor).bind(self)
     try:
-        return (((_from_callable(_callable).bind(_callable.__self__)
-                  if _is_builtin_classmethod(_callable)
-                  else _from_callable(_callable))
-                 if isinstance(_callable.__self__, type)
-                 else (_from_callable(_to_method_descriptor(_callable))
-                       .bind(_callable.__self__)))
-                if (_callable.__self__ is not None
-                    and not isinstance(_callable.__self__, _types.ModuleType))
+        return (_from_builtin_classmethod(_callable)
+                if isinstance(self, type)
                 else _from_callable(_callable))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
@@ -90,12 +88,8 @@ def _(_callable: _types.MethodType) -> _Signature:
 @_decorate_if(from_callable.register(_types.MethodWrapperType),
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
-    try:
-        return (_from_callable(getattr(_callable.__objclass__,
-                                       _callable.__name__))
-                .bind(_callable.__self__))
-    except _SignatureNotFound:
-        return _from_raw_signature(_inspect.signature(_callable))
+    return (from_callable(getattr(_callable.__objclass__, _callable.__name__))
+            .bind(_callable.__self__))
 
 
 @_decorate_if(from_callable.register(_types.MethodDescriptorType),
@@ -391,17 +385,18 @@ def _is_classmethod(
             ) == classmethod_qualified_path)
 
 
-def _to_method_descriptor(
+def _to_maybe_method_descriptor(
         method: _types.BuiltinMethodType
-) -> _t.Callable[..., _t.Any]:
+) -> _t.Optional[_types.MethodDescriptorType]:
     self, name = method.__self__, method.__name__
     for cls in type(self).__mro__:
         candidate = vars(cls).get(name)
         if (isinstance(candidate, _types.MethodDescriptorType)
-                and candidate.__get__(self, type(self)) == method):
+                and (getattr(None, name)
+                     if self is None
+                     else candidate.__get__(self, type(self))) == method):
             return candidate
-    result: _t.Callable[..., _t.Any] = getattr(type(self), name)
-    return result
+    return None
 
 
 def _is_staticmethod(
@@ -421,12 +416,19 @@ def _is_staticmethod(
             ) == staticmethod_qualified_path)
 
 
-def _is_builtin_classmethod(method: _types.BuiltinMethodType) -> bool:
+def _from_builtin_classmethod(method: _types.BuiltinMethodType) -> _Signature:
     self, name = method.__self__, method.__name__
     assert isinstance(self, type), method
-    return any(isinstance(candidate, _types.ClassMethodDescriptorType)
-               and candidate.__get__(None, self) == method
-               for candidate in [vars(cls).get(name) for cls in self.__mro__])
+    for cls in self.__mro__:
+        candidate = vars(cls).get(name)
+        if (isinstance(candidate, _types.ClassMethodDescriptorType)
+                and candidate.__get__(None, self) == method):
+            try:
+                return _from_callable(method).bind(self)
+            except _SignatureNotFound:
+                # can be inherited by user-defined class
+                return _from_callable(candidate.__get__(None, cls)).bind(self)
+    return _from_callable(method)
 
 
 class _SignatureNotFound(Exception):
-- 
2.43.0


From 8858ee3c7360be07dfef1a7aab90bb0ea473eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 23/63] fix: class methods of standard library classes are
 found in stubs

---
 paradigm/_core/signatures.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 656758c..cb9367b 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -77,10 +77,8 @@ def _(_callable: _types.FunctionType) -> _Signature:
 @from_callable.register(_types.MethodType)
 def _(_callable: _types.MethodType) -> _Signature:
     try:
-        return (_from_callable(_callable)
-                if isinstance(_callable.__self__, type)
-                else (_from_callable(_callable.__func__)
-                      .bind(_callable.__self__)))
+        return (_from_callable(_callable.__func__)
+                .bind(_callable.__self__))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
-- 
2.43.0


From 268b8698135102fcb2d0b23f5783fcce20973ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 24/63] fix: attributes and constructors are inherited along
 the method resolution order

---
 paradigm/_core/scoping.py    | 70 +++++++++++++++++++++++-------------
 paradigm/_core/signatures.py | 17 ++-------
 2 files changed, 49 insertions(+), 38 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b007fd3..1d00168 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -25,6 +25,36 @@ def scope_contains_path(scope: Scope, path: catalog.Path) -> bool:
     return True
 
 
+def linearize(
+        module_path: catalog.Path,
+        object_path: catalog.Path,
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses]
+) -> t.List[catalog.QualifiedPath]:
+    superclasses = list(
+            modules_superclasses.get(module_path, {}).get(object_path, [])
+    )
+    result = [(module_path, object_path)]
+    sequences = [*[linearize(superclass_module_path, superclass_object_path,
+                             modules_superclasses)
+                   for (
+                       superclass_module_path, superclass_object_path
+                   ) in superclasses],
+                 superclasses]
+    while any(sequences):
+        candidates = [sequence[0] for sequence in sequences if sequence]
+        # specializations of generics are different classes in stubs,
+        # so there may be no consistent order
+        next_class = next((candidate
+                           for candidate in candidates
+                           if not any(candidate in sequence[1:]
+                                      for sequence in sequences)),
+                          candidates[0])
+        result.append(next_class)
+        sequences = [[class_ for class_ in sequence if class_ != next_class]
+                     for sequence in sequences]
+    return result
+
+
 def contains_object_path(
         module_path: catalog.Path,
         parent_path: catalog.Path,
@@ -72,35 +102,27 @@ def resolve_object_path(
                 modules_superclasses, *visited_modules_paths
         )
     elif object_path[0] in module_definitions:
-        module_superclasses, scope = (
-            modules_superclasses.get(module_path, {}),
-            module_definitions[object_path[0]]
-        )
+        scope = module_definitions[object_path[0]]
         for index, sub_name in enumerate(object_path[1:],
                                          start=1):
             if sub_name in scope:
                 scope = scope[sub_name]
             else:
-                sub_path = object_path[:index]
-                try:
-                    sub_path_superclasses = module_superclasses[sub_path]
-                except KeyError:
-                    pass
-                else:
-                    for (
-                            superclass_module_path, superclass_object_path
-                    ) in sub_path_superclasses:
-                        try:
-                            return resolve_object_path(
-                                    superclass_module_path, (),
-                                    superclass_object_path
-                                    + object_path[index:],
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses,
-                                    *visited_modules_paths, module_path
-                            )
-                        except ObjectNotFound:
-                            continue
+                for (
+                        superclass_module_path, superclass_object_path
+                ) in linearize(module_path, object_path[:index],
+                               modules_superclasses)[1:]:
+                    if scope_contains_path(
+                            modules_definitions[superclass_module_path],
+                            (*superclass_object_path, sub_name)
+                    ):
+                        return resolve_object_path(
+                                superclass_module_path, (),
+                                superclass_object_path + object_path[index:],
+                                modules_definitions, modules_references,
+                                modules_submodules, modules_superclasses,
+                                *visited_modules_paths, module_path
+                        )
                 if object_path[0] != object.__name__:
                     return resolve_object_path(
                             _builtins_module_path, (),
diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index cb9367b..1882fb4 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -550,8 +550,9 @@ def _to_class_builder_qualified_path(
         constructor_name: str = object.__new__.__name__,
         initializer_name: str = object.__init__.__name__
 ) -> _catalog.QualifiedPath:
-    for base_module_path, base_object_path in _to_mro(module_path,
-                                                      object_path):
+    for base_module_path, base_object_path in _scoping.linearize(
+            module_path, object_path, _stubs.superclasses
+    ):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
         constructor_path = (*base_object_path, constructor_name)
         initializer_path = (*base_object_path, initializer_name)
@@ -562,18 +563,6 @@ def _to_class_builder_qualified_path(
     return object_builder_qualified_path
 
 
-def _to_mro(module_path: _catalog.Path,
-            object_path: _catalog.Path) -> _t.Iterable[_catalog.QualifiedPath]:
-    yield (module_path, object_path)
-    try:
-        bases = _stubs.superclasses[module_path][object_path]
-    except KeyError:
-        return
-    else:
-        for base_module_path, base_object_path in bases:
-            yield from _to_mro(base_module_path, base_object_path)
-
-
 def _value_has_qualified_path(value: _t.Any,
                               path: _catalog.QualifiedPath) -> bool:
     module_path, object_path = path
-- 
2.43.0


From 286d8da66cd12a235b185e190af4f24663baa079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 25/63] fix: signature of a callable is taken from its own
 declaration instead of declaration of its alias

---
 paradigm/_core/signatures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 1882fb4..a1bb997 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -517,7 +517,7 @@ def _statement_node_from_raw(raw: _conversion.RawAstNode) -> _ast.stmt:
 def resolve_qualified_paths(
         value: _t.Callable[..., _t.Any]
 ) -> _t.List[_catalog.QualifiedPath]:
-    module_path, object_path = _catalog.qualified_path_from(value)
+    module_path, object_path = own_path = _catalog.qualified_path_from(value)
     try:
         candidates_paths = _qualified_paths[module_path][object_path]
     except KeyError:
@@ -529,6 +529,7 @@ def resolve_qualified_paths(
         qualified_paths = [path
                            for path in candidates_paths
                            if _value_has_qualified_path(value, path)]
+    # aliases may be described by stubs differently from the object itself
     return sorted({
         (module_path, object_path)
         for module_path, object_path in [
@@ -536,7 +537,8 @@ def resolve_qualified_paths(
             for module_path, object_path in qualified_paths
         ]
         if module_path and object_path
-    })
+    },
+            key=lambda path: (path != own_path, path))
 
 
 def _to_class_builder_qualified_path(
-- 
2.43.0


From 0effeb996c496c9acc5bace2c0f34692efbdb167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 26/63] fix: factories described by stubs as classes do not
 require an instance

---
 paradigm/_core/signatures.py | 42 +++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index a1bb997..e7a5edb 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -113,17 +113,7 @@ def _(_callable: _t.Callable[..., _t.Any]) -> _Signature:
         qualified_paths = resolve_qualified_paths(_callable)
         if not qualified_paths:
             raise _SignatureNotFound
-        module_path, object_path = _resolve_builder_qualified_path(
-                qualified_paths
-        )
-        ast_nodes = _load_ast_nodes(module_path, object_path)
-        class_path, builder_name = object_path[:-1], object_path[-1]
-        with _evaluation_lock:
-            return _from_signatures(
-                    *[_from_statement_node(ast_node, _callable, module_path,
-                                           class_path)
-                      for ast_node in ast_nodes]
-            )
+        return _from_builder(qualified_paths, _callable)
     except _SignatureNotFound:
         raw_signature = _inspect.signature(_callable)
         return _from_raw_signature(
@@ -446,7 +436,13 @@ def _try_resolve_object_path(
 
 
 def _from_callable(value: _t.Callable[..., _t.Any]) -> _Signature:
-    for module_path, object_path in _to_qualified_paths(value):
+    qualified_paths = resolve_qualified_paths(value)
+    if qualified_paths:
+        module_path, object_path = qualified_paths[0]
+        if _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS:
+            # factories can be described as classes
+            return _from_builder(qualified_paths, type)
+    for module_path, object_path in qualified_paths:
         ast_nodes = _load_ast_nodes(module_path, object_path)
         parent_path = object_path[:-1]
         try:
@@ -463,16 +459,18 @@ def _from_callable(value: _t.Callable[..., _t.Any]) -> _Signature:
     raise _SignatureNotFound
 
 
-def _to_qualified_paths(
-        value: _t.Callable[..., _t.Any]
-) -> _t.Iterable[_catalog.QualifiedPath]:
-    qualified_paths = resolve_qualified_paths(value)
-    if qualified_paths:
-        module_path, object_path = qualified_paths[0]
-        if _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS:
-            yield _resolve_builder_qualified_path(qualified_paths)
-        else:
-            yield from qualified_paths
+def _from_builder(
+        qualified_paths: _t.Sequence[_catalog.QualifiedPath],
+        cls: type
+) -> _Signature:
+    module_path, object_path = _resolve_builder_qualified_path(qualified_paths)
+    ast_nodes = _load_ast_nodes(module_path, object_path)
+    class_path = object_path[:-1]
+    with _evaluation_lock:
+        return _from_signatures(
+                *[_from_statement_node(ast_node, cls, module_path, class_path)
+                  for ast_node in ast_nodes]
+        )
 
 
 def _resolve_builder_qualified_path(
-- 
2.43.0


From af3e8ac2a7bb03b66c286b768f0edb9a95985295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 27/63] fix: classes from stubs with restrictive runtime bases
 are evaluated

---
 paradigm/_core/arboreal/evaluation.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index cc32ddc..771001d 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -411,14 +411,21 @@ def evaluate_qualified_path(
         )
         if annotations_nodes:
             class_namespace['__annotations__'] = {}
-        result = parent_namespace[object_path[-1]] = objects_cache[
+        class_name = catalog.path_to_string(object_path)
+
+        def fill_namespace(namespace: namespacing.Namespace) -> None:
+            namespace.update(class_namespace)
+
+        try:
+            result = types.new_class(class_name, bases,
+                                     exec_body=fill_namespace)
+        except TypeError:
+            # base classes can impose requirements not reflected in stubs
+            result = types.new_class(class_name,
+                                     exec_body=fill_namespace)
+        parent_namespace[object_path[-1]] = objects_cache[
             (module_path, object_path)
-        ] = types.new_class(
-                catalog.path_to_string(object_path), bases,
-                exec_body=lambda namespace: namespace.update(
-                        class_namespace
-                )
-        )
+        ] = result
         if annotations_nodes:
             result.__annotations__.update({
                 name: evaluate_expression_node(annotation_node,
-- 
2.43.0


From 8baf19bdb7cc68b2a761c862fe31d8742466e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 28/63] fix: aliases defined in a class body of stubs belong to
 the class

---
 paradigm/_core/scoping.py | 40 +++++++++++++++++++++++----------------
 paradigm/_core/stubs.py   | 12 ++++++++++--
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 1d00168..83148d6 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -94,8 +94,11 @@ def resolve_object_path(
     if not object_path:
         return (module_path, object_path)
     assert scope_contains_path(module_definitions, parent_path)
-    if (parent_path and scope_contains_path(module_definitions,
-                                            (*parent_path, object_path[0]))):
+    if (parent_path
+            and (scope_contains_path(module_definitions,
+                                     (*parent_path, object_path[0]))
+                 or ((*parent_path, object_path[0])
+                     in modules_references[module_path]))):
         return resolve_object_path(
                 module_path, (), parent_path + object_path,
                 modules_definitions, modules_references, modules_submodules,
@@ -108,21 +111,26 @@ def resolve_object_path(
             if sub_name in scope:
                 scope = scope[sub_name]
             else:
-                for (
-                        superclass_module_path, superclass_object_path
-                ) in linearize(module_path, object_path[:index],
-                               modules_superclasses)[1:]:
-                    if scope_contains_path(
-                            modules_definitions[superclass_module_path],
-                            (*superclass_object_path, sub_name)
+                for class_module_path, class_object_path in linearize(
+                        module_path, object_path[:index], modules_superclasses
+                ):
+                    member_path = (*class_object_path, sub_name)
+                    if (member_path
+                            in modules_references.get(class_module_path, {})):
+                        class_module_path, member_path = modules_references[
+                            class_module_path
+                        ][member_path]
+                    elif not scope_contains_path(
+                            modules_definitions[class_module_path], member_path
                     ):
-                        return resolve_object_path(
-                                superclass_module_path, (),
-                                superclass_object_path + object_path[index:],
-                                modules_definitions, modules_references,
-                                modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
-                        )
+                        continue
+                    return resolve_object_path(
+                            class_module_path, (),
+                            member_path + object_path[index + 1:],
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses,
+                            *visited_modules_paths, module_path
+                    )
                 if object_path[0] != object.__name__:
                     return resolve_object_path(
                             _builtins_module_path, (),
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 0cae2af..cb282b7 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -413,8 +413,9 @@ if _reload_cache:
                            reference_path: _catalog.Path,
                            referent_module_path: _catalog.Path,
                            referent_object_path: _catalog.Path) -> None:
-            self.module_references[reference_path] = (referent_module_path,
-                                                      referent_object_path)
+            self.module_references[self.parent_path + reference_path] = (
+                referent_module_path, referent_object_path
+            )
 
         def _add_submodule(self, module_path: _catalog.Path) -> None:
             self.modules_submodules.setdefault(
@@ -529,6 +530,13 @@ if _reload_cache:
         if _scoping.scope_contains_path(module_definitions,
                                         parent_path + (first_name,)):
             return module_path, parent_path + object_path
+        elif (parent_path
+              and parent_path + (first_name,)
+              in modules_references[module_path]):
+            referent_module_path, referent_object_path = (
+                modules_references[module_path][parent_path + (first_name,)]
+            )
+            return referent_module_path, referent_object_path + object_path[1:]
         elif first_name in module_definitions:
             return module_path, object_path
         else:
-- 
2.43.0


From a17c26803f5ff64ceed3cd72d8f86a7892dd6b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 29/63] fix: specializations of generics in stubs are
 distinguished by meaning of their arguments and inherit from specialized
 bases

---
 paradigm/_core/arboreal/conversion.py |   3 +-
 paradigm/_core/stubs.py               | 447 +++++++++++---------------
 2 files changed, 196 insertions(+), 254 deletions(-)

diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index 1680a14..eb13301 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -86,8 +86,9 @@ def _(ast_node: ast.BinOp) -> str:
             + to_identifier(ast_node.right))
 
 
+@to_identifier.register(ast.List)
 @to_identifier.register(ast.Tuple)
-def _(ast_node: ast.Tuple) -> str:
+def _(ast_node: t.Union[ast.List, ast.Tuple]) -> str:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
     return '_'.join(to_identifier(element) for element in ast_node.elts)
 
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index cb282b7..057497f 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -64,7 +64,6 @@ if _reload_cache:
     import builtins as _builtins
     from copy import deepcopy as _deepcopy
     from functools import singledispatch as _singledispatch
-    from itertools import chain
 
     from typing_extensions import TypeGuard as _TypeGuard
 
@@ -637,24 +636,40 @@ if _reload_cache:
 
 
     class _SpecializeGeneric(_ast.NodeTransformer):
-        def __init__(self, table: _t.Dict[_catalog.Path, _ast.expr]) -> None:
-            self.table = table
+        """
+        Replaces type parameters with arguments
+        and other names with ones unambiguous in any scope.
+        """
+
+        def __init__(
+                self,
+                table: _t.Dict[_catalog.Path, _ast.expr],
+                to_unambiguous_name: _t.Callable[
+                    [_catalog.Path], _t.Optional[str]
+                ]
+        ) -> None:
+            self.table, self.to_unambiguous_name = table, to_unambiguous_name
 
         def visit_Name(self, node: _ast.Name) -> _ast.expr:
-            if not isinstance(node.ctx, _ast.Load):
-                return node
-            candidate = self.table.get(_conversion.to_path(node))
-            return (node
-                    if candidate is None
-                    else _ast.copy_location(_deepcopy(candidate), node))
+            return self._visit_path(node)
 
         def visit_Attribute(self, node: _ast.Attribute) -> _ast.expr:
-            if not isinstance(node.ctx, _ast.Load):
-                return node
-            candidate = self.table.get(_conversion.to_path(node))
-            return (node
-                    if candidate is None
-                    else _ast.copy_location(_deepcopy(candidate), node))
+            return self._visit_path(node)
+
+        def _visit_path(
+                self, node: _t.Union[_ast.Attribute, _ast.Name]
+        ) -> _ast.expr:
+            path = _conversion.to_maybe_path(node)
+            if path is not None and isinstance(node.ctx, _ast.Load):
+                candidate = self.table.get(path)
+                if candidate is not None:
+                    return _ast.copy_location(_deepcopy(candidate), node)
+                name = self.to_unambiguous_name(path)
+                if name is not None:
+                    return _ast.copy_location(_ast.Name(name, _ast.Load()),
+                                              node)
+            self.generic_visit(node)
+            return node
 
 
     def _parse_stubs_state(
@@ -741,254 +756,180 @@ if _reload_cache:
         specializations_references = modules_references[
             specializations_module_path
         ] = {}
-        for (class_module_path, class_object_path), class_bases in (
-                classes_bases.items()
-        ):
-            for base in class_bases:
-                base_module_path, base_object_path = _register_base_ast_node(
-                        base, class_module_path, class_object_path,
-                        classes_bases, generics_parameters_paths,
-                        specializations_ast_nodes, specializations_module_path,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
-                )
-                modules_superclasses.setdefault(
-                        class_module_path, {}
-                ).setdefault(class_object_path, []).append((base_module_path,
-                                                            base_object_path))
+        specializations_paths: _t.Dict[
+            _t.Tuple[_catalog.QualifiedPath,
+                     _t.Tuple[_serialization.RawAstNode, ...]],
+            _catalog.QualifiedPath
+        ] = {}
 
+        def to_specializer(
+                table: _t.Dict[_catalog.Path, _ast.expr],
+                module_path: _catalog.Path,
+                parent_path: _catalog.Path,
+                *,
+                ambiguous_names: _t.Collection[str] = (),
+                rename_builtins: bool
+        ) -> _t.Callable[[_ast.AST], _t.Any]:
+            def to_unambiguous_name(
+                    path: _catalog.Path,
+                    *,
+                    builtins_module_path: _catalog.Path
+                    = _catalog.module_path_from_module(_builtins)
+            ) -> _t.Optional[str]:
+                if path[0] in ambiguous_names:
+                    return None
+                try:
+                    qualified_path = _scoping.resolve_object_path(
+                            module_path, parent_path, path,
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses
+                    )
+                except _scoping.ObjectNotFound:
+                    return None
+                if (not rename_builtins
+                        and qualified_path == (builtins_module_path, path)):
+                    return None
+                resolved_module_path, resolved_object_path = qualified_path
+                name = '__' + '_'.join((*resolved_module_path,
+                                        *resolved_object_path))
+                while specializations_references.setdefault(
+                        (name,), qualified_path
+                ) != qualified_path:
+                    name += '_'
+                return name
+
+            return _SpecializeGeneric(table, to_unambiguous_name).visit
+
+        def register_base(
+                base: _ast.expr,
+                module_path: _catalog.Path,
+                parent_path: _catalog.Path,
+                table: _t.Dict[_catalog.Path, _ast.expr]
+        ) -> _catalog.QualifiedPath:
+            generic_path = generic_module_path, generic_object_path = (
+                _scoping.resolve_object_path(
+                        module_path, parent_path,
+                        _conversion.to_path(base.value
+                                            if _is_generic_specialization(base)
+                                            else base),
+                        modules_definitions, modules_references,
+                        modules_submodules, modules_superclasses
+                )
+            )
+            if (not _is_generic_specialization(base)
+                    or generic_path not in classes_bases):
+                return generic_path
+            specialize_arg = to_specializer(table, module_path, parent_path,
+                                            rename_builtins=True)
+            args = [
+                specialize_arg(_deepcopy(arg))
+                for arg in _unpack_ast_node(_subscript_to_item(base))
+            ]
+            key = generic_path, tuple(map(_serialization.to_raw, args))
+            try:
+                return specializations_paths[key]
+            except KeyError:
+                pass
+            name = '_'.join(
+                    [*generic_module_path, *generic_object_path, 'getitem',
+                     *map(_serialization.to_identifier, args)]
+            )
+            while name in specializations_module_scope:
+                name += '_'
+            object_path = (name,)
+            specializations_paths[key] = result = (
+                specializations_module_path, object_path
+            )
+            register_members(
+                    object_path, generic_module_path, generic_object_path,
+                    dict(zip(generics_parameters_paths.get(generic_path, ()),
+                             args))
+            )
+            return result
 
-    def _register_base_ast_node(
-            base: _ast.expr,
-            child_module_path: _catalog.Path,
-            child_object_path: _catalog.Path,
-            classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
-            generics_parameters_paths: _t.Dict[
-                _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
-            ],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_path: _catalog.Path,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
-            modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
-            modules_definitions: _t.Dict[_catalog.Path, _Scope],
-            modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
-            modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
-            modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
-    ) -> _catalog.QualifiedPath:
-        if _is_generic_specialization(base):
-            base_name = _serialization.to_identifier(base)
-            base_object_path = (base_name,)
-            if base_name not in specializations_module_scope:
-                specialization_args = _unpack_ast_node(
-                        _subscript_to_item(base)
+        def register_members(
+                object_path: _catalog.Path,
+                generic_module_path: _catalog.Path,
+                generic_object_path: _catalog.Path,
+                table: _t.Dict[_catalog.Path, _ast.expr],
+                *,
+                constructor_name: str = object.__new__.__name__
+        ) -> None:
+            name, = object_path
+            scope = specializations_module_scope[name] = {}
+            specializations_nodes_kinds[object_path] = _NodeKind.CLASS
+            generic_scope = modules_definitions[generic_module_path]
+            for part in generic_object_path:
+                generic_scope = generic_scope[part]
+            generic_ast_nodes = modules_ast_nodes[generic_module_path]
+            members_references = {
+                reference_path[-1]: qualified_path
+                for reference_path, qualified_path in (
+                    modules_references[generic_module_path].items()
                 )
-                generic_object_path = _conversion.to_path(base.value)
-                generic_module_path, generic_object_path = (
-                    _scoping.resolve_object_path(
-                            child_module_path, child_object_path[:-1],
-                            generic_object_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
-                    )
+                if reference_path[:-1] == generic_object_path
+            }
+            # nested classes are not specialized
+            members_references.update({
+                member_name: (generic_module_path,
+                              (*generic_object_path, member_name))
+                for member_name in generic_scope
+                if (*generic_object_path, member_name) not in generic_ast_nodes
+            })
+            for member_name, (
+                    referent_module_path, referent_object_path
+            ) in members_references.items():
+                specializations_references[(name, member_name)] = (
+                    (specializations_module_path,
+                     (name, *referent_object_path[-1:]))
+                    if (referent_module_path == generic_module_path
+                        and referent_object_path[:-1] == generic_object_path
+                        and referent_object_path in generic_ast_nodes)
+                    else (referent_module_path, referent_object_path)
                 )
-                generic_parameters_paths = generics_parameters_paths[
-                    (generic_module_path, generic_object_path)
+            specialize = to_specializer(
+                    table, generic_module_path, generic_object_path,
+                    ambiguous_names={*generic_scope, *members_references},
+                    rename_builtins=False
+            )
+            # named tuples constructors are not present in definitions
+            for member_name in [*generic_scope, constructor_name]:
+                generic_member_path = (*generic_object_path, member_name)
+                if generic_member_path not in generic_ast_nodes:
+                    continue
+                if member_name in generic_scope:
+                    scope[member_name] = generic_scope[member_name]
+                specializations_ast_nodes[(name, member_name)] = [
+                    specialize(_deepcopy(ast_node))
+                    for ast_node in generic_ast_nodes[generic_member_path]
                 ]
-                _register_generic_specialization(
-                        generic_module_path, generic_object_path,
-                        child_module_path, base_object_path,
-                        generic_parameters_paths,
-                        specialization_args, specializations_ast_nodes,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
+                specializations_nodes_kinds[(name, member_name)] = (
+                    modules_nodes_kinds[generic_module_path][
+                        generic_member_path
+                    ]
                 )
-                assert base_object_path not in modules_superclasses.get(
-                        specializations_module_path, {}
+            for base in classes_bases[(generic_module_path,
+                                       generic_object_path)]:
+                base_module_path, base_object_path = register_base(
+                        base, generic_module_path, generic_object_path[:-1],
+                        table
                 )
-                specialization_table = dict(zip(generic_parameters_paths,
-                                                specialization_args))
-                specialize = _SpecializeGeneric(specialization_table).visit
-                generic_bases = classes_bases[(generic_module_path,
-                                               generic_object_path)]
-                for generic_base in generic_bases:
-                    base_base_module_path: _catalog.Path
-                    base_base_object_path: _catalog.Path
-                    if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(generic_base)
-                        base_base_name = _serialization.to_identifier(
-                                base_base_node
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            specializations_module_path, (base_base_name,)
-                        )
-                        if base_base_name not in specializations_module_scope:
-                            generic_base_base_object_path = (
-                                _conversion.to_path(generic_base.value)
-                            )
-                            (
-                                generic_base_base_module_path,
-                                generic_base_base_object_path
-                            ) = _scoping.resolve_object_path(
-                                    generic_module_path,
-                                    generic_object_path[:-1],
-                                    generic_base_base_object_path,
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                            generic_base_base_parameters_paths = (
-                                generics_parameters_paths[
-                                    (generic_base_base_module_path,
-                                     generic_base_base_object_path)
-                                ]
-                            )
-                            base_base_specialization_args = _unpack_ast_node(
-                                    _subscript_to_item(base_base_node)
-                            )
-                            _register_generic_specialization(
-                                    generic_base_base_module_path,
-                                    generic_base_base_object_path,
-                                    child_module_path, base_base_object_path,
-                                    generic_base_base_parameters_paths,
-                                    base_base_specialization_args,
-                                    specializations_ast_nodes,
-                                    specializations_module_scope,
-                                    specializations_nodes_kinds,
-                                    specializations_references,
-                                    modules_ast_nodes, modules_definitions,
-                                    modules_nodes_kinds, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                    else:
-                        base_base_object_path = _conversion.to_path(
-                                generic_base
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            _scoping.resolve_object_path(
-                                    generic_module_path, (),
-                                    base_base_object_path, modules_definitions,
-                                    modules_references, modules_submodules,
-                                    modules_superclasses
-                            )
-                        )
-                    modules_superclasses.setdefault(
-                            specializations_module_path, {}
-                    ).setdefault(base_object_path, []).append(
-                            (base_base_module_path, base_base_object_path)
-                    )
-            return specializations_module_path, base_object_path
-        else:
-            base_reference_path = _conversion.to_path(base)
-            return _scoping.resolve_object_path(
-                    child_module_path, child_object_path[:-1],
-                    base_reference_path, modules_definitions,
-                    modules_references, modules_submodules,
-                    modules_superclasses
-            )
-
+                modules_superclasses.setdefault(
+                        specializations_module_path, {}
+                ).setdefault(object_path, []).append((base_module_path,
+                                                      base_object_path))
 
-    def _register_generic_specialization(
-            generic_module_path: _catalog.Path,
-            generic_object_path: _catalog.Path,
-            specialization_module_path: _catalog.Path,
-            specialization_object_path: _catalog.Path,
-            generic_parameters_paths: _t.Sequence[_catalog.Path],
-            specialization_args: _t.Sequence[_ast.expr],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
-            modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
-            modules_definitions: _t.Dict[_catalog.Path, _Scope],
-            modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
-            modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
-            modules_submodules: _t.Mapping[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Mapping[
-                _catalog.Path, _ModuleSuperclasses
-            ],
-            builtins_module_path: _catalog.Path
-            = _catalog.module_path_from_module(_builtins),
-            constructor_name: str = object.__new__.__name__
-    ) -> None:
-        base_scope = specializations_module_scope
-        for part in specialization_object_path:
-            base_scope = base_scope.setdefault(part, {})
-        generic_scope = modules_definitions[generic_module_path]
-        for part in generic_object_path:
-            generic_scope = generic_scope[part]
-        base_scope.update(generic_scope)
-        generic_module_ast_nodes = modules_ast_nodes[generic_module_path]
-        specializations_nodes_kinds[
-            specialization_object_path
-        ] = _NodeKind.CLASS
-        specialize = _SpecializeGeneric(
-                dict(zip(generic_parameters_paths, specialization_args))
-        ).visit
-        args_names = (
-                {arg.id
-                 for arg in specialization_args
-                 if _is_dependency_name(arg)}
-                | {child.id
-                   for ast_node in specialization_args
-                   for child in _recursively_iterate_children(ast_node)
-                   if _is_dependency_name(child)}
-        )
-        # named tuples constructors are not present in definitions
-        for name in dict.fromkeys(
-                chain(generic_scope.keys(),
-                      [constructor_name]
-                      if ((*generic_object_path, constructor_name)
-                          in generic_module_ast_nodes)
-                      else [])
+        for (class_module_path, class_object_path), class_bases in (
+                classes_bases.items()
         ):
-            generic_field_path = (*generic_object_path, name)
-            generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
-            specialization_field_path = (*specialization_object_path, name)
-            specialization_ast_nodes = specializations_ast_nodes[
-                specialization_field_path
-            ] = [specialize(_deepcopy(ast_node))
-                 for ast_node in generic_ast_nodes]
-            specialization_definitions_names = set(
-                    chain.from_iterable(
-                            _conversion.to_names(ast_node)
-                            for ast_node in specialization_ast_nodes
-                    )
-            )
-            for dependency_name in (
-                    {child.id
-                     for ast_node in specialization_ast_nodes
-                     for child in _recursively_iterate_children(ast_node)
-                     if _is_dependency_name(child)}
-                    - specialization_definitions_names
-            ):
-                dependency_path = (dependency_name,)
-                dependency_module_path, dependency_object_path = (
-                    _scoping.resolve_object_path(
-                            (specialization_module_path
-                             if dependency_name in args_names
-                             else generic_module_path), (),
-                            dependency_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
-                    )
+            for base in class_bases:
+                base_module_path, base_object_path = register_base(
+                        base, class_module_path, class_object_path[:-1], {}
                 )
-                if dependency_module_path != builtins_module_path:
-                    specializations_references[dependency_path] = (
-                        dependency_module_path, dependency_object_path
-                    )
-            specializations_nodes_kinds[specialization_field_path] = (
-                modules_nodes_kinds[generic_module_path][generic_field_path]
-            )
+                modules_superclasses.setdefault(
+                        class_module_path, {}
+                ).setdefault(class_object_path, []).append((base_module_path,
+                                                            base_object_path))
 
 
     if _execution.is_main_process():
-- 
2.43.0


From e34a1d3744663b3161c57d0ed3e411b853cf21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 30/63] fix: parameters of generics in stubs are collected in
 order of declaration

---
 paradigm/_core/stubs.py | 80 ++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 057497f..d72a0f6 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -271,7 +271,7 @@ if _reload_cache:
                         _conversion.to_maybe_path(argument)
                         for argument in _collect_type_args(base)
                     ]
-                    type_vars_local_paths += [
+                    base_type_vars_local_paths = [
                         maybe_object_path
                         for maybe_object_path in type_args_maybe_objects_paths
                         if (maybe_object_path is not None
@@ -286,7 +286,10 @@ if _reload_cache:
                                     base_origin_maybe_object_path
                             ) in [(typing_module_path, generic_object_path),
                                   (typing_module_path, protocol_object_path)]):
+                        # defines order of parameters
+                        type_vars_local_paths[:0] = base_type_vars_local_paths
                         continue
+                    type_vars_local_paths += base_type_vars_local_paths
                 else:
                     base_reference_path = _conversion.to_path(base)
                     assert (
@@ -454,19 +457,32 @@ if _reload_cache:
         def _is_type_var_object_path(
                 self, object_path: _catalog.Path,
                 *,
-                type_var_object_path: _catalog.Path
-                = _catalog.path_from_string(_t.TypeVar.__qualname__),
-                typing_module_path: _catalog.Path
-                = _catalog.module_path_from_module(_t),
+                type_vars_qualified_paths: _t.Collection[
+                    _catalog.QualifiedPath
+                ] = tuple((module_path, object_path)
+                          for module_path in (('typing',),
+                                              ('typing_extensions',))
+                          for object_path in (('ParamSpec',), ('TypeVar',)))
         ) -> bool:
             module_path, object_path = self._to_qualified_path(object_path)
-            _parse_stub_scope(
-                    module_path, self.modules_ast_nodes,
-                    self.modules_ast_nodes_kinds, self.modules_definitions,
-                    self.modules_references, self.modules_submodules,
-                    self.modules_superclasses, self.visited_modules_paths,
-                    self.classes_bases, self.generics_parameters_paths
-            )
+            while object_path:
+                try:
+                    referent_path = _resolve_object_path(
+                            module_path, (), object_path,
+                            self.modules_ast_nodes,
+                            self.modules_ast_nodes_kinds,
+                            self.modules_definitions, self.modules_references,
+                            self.modules_submodules, self.modules_superclasses,
+                            self.visited_modules_paths, self.classes_bases,
+                            self.generics_parameters_paths
+                    )
+                except _ObjectNotFound:
+                    return False
+                if referent_path == (module_path, object_path):
+                    break
+                module_path, object_path = referent_path
+            else:
+                return False
             module_ast_nodes = self.modules_ast_nodes[module_path]
             ast_nodes = module_ast_nodes.get(object_path, [])
             if len(ast_nodes) != 1:
@@ -480,18 +496,14 @@ if _reload_cache:
             )
             if callable_maybe_object_path is None:
                 return False
-            callable_module_path, callable_object_path = (
-                _resolve_object_path(
-                        module_path, (), callable_maybe_object_path,
-                        self.modules_ast_nodes, self.modules_ast_nodes_kinds,
-                        self.modules_definitions, self.modules_references,
-                        self.modules_submodules, self.modules_superclasses,
-                        self.visited_modules_paths, self.classes_bases,
-                        self.generics_parameters_paths
-                )
-            )
-            return (callable_module_path == typing_module_path
-                    and callable_object_path == type_var_object_path)
+            return _resolve_object_path(
+                    module_path, (), callable_maybe_object_path,
+                    self.modules_ast_nodes, self.modules_ast_nodes_kinds,
+                    self.modules_definitions, self.modules_references,
+                    self.modules_submodules, self.modules_superclasses,
+                    self.visited_modules_paths, self.classes_bases,
+                    self.generics_parameters_paths
+            ) in type_vars_qualified_paths
 
 
     class _ObjectNotFound(Exception):
@@ -620,17 +632,19 @@ if _reload_cache:
 
     def _collect_type_args(ast_node: _ast.expr) -> _t.List[_ast.expr]:
         if _is_generic_specialization(ast_node):
-            queue = [_subscript_to_item(ast_node)]
             args: _t.List[_ast.expr] = []
+            queue = [_subscript_to_item(ast_node)]
             while queue:
-                specialization_node = queue.pop()
-                candidates = _unpack_ast_node(specialization_node)
-                for candidate in reversed(candidates):
-                    if _is_generic_specialization(candidate):
-                        queue.append(_subscript_to_item(candidate))
-                    else:
-                        args.append(candidate)
-            return args[::-1]
+                candidate = queue.pop()
+                if _is_generic_specialization(candidate):
+                    queue.append(_subscript_to_item(candidate))
+                elif isinstance(candidate, (_ast.List, _ast.Tuple)):
+                    queue.extend(reversed(candidate.elts))
+                elif isinstance(candidate, _ast.BinOp):
+                    queue += [candidate.right, candidate.left]
+                else:
+                    args.append(candidate)
+            return args
         else:
             return []
 
-- 
2.43.0


From f739cf3655344ccc75fc4a831cc2cf2bea87f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 31/63] fix: class methods and constructors of re-exported
 classes get signatures from stubs

---
 paradigm/_core/signatures.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index e7a5edb..f494f5f 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -520,9 +520,11 @@ def resolve_qualified_paths(
         candidates_paths = _qualified_paths[module_path][object_path]
     except KeyError:
         assert not module_path or object_path, value
-        qualified_paths = ([(module_path, object_path)]
-                           if module_path and not _is_namesake(value)
-                           else [])
+        qualified_paths = (_to_class_attribute_qualified_paths(value,
+                                                               own_path)
+                           or ([(module_path, object_path)]
+                               if module_path and not _is_namesake(value)
+                               else []))
     else:
         qualified_paths = [path
                            for path in candidates_paths
@@ -563,6 +565,33 @@ def _to_class_builder_qualified_path(
     return object_builder_qualified_path
 
 
+def _to_class_attribute_qualified_paths(
+        value: _t.Callable[..., _t.Any], own_path: _catalog.QualifiedPath
+) -> _t.List[_catalog.QualifiedPath]:
+    # class methods & constructors are accessible from all locations of a class
+    module_path, object_path = own_path
+    class_paths = _qualified_paths.get(module_path, {}).get(
+            _catalog.path_to_parent(object_path), []
+    )
+    return [(class_module_path, (*class_path, object_path[-1]))
+            for class_module_path, class_path in class_paths
+            if _class_has_attribute(class_module_path, class_path,
+                                    object_path[-1], value)]
+
+
+def _class_has_attribute(module_path: _catalog.Path,
+                         class_path: _catalog.Path,
+                         name: str,
+                         value: _t.Callable[..., _t.Any]) -> bool:
+    candidate: _t.Any = _sys.modules.get(_catalog.path_to_string(module_path))
+    try:
+        for part in (*class_path, name):
+            candidate = getattr(candidate, part)
+    except AttributeError:
+        return False
+    return candidate == value or getattr(candidate, '__func__', None) is value
+
+
 def _value_has_qualified_path(value: _t.Any,
                               path: _catalog.QualifiedPath) -> bool:
     module_path, object_path = path
-- 
2.43.0


From e8455f96802911ab2cc0f33ea0db7c1d757a3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 32/63] fix: attributes of modules and classes are not looked
 up among builtins

---
 paradigm/_core/modules.py    |  2 +-
 paradigm/_core/scoping.py    | 45 +++++++++++++++++++++++++++---------
 paradigm/_core/signatures.py |  6 ++---
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/paradigm/_core/modules.py b/paradigm/_core/modules.py
index 1e6aae4..2831f66 100644
--- a/paradigm/_core/modules.py
+++ b/paradigm/_core/modules.py
@@ -66,7 +66,7 @@ if _reload_cache:
                         (located_module_path, located_object_path)
                         for located_module_path, located_object_path
                         in object_qualified_paths
-                        if _scoping.contains_object_path(
+                        if _scoping.contains_attribute_path(
                                 located_module_path, (), located_object_path,
                                 definitions, references, submodules,
                                 superclasses
diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 83148d6..1a03fe6 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -55,7 +55,7 @@ def linearize(
     return result
 
 
-def contains_object_path(
+def contains_attribute_path(
         module_path: catalog.Path,
         parent_path: catalog.Path,
         object_path: catalog.Path,
@@ -65,7 +65,7 @@ def contains_object_path(
         modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses]
 ) -> bool:
     try:
-        resolve_object_path(
+        resolve_attribute_path(
                 module_path, parent_path, object_path, modules_definitions,
                 modules_references, modules_submodules, modules_superclasses
         )
@@ -76,6 +76,32 @@ def contains_object_path(
 
 
 def resolve_object_path(
+        module_path: catalog.Path,
+        parent_path: catalog.Path,
+        object_path: catalog.Path,
+        modules_definitions: t.Mapping[catalog.Path, Scope],
+        modules_references: t.Mapping[catalog.Path, ModuleReferences],
+        modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
+        _builtins_module_path: catalog.Path
+        = catalog.module_path_from_module(builtins)
+) -> catalog.QualifiedPath:
+    try:
+        return resolve_attribute_path(
+                module_path, parent_path, object_path, modules_definitions,
+                modules_references, modules_submodules, modules_superclasses
+        )
+    except ObjectNotFound:
+        if (module_path in modules_definitions
+                and scope_contains_path(
+                        modules_definitions[_builtins_module_path],
+                        object_path
+                )):
+            return _builtins_module_path, object_path
+        raise
+
+
+def resolve_attribute_path(
         module_path: catalog.Path,
         parent_path: catalog.Path,
         object_path: catalog.Path,
@@ -99,7 +125,7 @@ def resolve_object_path(
                                      (*parent_path, object_path[0]))
                  or ((*parent_path, object_path[0])
                      in modules_references[module_path]))):
-        return resolve_object_path(
+        return resolve_attribute_path(
                 module_path, (), parent_path + object_path,
                 modules_definitions, modules_references, modules_submodules,
                 modules_superclasses, *visited_modules_paths
@@ -124,7 +150,7 @@ def resolve_object_path(
                             modules_definitions[class_module_path], member_path
                     ):
                         continue
-                    return resolve_object_path(
+                    return resolve_attribute_path(
                             class_module_path, (),
                             member_path + object_path[index + 1:],
                             modules_definitions, modules_references,
@@ -132,7 +158,7 @@ def resolve_object_path(
                             *visited_modules_paths, module_path
                     )
                 if object_path[0] != object.__name__:
-                    return resolve_object_path(
+                    return resolve_attribute_path(
                             _builtins_module_path, (),
                             (object.__name__,) + object_path[index:],
                             modules_definitions, modules_references,
@@ -146,7 +172,7 @@ def resolve_object_path(
         for sub_module_path in modules_submodules.get(module_path, []):
             if sub_module_path not in visited_modules_paths:
                 try:
-                    return resolve_object_path(
+                    return resolve_attribute_path(
                             sub_module_path, (), object_path,
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
@@ -166,7 +192,7 @@ def resolve_object_path(
             else:
                 try:
                     referent_module_path, referent_object_path = (
-                        resolve_object_path(
+                        resolve_attribute_path(
                                 referent_module_path, (), referent_object_path,
                                 modules_definitions, modules_references,
                                 modules_submodules, modules_superclasses,
@@ -181,7 +207,7 @@ def resolve_object_path(
                     assert (
                             referent_module_path in modules_definitions
                     ), (module_path, object_path)
-                return resolve_object_path(
+                return resolve_attribute_path(
                         referent_module_path, (),
                         referent_object_path
                         + object_path[len(object_path) - offset:],
@@ -189,7 +215,4 @@ def resolve_object_path(
                         modules_submodules, modules_superclasses,
                         *visited_modules_paths, module_path
                 )
-        if scope_contains_path(modules_definitions[_builtins_module_path],
-                               object_path):
-            return _builtins_module_path, object_path
         raise ObjectNotFound((module_path, object_path))
diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index f494f5f..bc8b107 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -423,11 +423,11 @@ class _SignatureNotFound(Exception):
     pass
 
 
-def _try_resolve_object_path(
+def _try_resolve_attribute_path(
         module_path: _catalog.Path, object_path: _catalog.Path
 ) -> _catalog.QualifiedPath:
     try:
-        return _scoping.resolve_object_path(
+        return _scoping.resolve_attribute_path(
                 module_path, (), object_path, _stubs.definitions,
                 _stubs.references, _stubs.submodules, _stubs.superclasses
         )
@@ -533,7 +533,7 @@ def resolve_qualified_paths(
     return sorted({
         (module_path, object_path)
         for module_path, object_path in [
-            _try_resolve_object_path(module_path, object_path)
+            _try_resolve_attribute_path(module_path, object_path)
             for module_path, object_path in qualified_paths
         ]
         if module_path and object_path
-- 
2.43.0


From bac2351741d155b53320a04dc1804913e3b20eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 33/63] fix: extension modules of standard library are indexed

---
 paradigm/_core/sources.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index 9ad7d19..a75f657 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -82,6 +82,10 @@ stubs_stdlib_modules_paths = sorted(_stubs_cache.keys())
 _sources_directories = {
     Path(sysconfig.get_path('platstdlib')), Path(sysconfig.get_path('stdlib'))
 }
+_extensions_directory = sysconfig.get_config_var('DESTSHARED')
+if _extensions_directory is not None and Path(_extensions_directory).is_dir():
+    # is not a package, so modules from it are top-level ones
+    _sources_directories.add(Path(_extensions_directory))
 
 
 def _to_modules_paths(root: Path) -> t.Iterable[catalog.Path]:
@@ -111,7 +115,8 @@ def _is_valid_module_path(module_path: catalog.Path) -> bool:
             and 'tests' not in module_path
             and module_path[-1] != '__main__'
             and all((part.isidentifier()
-                     and not part.startswith(('_test', 'test_'))
+                     # test, example & experimental modules
+                     and not part.startswith(('_test', 'test_', '_xx', 'xx'))
                      and not part.endswith('_test'))
                     for part in module_path))
 
-- 
2.43.0


From 23afcde449dbbce1e1b56eec8baa5093f0d1921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 34/63] fix: aliases of members of modules imported from
 packages are resolved

---
 paradigm/_core/scoping.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 1a03fe6..f42b3b9 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -190,23 +190,14 @@ def resolve_attribute_path(
             except KeyError:
                 continue
             else:
-                try:
-                    referent_module_path, referent_object_path = (
-                        resolve_attribute_path(
-                                referent_module_path, (), referent_object_path,
-                                modules_definitions, modules_references,
-                                modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
-                        )
+                referent_module_path, referent_object_path = (
+                    resolve_attribute_path(
+                            referent_module_path, (), referent_object_path,
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses,
+                            *visited_modules_paths, module_path
                     )
-                except ObjectNotFound:
-                    assert (len(referent_object_path) == 1), (module_path,
-                                                              object_path)
-                    referent_module_path += referent_object_path
-                    referent_object_path = ()
-                    assert (
-                            referent_module_path in modules_definitions
-                    ), (module_path, object_path)
+                )
                 return resolve_attribute_path(
                         referent_module_path, (),
                         referent_object_path
@@ -215,4 +206,12 @@ def resolve_attribute_path(
                         modules_submodules, modules_superclasses,
                         *visited_modules_paths, module_path
                 )
+        child_module_path = module_path + object_path[:1]
+        if child_module_path in modules_definitions:
+            return resolve_attribute_path(
+                    child_module_path, (), object_path[1:],
+                    modules_definitions, modules_references,
+                    modules_submodules, modules_superclasses,
+                    *visited_modules_paths, module_path
+            )
         raise ObjectNotFound((module_path, object_path))
-- 
2.43.0


From e6aeb510567209f1cc039422077079a62af7d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 35/63] fix: last of names bound by imports and star imports
 takes precedence

---
 paradigm/_core/scoping.py | 22 +++++++++++-----------
 paradigm/_core/stubs.py   | 28 ++++++++++++++--------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index f42b3b9..9614921 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -169,17 +169,6 @@ def resolve_attribute_path(
                     raise ObjectNotFound((module_path, object_path))
         return (module_path, object_path)
     else:
-        for sub_module_path in modules_submodules.get(module_path, []):
-            if sub_module_path not in visited_modules_paths:
-                try:
-                    return resolve_attribute_path(
-                            sub_module_path, (), object_path,
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            *visited_modules_paths, module_path
-                    )
-                except ObjectNotFound:
-                    continue
         module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
@@ -206,6 +195,17 @@ def resolve_attribute_path(
                         modules_submodules, modules_superclasses,
                         *visited_modules_paths, module_path
                 )
+        for sub_module_path in modules_submodules.get(module_path, []):
+            if sub_module_path not in visited_modules_paths:
+                try:
+                    return resolve_attribute_path(
+                            sub_module_path, (), object_path,
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses,
+                            *visited_modules_paths, module_path
+                    )
+                except ObjectNotFound:
+                    continue
         child_module_path = module_path + object_path[:1]
         if child_module_path in modules_definitions:
             return resolve_attribute_path(
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index d72a0f6..c52bdb6 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -420,9 +420,10 @@ if _reload_cache:
             )
 
         def _add_submodule(self, module_path: _catalog.Path) -> None:
+            # the last ones have precedence
             self.modules_submodules.setdefault(
                     self.module_path, []
-            ).append(module_path)
+            ).insert(0, module_path)
 
         def _add_superclass(self,
                             child_path: _catalog.Path,
@@ -550,19 +551,6 @@ if _reload_cache:
             return referent_module_path, referent_object_path + object_path[1:]
         elif first_name in module_definitions:
             return module_path, object_path
-        else:
-            for sub_module_path in modules_submodules.get(module_path, []):
-                try:
-                    return _resolve_object_path(
-                            sub_module_path, (), object_path,
-                            modules_ast_nodes, modules_ast_nodes_kinds,
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            visited_modules_paths, classes_bases,
-                            generics_parameters_paths
-                    )
-                except _ObjectNotFound:
-                    continue
         module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
@@ -576,6 +564,18 @@ if _reload_cache:
                 return (referent_module_name,
                         (referent_object_path
                          + object_path[len(object_path) - offset:]))
+        for sub_module_path in modules_submodules.get(module_path, []):
+            try:
+                return _resolve_object_path(
+                        sub_module_path, (), object_path,
+                        modules_ast_nodes, modules_ast_nodes_kinds,
+                        modules_definitions, modules_references,
+                        modules_submodules, modules_superclasses,
+                        visited_modules_paths, classes_bases,
+                        generics_parameters_paths
+                )
+            except _ObjectNotFound:
+                continue
         if _scoping.scope_contains_path(
                 modules_definitions[_builtins_module_path], object_path
         ):
-- 
2.43.0


From 83e80b57c7d9be2265efe6e820563587c4ceb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 36/63] fix: private names are not exported by star imports in
 stubs

---
 paradigm/_core/scoping.py |  7 +++++-
 paradigm/_core/stubs.py   | 53 ++++++++++++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 9614921..f4a3693 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -25,6 +25,10 @@ def scope_contains_path(scope: Scope, path: catalog.Path) -> bool:
     return True
 
 
+def is_public_name(name: str) -> bool:
+    return not name.startswith('_')
+
+
 def linearize(
         module_path: catalog.Path,
         object_path: catalog.Path,
@@ -196,7 +200,8 @@ def resolve_attribute_path(
                         *visited_modules_paths, module_path
                 )
         for sub_module_path in modules_submodules.get(module_path, []):
-            if sub_module_path not in visited_modules_paths:
+            if (sub_module_path not in visited_modules_paths
+                    and is_public_name(object_path[0])):
                 try:
                     return resolve_attribute_path(
                             sub_module_path, (), object_path,
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index c52bdb6..5b0acfc 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -90,6 +90,7 @@ if _reload_cache:
         _catalog.Path, _t.List[_catalog.QualifiedPath]
     ]
     _Scope = _t.Dict[str, '_Scope']
+    _EXPORTED_NAMES_VARIABLE_NAME = '__all__'
 
 
     def _named_tuple_to_constructor_ast_node(
@@ -342,6 +343,11 @@ if _reload_cache:
             self._add_ast_node_kind((function_name,), _NodeKind.FUNCTION)
             self._add_name_definition(function_name)
 
+        def visit_AugAssign(self, node: _ast.AugAssign) -> None:
+            target_path = _conversion.to_maybe_path(node.target)
+            if target_path == (_EXPORTED_NAMES_VARIABLE_NAME,):
+                self._add_ast_node(target_path, node)
+
         def visit_If(self, node: _ast.If) -> None:
             namespace: _namespacing.Namespace = {}
             for dependency_name in {
@@ -383,6 +389,10 @@ if _reload_cache:
             for alias in node.names:
                 if alias.name == '*':
                     self._add_submodule(parent_module_path)
+                    for name in self._to_exported_names(parent_module_path):
+                        if not _scoping.is_public_name(name):
+                            self._add_reference((name,), parent_module_path,
+                                                (name,))
                 else:
                     actual_path = _catalog.path_from_string(alias.name)
                     self._add_reference(actual_path
@@ -425,6 +435,24 @@ if _reload_cache:
                     self.module_path, []
             ).insert(0, module_path)
 
+        def _to_exported_names(
+                self, module_path: _catalog.Path
+        ) -> _t.Iterable[str]:
+            _parse_stub_scope(
+                    module_path, self.modules_ast_nodes,
+                    self.modules_ast_nodes_kinds, self.modules_definitions,
+                    self.modules_references, self.modules_submodules,
+                    self.modules_superclasses, self.visited_modules_paths,
+                    self.classes_bases, self.generics_parameters_paths
+            )
+            return [child.value
+                    for ast_node in self.modules_ast_nodes[module_path].get(
+                            (_EXPORTED_NAMES_VARIABLE_NAME,), []
+                    )
+                    for child in _recursively_iterate_children(ast_node)
+                    if (isinstance(child, _ast.Constant)
+                        and isinstance(child.value, str))]
+
         def _add_superclass(self,
                             child_path: _catalog.Path,
                             base_module_path: _catalog.Path,
@@ -564,18 +592,19 @@ if _reload_cache:
                 return (referent_module_name,
                         (referent_object_path
                          + object_path[len(object_path) - offset:]))
-        for sub_module_path in modules_submodules.get(module_path, []):
-            try:
-                return _resolve_object_path(
-                        sub_module_path, (), object_path,
-                        modules_ast_nodes, modules_ast_nodes_kinds,
-                        modules_definitions, modules_references,
-                        modules_submodules, modules_superclasses,
-                        visited_modules_paths, classes_bases,
-                        generics_parameters_paths
-                )
-            except _ObjectNotFound:
-                continue
+        if _scoping.is_public_name(first_name):
+            for sub_module_path in modules_submodules.get(module_path, []):
+                try:
+                    return _resolve_object_path(
+                            sub_module_path, (), object_path,
+                            modules_ast_nodes, modules_ast_nodes_kinds,
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses,
+                            visited_modules_paths, classes_bases,
+                            generics_parameters_paths
+                    )
+                except _ObjectNotFound:
+                    continue
         if _scoping.scope_contains_path(
                 modules_definitions[_builtins_module_path], object_path
         ):
-- 
2.43.0


From fe1009ce06dfbdc916ee4cf16180c137836b3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 37/63] fix: signatures do not depend on which modules are
 imported

---
 paradigm/_core/signatures.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index bc8b107..99faa71 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -8,6 +8,7 @@ import types as _types
 import typing as _t
 from functools import (partial as _partial,
                        singledispatch as _singledispatch)
+from importlib import import_module as _import_module
 from itertools import zip_longest as _zip_longest
 
 from typing_extensions import Self as _Self
@@ -527,7 +528,7 @@ def resolve_qualified_paths(
                                else []))
     else:
         qualified_paths = [path
-                           for path in candidates_paths
+                           for path in _to_decidable(candidates_paths)
                            if _value_has_qualified_path(value, path)]
     # aliases may be described by stubs differently from the object itself
     return sorted({
@@ -574,11 +575,32 @@ def _to_class_attribute_qualified_paths(
             _catalog.path_to_parent(object_path), []
     )
     return [(class_module_path, (*class_path, object_path[-1]))
-            for class_module_path, class_path in class_paths
+            for class_module_path, class_path in _to_decidable(class_paths)
             if _class_has_attribute(class_module_path, class_path,
                                     object_path[-1], value)]
 
 
+def _to_decidable(
+        qualified_paths: _t.Sequence[_catalog.QualifiedPath]
+) -> _t.Sequence[_catalog.QualifiedPath]:
+    # modules are imported only if there is nothing to choose from otherwise
+    result = [path for path in qualified_paths if _is_module_loaded(path[0])]
+    if not result:
+        for module_path, _ in qualified_paths:
+            try:
+                _import_module(_catalog.path_to_string(module_path))
+            except Exception:
+                continue
+        result = [path
+                  for path in qualified_paths
+                  if _is_module_loaded(path[0])]
+    return result
+
+
+def _is_module_loaded(module_path: _catalog.Path) -> bool:
+    return _catalog.path_to_string(module_path) in _sys.modules
+
+
 def _class_has_attribute(module_path: _catalog.Path,
                          class_path: _catalog.Path,
                          name: str,
@@ -597,9 +619,6 @@ def _value_has_qualified_path(value: _t.Any,
     module_path, object_path = path
     module_name = _catalog.path_to_string(module_path)
     candidate = _sys.modules.get(module_name)
-    if candidate is None:
-        # undecidable, let's keep it
-        return not _is_namesake(value)
     for part in object_path:
         try:
             candidate = getattr(candidate, part)
-- 
2.43.0


From c6ea18d507fced47987a4f28ca80872dff87bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 38/63] fix: own declaration of inherited attribute has
 precedence over declarations of its aliases

---
 paradigm/_core/signatures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 99faa71..078f191 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -531,6 +531,9 @@ def resolve_qualified_paths(
                            for path in _to_decidable(candidates_paths)
                            if _value_has_qualified_path(value, path)]
     # aliases may be described by stubs differently from the object itself
+    own_resolved_path = (_try_resolve_attribute_path(*own_path)
+                         if own_path in qualified_paths
+                         else own_path)
     return sorted({
         (module_path, object_path)
         for module_path, object_path in [
@@ -539,7 +542,7 @@ def resolve_qualified_paths(
         ]
         if module_path and object_path
     },
-            key=lambda path: (path != own_path, path))
+            key=lambda path: (path != own_resolved_path, path))
 
 
 def _to_class_builder_qualified_path(
-- 
2.43.0


From eacf10663d2b35a7332c14807eba371624b5b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 39/63] fix: aliases of specialized generics are supported as
 base classes in stubs

---
 paradigm/_core/stubs.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 5b0acfc..52467db 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -859,8 +859,19 @@ if _reload_cache:
                         modules_submodules, modules_superclasses
                 )
             )
-            if (not _is_generic_specialization(base)
-                    or generic_path not in classes_bases):
+            if not _is_generic_specialization(base):
+                for alias_node in modules_ast_nodes[generic_module_path].get(
+                        generic_object_path, []
+                ):
+                    if (isinstance(alias_node, (_ast.AnnAssign, _ast.Assign))
+                            and alias_node.value is not None
+                            and _is_generic_specialization(alias_node.value)):
+                        return register_base(
+                                alias_node.value, generic_module_path,
+                                generic_object_path[:-1], {}
+                        )
+                return generic_path
+            if generic_path not in classes_bases:
                 return generic_path
             specialize_arg = to_specializer(table, module_path, parent_path,
                                             rename_builtins=True)
-- 
2.43.0


From 122a910497bcf4f865588a30c378d04364f9c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 40/63] fix: specializations of dataclasses.InitVar are
 compared & represented structurally

---
 paradigm/_core/annotated.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 2319e35..18c60c2 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -3,6 +3,7 @@ import sys
 import types
 import typing as t
 from collections import abc
+from dataclasses import InitVar
 from functools import singledispatch
 
 from typing_extensions import (Literal,
@@ -79,6 +80,11 @@ def _(left: ParamSpec, right: t.Any) -> bool:
             and left.__covariant__ is right.__covariant__)
 
 
+@are_equal.register(InitVar)
+def _(left: t.Any, right: t.Any) -> bool:
+    return type(left) is type(right) and are_equal(left.type, right.type)
+
+
 @are_equal.register(ParamSpecArgs)
 def _(left: ParamSpecArgs, right: t.Any) -> bool:
     return (type(left) is type(right)
@@ -213,6 +219,11 @@ def _(value: GenericAlias) -> str:
                         else f'{value.__module__}.{value._name}[()]')))
 
 
+@to_repr.register(InitVar)
+def _(value: t.Any) -> str:
+    return f'{to_repr(type(value))}[{to_repr(value.type)}]'
+
+
 @to_repr.register(t.TypeVar)
 def _(value: t.TypeVar) -> str:
     arguments = [repr(value.__name__)]
-- 
2.43.0


From 861baf29598508189c005f837bbfcf07d98c4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 41/63] fix: importing does not fix start method of processes

---
 paradigm/_core/execution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 94defe3..f46a64e 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -18,6 +18,7 @@ def call_in_process(function: t.Callable[..., t.Any],
         caller_module = inspect.getmodule(caller_frame)
         assert caller_module is not None
         main_module = sys.modules.get('__main__')
+        start_method = multiprocessing.get_start_method(allow_none=True)
         try:
             sys.modules['__main__'] = caller_module
             context = multiprocessing.get_context()
@@ -41,6 +42,10 @@ def call_in_process(function: t.Callable[..., t.Any],
                 raise error
             return result
         finally:
+            if start_method is None:
+                # using of the default one prevents from setting another one
+                multiprocessing.set_start_method(None,
+                                                 force=True)
             if main_module is None:
                 del sys.modules['__main__']
             else:
-- 
2.43.0


From c02485c1197691ecd298566fd5c6520f33b055c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 42/63] fix: importing works when warnings are errors

---
 paradigm/_core/arboreal/construction.py |  2 +-
 paradigm/_core/arboreal/conversion.py   |  8 +-------
 paradigm/_core/arboreal/evaluation.py   |  6 +++---
 paradigm/_core/index.py                 | 15 +++++++++++----
 paradigm/_core/stubs.py                 |  2 +-
 5 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/paradigm/_core/arboreal/construction.py b/paradigm/_core/arboreal/construction.py
index 53bf41e..69a166b 100644
--- a/paradigm/_core/arboreal/construction.py
+++ b/paradigm/_core/arboreal/construction.py
@@ -6,7 +6,7 @@ from pathlib import Path
 from .conversion import RawAstNode
 
 _AST_NAMESPACE = vars(ast).copy()
-del _AST_NAMESPACE[ast.Ellipsis.__qualname__]
+_AST_NAMESPACE.pop(repr(Ellipsis), None)
 
 
 def from_node(ast_node: ast.AST) -> ast.Module:
diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index eb13301..a6a52a7 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -53,14 +53,8 @@ def _(ast_node: ast.Subscript) -> str:
             + to_identifier(ast_node.slice))
 
 
-@to_identifier.register(ast.Ellipsis)
-def _(ast_node: ast.Subscript) -> str:
-    return repr(Ellipsis)
-
-
 @to_identifier.register(ast.Constant)
-@to_identifier.register(ast.NameConstant)
-def _(ast_node: ast.NameConstant) -> str:
+def _(ast_node: ast.Constant) -> str:
     return repr(ast_node.value)
 
 
diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 771001d..fa4ca07 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -137,13 +137,13 @@ class _LazyEvaluator(ast.NodeTransformer):
             self, node: ast.AsyncFunctionDef
     ) -> ast.AsyncFunctionDef:
         if node.returns is not None:
-            node.returns = ast.Str(conversion.to_str(node.returns))
+            node.returns = ast.Constant(conversion.to_str(node.returns))
         self.generic_visit(node)
         return node
 
     def visit_FunctionDef(self, node: ast.FunctionDef) -> ast.FunctionDef:
         if node.returns is not None:
-            node.returns = ast.Str(conversion.to_str(node.returns))
+            node.returns = ast.Constant(conversion.to_str(node.returns))
         self.generic_visit(node)
         return node
 
@@ -151,7 +151,7 @@ class _LazyEvaluator(ast.NodeTransformer):
         return ast.arg(node.arg,
                        None
                        if node.annotation is None
-                       else ast.Str(conversion.to_str(node.annotation)),
+                       else ast.Constant(conversion.to_str(node.annotation)),
                        getattr(node, 'type_comment', None))
 
 
diff --git a/paradigm/_core/index.py b/paradigm/_core/index.py
index e6dd2cd..c8c273f 100644
--- a/paradigm/_core/index.py
+++ b/paradigm/_core/index.py
@@ -60,11 +60,18 @@ def _index_module_path(module_path: catalog.Path,
                        paths: QualifiedPaths) -> None:
     module_name = catalog.path_to_string(module_path)
     try:
-        module = import_module(module_name)
+        with warnings.catch_warnings():
+            # importing should not depend on whether warnings are errors
+            warnings.simplefilter('ignore')
+            module = import_module(module_name)
     except Exception as error:
-        warnings.warn(f'Failed importing module "{module_name}". '
-                      f'Reason:\n{pretty.format_exception(error)}',
-                      ImportWarning)
+        try:
+            warnings.warn(f'Failed importing module "{module_name}". '
+                          f'Reason:\n{pretty.format_exception(error)}',
+                          ImportWarning)
+        except ImportWarning:
+            # warnings are errors, remaining modules should be indexed anyway
+            pass
     else:
         _index_module_or_type(module,
                               paths=paths,
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 52467db..5ae2162 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -106,7 +106,7 @@ if _reload_cache:
         return _ast.FunctionDef(
                 '__new__',
                 _annotations_to_signature(annotations_ast_nodes),
-                [_ast.Expr(_ast.Ellipsis())], [],
+                [_ast.Expr(_ast.Constant(Ellipsis))], [],
                 _ast.Name(ast_node.name, _ast.Load())
         )
 
-- 
2.43.0


From 5a3f207b0e16a1d3bf72d07c565c9d934ce5316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 43/63] fix: parsing of stubs does not depend on the locale

---
 paradigm/_core/arboreal/construction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/construction.py b/paradigm/_core/arboreal/construction.py
index 69a166b..6d9723c 100644
--- a/paradigm/_core/arboreal/construction.py
+++ b/paradigm/_core/arboreal/construction.py
@@ -22,4 +22,5 @@ def from_raw(raw: RawAstNode,
 
 
 def from_source_path(path: Path) -> ast.Module:
-    return ast.parse(path.read_text())
+    # encoding of source code does not depend on the locale
+    return ast.parse(path.read_bytes())
-- 
2.43.0


From 58b28c5f21ec47c948b1360217a337fd2d7109e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 44/63] fix: importing works without main module

---
 paradigm/_core/execution.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index f46a64e..13ba20b 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -1,4 +1,3 @@
-import inspect
 import multiprocessing
 import sys
 import threading
@@ -14,9 +13,9 @@ def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
     with threading.Lock():
-        caller_frame = inspect.stack()[1].frame
-        caller_module = inspect.getmodule(caller_frame)
-        assert caller_module is not None
+        # functions of `inspect` module rely on presence of the main module
+        caller_frame = sys._getframe(1)
+        caller_module = sys.modules[caller_frame.f_globals['__name__']]
         main_module = sys.modules.get('__main__')
         start_method = multiprocessing.get_start_method(allow_none=True)
         try:
-- 
2.43.0


From 24379cf58fcdff8da3d634f6eac93a9dbae7735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 45/63] fix: callables with arbitrary names of modules and
 objects are supported

---
 paradigm/_core/catalog.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/paradigm/_core/catalog.py b/paradigm/_core/catalog.py
index 9c409a1..744c20e 100644
--- a/paradigm/_core/catalog.py
+++ b/paradigm/_core/catalog.py
@@ -35,8 +35,7 @@ def _(
         value: _t.Union[_types.BuiltinFunctionType, _types.BuiltinMethodType]
 ) -> QualifiedPath:
     self = value.__self__
-    return ((path_from_string(self.__module__),
-             path_from_string(value.__qualname__))
+    return (_to_qualified_path(self.__module__, value.__qualname__)
             if isinstance(self, type)
             else ((path_from_string(self.__name__
                                     if self.__spec__ is None
@@ -51,10 +50,7 @@ def _(
 
 @qualified_path_from.register(_types.FunctionType)
 def _(value: _types.FunctionType) -> QualifiedPath:
-    return (()
-            if value.__module__ is None
-            else path_from_string(value.__module__),
-            path_from_string(value.__qualname__))
+    return _to_qualified_path(value.__module__, value.__qualname__)
 
 
 @_decorate_if(qualified_path_from.register(_types.MemberDescriptorType),
@@ -70,16 +66,16 @@ def _(
                         _types.MethodDescriptorType, _types.MethodWrapperType,
                         _types.WrapperDescriptorType]
 ) -> QualifiedPath:
-    return (path_from_string(value.__objclass__.__module__),
-            path_from_string(value.__qualname__))
+    return _to_qualified_path(value.__objclass__.__module__, value.__qualname__)
 
 
 @_decorate_if(qualified_path_from.register(_types.MemberDescriptorType),
               _sys.implementation.name == 'pypy')
 def _(value: _types.MemberDescriptorType) -> QualifiedPath:
-    return (path_from_string(value.__objclass__.__module__),
-            (*path_from_string(value.__objclass__.__qualname__),
-             value.__name__))
+    class_ = value.__objclass__
+    module_path, class_path = _to_qualified_path(class_.__module__,
+                                                 class_.__qualname__)
+    return module_path, (*class_path, value.__name__)
 
 
 @qualified_path_from.register(staticmethod)
@@ -92,8 +88,18 @@ def _(value: 'staticmethod[_t.Any]') -> QualifiedPath:
 
 @qualified_path_from.register(type)
 def _(value: type) -> QualifiedPath:
-    return (path_from_string(value.__module__),
-            path_from_string(value.__qualname__))
+    return _to_qualified_path(value.__module__, value.__qualname__)
+
+
+def _to_qualified_path(module_name: _t.Any,
+                       object_name: _t.Any) -> QualifiedPath:
+    # names can be arbitrary objects
+    return ((path_from_string(module_name)
+             if isinstance(module_name, str)
+             else (),
+             path_from_string(object_name))
+            if isinstance(object_name, str)
+            else ((), ()))
 
 
 def is_attribute(path: Path) -> bool:
-- 
2.43.0


From d2374511b63e846d3daa70acd376ad8a539bec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 46/63] fix: mocks of methods of builtin classes are supported

---
 paradigm/_core/signatures.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 078f191..d4f117f 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -100,8 +100,6 @@ def _(
             _types.MethodDescriptorType, _types.WrapperDescriptorType
         ]
 ) -> _Signature:
-    cls = _callable.__objclass__
-    assert isinstance(cls, type), _callable
     try:
         return _from_callable(_callable)
     except _SignatureNotFound:
-- 
2.43.0


From 35c73c51704717f3382350e0813579ddc1bf40f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 47/63] fix: callables declared by unsupported expressions have
 runtime signatures

---
 paradigm/_core/signatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index d4f117f..6b98619 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -131,7 +131,7 @@ def _from_expression_node(ast_node: _ast.expr,
                           callable_: _t.Callable[..., _t.Any],
                           module_path: _catalog.Path,
                           parent_path: _catalog.Path) -> _Signature:
-    raise TypeError(ast_node)
+    raise _SignatureNotFound
 
 
 @_from_expression_node.register(_ast.Attribute)
-- 
2.43.0


From 6449e23bcb2d5fcc01a1642c9ac7fbdad94d9969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 48/63] fix: annotations of callables with omitted values are
 respected

---
 paradigm/_core/signatures.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 6b98619..2fb5d1b 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -272,10 +272,15 @@ def _(ast_node: _ast.AnnAssign,
       callable_: _t.Callable[..., _t.Any],
       module_path: _catalog.Path,
       parent_path: _catalog.Path) -> _Signature:
-    return _from_expression_node((ast_node.annotation
-                                  if ast_node.value is None
-                                  else ast_node.value), callable_, module_path,
-                                 parent_path)
+    value_node = ast_node.value
+    return _from_expression_node(
+            (ast_node.annotation
+             if (value_node is None
+                 # value is omitted
+                 or (isinstance(value_node, _ast.Constant)
+                     and value_node.value is Ellipsis))
+             else value_node), callable_, module_path, parent_path
+    )
 
 
 @_from_statement_node.register(_ast.Assign)
-- 
2.43.0


From 855c6c13e06e189987f7c7e850c7193d469ee3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 49/63] fix: callables annotated by unrestricted type variables
 are supported

---
 paradigm/_core/signatures.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 2fb5d1b..59371ca 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -191,16 +191,16 @@ def _(ast_node: _ast.Call,
                                       for keyword in ast_node.keywords
                                       if keyword.arg == 'bound'),
                                      None)
-        return (
-            _from_signatures(
-                    *[_from_expression_node(argument, callable_, module_path,
+        if maybe_bound_type_node is not None:
+            return _from_expression_node(maybe_bound_type_node, callable_,
+                                         module_path, parent_path)
+        constraints_nodes = ast_node.args[1:]
+        if constraints_nodes:
+            return _from_signatures(
+                    *[_from_expression_node(node, callable_, module_path,
                                             parent_path)
-                      for argument in ast_node.args[1:]]
+                      for node in constraints_nodes]
             )
-            if maybe_bound_type_node is None
-            else _from_expression_node(maybe_bound_type_node, callable_,
-                                       module_path, parent_path)
-        )
     raise _SignatureNotFound
 
 
-- 
2.43.0


From 7fa5363a7f24612b1539d81be84df6856b95f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 50/63] fix: submodules imported by their own packages are
 resolved

---
 paradigm/_core/stubs.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 5ae2162..468da90 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -395,10 +395,17 @@ if _reload_cache:
                                                 (name,))
                 else:
                     actual_path = _catalog.path_from_string(alias.name)
-                    self._add_reference(actual_path
-                                        if alias.asname is None
-                                        else (alias.asname,),
-                                        parent_module_path, actual_path)
+                    reference_path = (actual_path
+                                      if alias.asname is None
+                                      else (alias.asname,))
+                    if parent_module_path == self.module_path:
+                        # packages import their own submodules
+                        self._add_reference(reference_path,
+                                            parent_module_path + actual_path,
+                                            ())
+                    else:
+                        self._add_reference(reference_path,
+                                            parent_module_path, actual_path)
 
         def _add_ast_node(self,
                           path: _catalog.Path,
-- 
2.43.0


From 2dbe6073ee1ad67bcffb913321218f79d94f7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 51/63] fix: positional-only parameters of stubs are not lost

---
 paradigm/_core/signatures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 59371ca..19d484b 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -734,7 +734,8 @@ def _to_positional_parameters(
     # double-reversing since parameters with default arguments go last
     parameters_with_defaults_ast: _t.List[
         _t.Tuple[_ast.arg, _t.Optional[_ast.expr]]
-    ] = list(_zip_longest(reversed(signature_ast.args),
+    ] = list(_zip_longest(reversed([*signature_ast.posonlyargs,
+                                    *signature_ast.args]),
                           signature_ast.defaults[::-1]))[::-1]
     kind = _ParameterKind.POSITIONAL_ONLY
     return [_parameter_from_ast_node(parameter_ast, default_ast, module_path,
-- 
2.43.0


From bb84f886fc0a30c9c46193ae6020bed2b2e93aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 52/63] fix: signatures with defaults not equal to themselves
 are reflexive

---
 paradigm/_core/annotated.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 18c60c2..cbc17b4 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -24,7 +24,8 @@ _SPECIALIZED_TYPES: t.Tuple[t.Any, ...] = (
 
 @singledispatch
 def are_equal(left: t.Any, right: t.Any) -> bool:
-    result = left == right
+    # some values are not equal to themselves
+    result = left is right or left == right
     assert isinstance(result, bool), result
     return result
 
-- 
2.43.0


From 8f296bba132892af5ca813880833fad858be88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 53/63] fix: literals with values of different types are not
 equal

---
 paradigm/_core/annotated.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index cbc17b4..016400f 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -41,14 +41,28 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     return (left_origin is right_origin
             and len(left_args) == len(right_args)
             and _is_specialized(left) is _is_specialized(right)
-            and ((all(any(are_equal(left_arg, right_arg)
-                          for right_arg in right_args)
-                      for left_arg in left_args)
-                  and all(any(are_equal(left_arg, right_arg)
-                              for left_arg in left_args)
-                          for right_arg in right_args))
-                 if (left_origin is t.Union or left_origin is Literal)
-                 else all(map(are_equal, left_args, right_args))))
+            and (_have_equal_elements(left_args, right_args, are_equal)
+                 if left_origin is t.Union
+                 else (_have_equal_elements(left_args, right_args,
+                                            _are_literals_equal)
+                       if left_origin is Literal
+                       else all(map(are_equal, left_args, right_args)))))
+
+
+def _are_literals_equal(left: t.Any, right: t.Any) -> bool:
+    # values of different types can be equal
+    return type(left) is type(right) and are_equal(left, right)
+
+
+def _have_equal_elements(left: t.Sequence[t.Any],
+                         right: t.Sequence[t.Any],
+                         comparator: t.Callable[[t.Any, t.Any], bool]) -> bool:
+    return (all(any(comparator(left_element, right_element)
+                    for right_element in right)
+                for left_element in left)
+            and all(any(comparator(left_element, right_element)
+                        for left_element in left)
+                    for right_element in right))
 
 
 def _is_specialized(value: t.Any) -> bool:
-- 
2.43.0


From 8bb5ed62c427a30256319ad32c74edeb1bb9c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 54/63] fix: builtin generics of None equal the typing ones

---
 paradigm/_core/annotated.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 016400f..66fae1a 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -15,9 +15,12 @@ _T = t.TypeVar('_T')
 GenericAlias: t.Any = type(t.Generic[_T])
 del _T
 _UnionType: t.Any = getattr(types, 'UnionType', t.Union)
+_BUILTIN_GENERIC_ALIASES: t.Tuple[t.Any, ...] = (
+    (types.GenericAlias,) if sys.version_info >= (3, 9) else ()
+)
 _SPECIALIZED_TYPES: t.Tuple[t.Any, ...] = (
     GenericAlias,
-    *((types.GenericAlias,) if sys.version_info >= (3, 9) else ()),
+    *_BUILTIN_GENERIC_ALIASES,
     *((_UnionType,) if sys.version_info >= (3, 10) else ())
 )
 
@@ -35,7 +38,8 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
-    left_args, right_args = to_arguments(left), to_arguments(right)
+    left_args, right_args = (_to_common_arguments(left),
+                             _to_common_arguments(right))
     left_origin, right_origin = (_to_common_origin(left),
                                  _to_common_origin(right))
     return (left_origin is right_origin
@@ -69,6 +73,21 @@ def _is_specialized(value: t.Any) -> bool:
     return isinstance(value, _SPECIALIZED_TYPES)
 
 
+def _to_common_arguments(value: t.Any) -> t.Sequence[t.Any]:
+    result = to_arguments(value)
+    return (_nones_to_types(result)
+            if isinstance(value, _BUILTIN_GENERIC_ALIASES)
+            else result)
+
+
+def _nones_to_types(values: t.Sequence[t.Any]) -> t.Sequence[t.Any]:
+    # unlike ``typing`` generics builtin ones do not convert arguments
+    return [type(None)
+            if value is None
+            else (_nones_to_types(value) if type(value) is list else value)
+            for value in values]
+
+
 def _to_common_origin(value: t.Any) -> t.Any:
     result = to_origin(value)
     return (value
-- 
2.43.0


From 05d7196ace965afb284e8a370264b7b94fc1bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 55/63] fix: unpacked builtin tuples differ from the packed
 ones

---
 paradigm/_core/annotated.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 66fae1a..17545e1 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -74,6 +74,8 @@ def _is_specialized(value: t.Any) -> bool:
 
 
 def _to_common_arguments(value: t.Any) -> t.Sequence[t.Any]:
+    if _is_unpacked(value):
+        return [_to_packed(value)]
     result = to_arguments(value)
     return (_nones_to_types(result)
             if isinstance(value, _BUILTIN_GENERIC_ALIASES)
@@ -88,7 +90,19 @@ def _nones_to_types(values: t.Sequence[t.Any]) -> t.Sequence[t.Any]:
             for value in values]
 
 
+def _is_unpacked(value: t.Any) -> bool:
+    return (sys.version_info >= (3, 11)
+            and isinstance(value, types.GenericAlias)
+            and value.__unpacked__)
+
+
+def _to_packed(value: t.Any) -> t.Any:
+    return types.GenericAlias(to_origin(value), to_arguments(value))
+
+
 def _to_common_origin(value: t.Any) -> t.Any:
+    if _is_unpacked(value):
+        return t.Unpack
     result = to_origin(value)
     return (value
             if result is None
@@ -274,6 +288,8 @@ def _(value: t.TypeVar) -> str:
 if sys.version_info >= (3, 9):
     @to_repr.register(types.GenericAlias)
     def _(value: types.GenericAlias) -> str:
+        if _is_unpacked(value):
+            return f'{to_repr(t.Unpack)}[{to_repr(_to_packed(value))}]'
         arguments = to_arguments(value)
         return (to_repr(to_origin(value))
                 + (f'[{", ".join(map(to_repr, arguments))}]'
-- 
2.43.0


From 66f299e01c23ab89ea3c6a1404c995bb896c4fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 56/63] fix: variadic type variables are supported

---
 paradigm/_core/annotated.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 17545e1..ef901c2 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -139,6 +139,11 @@ def _(left: ParamSpecArgs, right: t.Any) -> bool:
             and are_equal(left.__origin__, right.__origin__))
 
 
+if sys.version_info >= (3, 11):
+    @are_equal.register(t.TypeVarTuple)
+    def _(left: t.TypeVarTuple, right: t.Any) -> bool:
+        return type(left) is type(right) and left.__name__ == right.__name__
+
 if sys.version_info >= (3, 9):
     are_equal.register(types.GenericAlias, are_equal.dispatch(type))
 
@@ -305,6 +310,12 @@ if sys.version_info >= (3, 10):
                           for argument in to_arguments(value))
 
 
+if sys.version_info >= (3, 11):
+    @to_repr.register(t.TypeVarTuple)
+    def _(value: t.TypeVarTuple) -> str:
+        return f'{to_repr(type(value))}({value.__name__!r})'
+
+
 @to_repr.register(t.ForwardRef)
 def _(value: t.ForwardRef) -> str:
     return f'{to_repr(type(value))}({value.__forward_arg__!r})'
-- 
2.43.0


From 6968f2d2212c46c3a35e73d728bd0d9a75ec14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 57/63] fix: representations of type aliases can be evaluated

---
 paradigm/_core/annotated.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index ef901c2..28b0d8b 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -9,7 +9,8 @@ from functools import singledispatch
 from typing_extensions import (Literal,
                                ParamSpec,
                                ParamSpecArgs,
-                               ParamSpecKwargs)
+                               ParamSpecKwargs,
+                               TypeAliasType)
 
 _T = t.TypeVar('_T')
 GenericAlias: t.Any = type(t.Generic[_T])
@@ -316,6 +317,12 @@ if sys.version_info >= (3, 11):
         return f'{to_repr(type(value))}({value.__name__!r})'
 
 
+@to_repr.register(TypeAliasType)
+@to_repr.register(getattr(t, TypeAliasType.__name__, TypeAliasType))
+def _(value: TypeAliasType) -> str:
+    return f'{value.__module__}.{value.__name__}'
+
+
 @to_repr.register(t.ForwardRef)
 def _(value: t.ForwardRef) -> str:
     return f'{to_repr(type(value))}({value.__forward_arg__!r})'
-- 
2.43.0


From 7166815724a441aa7c2c0415fbd42653c8bb9efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 58/63] fix: modules of forward references are represented

---
 paradigm/_core/annotated.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 28b0d8b..01cf742 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -325,7 +325,10 @@ def _(value: TypeAliasType) -> str:
 
 @to_repr.register(t.ForwardRef)
 def _(value: t.ForwardRef) -> str:
-    return f'{to_repr(type(value))}({value.__forward_arg__!r})'
+    module = getattr(value, '__forward_module__', None)
+    return (f'{to_repr(type(value))}({value.__forward_arg__!r}'
+            + ('' if module is None else f', module={module!r}')
+            + ')')
 
 
 @to_repr.register(ParamSpec)
-- 
2.43.0


From 8423b2bb378716bc2e0282f521eeda9de8707d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 59/63] fix: representations of enumeration members can be
 evaluated

---
 paradigm/_core/annotated.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 01cf742..fac3163 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -1,4 +1,5 @@
 import builtins
+import enum
 import sys
 import types
 import typing as t
@@ -273,6 +274,15 @@ def _(value: GenericAlias) -> str:
                         else f'{value.__module__}.{value._name}[()]')))
 
 
+@to_repr.register(enum.Enum)
+def _(value: enum.Enum) -> str:
+    cls = type(value)
+    return (f'{to_repr(cls)}.{value._name_}'
+            if value._name_ in cls.__members__
+            # combinations of flags
+            else f'{to_repr(cls)}({to_repr(value._value_)})')
+
+
 @to_repr.register(InitVar)
 def _(value: t.Any) -> str:
     return f'{to_repr(type(value))}[{to_repr(value.type)}]'
-- 
2.43.0


From df49323ef68a717b9286cc648950dfdff163f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 60/63] fix: classes from different stubs do not replace each
 other

---
 paradigm/_core/arboreal/evaluation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index fa4ca07..58a6197 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -353,7 +353,13 @@ def evaluate_qualified_path(
         scope = stubs.definitions[module_path]
         for part in object_path:
             scope = scope[part]
-        class_namespace: namespacing.Namespace = {'__module__': __name__}
+        # should be unambiguous since classes from different stubs
+        # can be namesakes
+        qualified_name = '_'.join((*module_path, *object_path))
+        class_namespace: namespacing.Namespace = {
+            '__module__': __name__,
+            '__qualname__': qualified_name
+        }
         module_namespace: namespacing.Namespace = {'__name__': __name__}
         annotations_nodes = {}
         for name in scope.keys():
@@ -433,7 +439,7 @@ def evaluate_qualified_path(
                                                parent_namespace)
                 for name, annotation_node in annotations_nodes.items()
             })
-        globals()[catalog.path_to_string(object_path)] = result
+        globals()[qualified_name] = result
         return result
 
 
-- 
2.43.0


From dee3c42063e99700458fb69f5bca5a59e3e739ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:14 +0000
Subject: [PATCH 61/63] fix: unary operations in arguments of generic bases are
 supported

---
 paradigm/_core/arboreal/conversion.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index a6a52a7..923adfd 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -80,6 +80,31 @@ def _(ast_node: ast.BinOp) -> str:
             + to_identifier(ast_node.right))
 
 
+@to_identifier.register(ast.UAdd)
+def _(ast_node: ast.UAdd) -> str:
+    return 'pos'
+
+
+@to_identifier.register(ast.USub)
+def _(ast_node: ast.USub) -> str:
+    return 'neg'
+
+
+@to_identifier.register(ast.Invert)
+def _(ast_node: ast.Invert) -> str:
+    return 'invert'
+
+
+@to_identifier.register(ast.Not)
+def _(ast_node: ast.Not) -> str:
+    return 'not'
+
+
+@to_identifier.register(ast.UnaryOp)
+def _(ast_node: ast.UnaryOp) -> str:
+    return to_identifier(ast_node.op) + '_' + to_identifier(ast_node.operand)
+
+
 @to_identifier.register(ast.List)
 @to_identifier.register(ast.Tuple)
 def _(ast_node: t.Union[ast.List, ast.Tuple]) -> str:
-- 
2.43.0


From 31a7c16687bdcba5f0f1b949e01d7697dd4ede33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:46 +0000
Subject: [PATCH 62/63] fix: classes existing in stubs only can have nested
 ones

---
 paradigm/_core/arboreal/evaluation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 58a6197..716bfa1 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -362,8 +362,13 @@ def evaluate_qualified_path(
         }
         module_namespace: namespacing.Namespace = {'__name__': __name__}
         annotations_nodes = {}
+        nested_classes_names = []
         for name in scope.keys():
-            raw_ast_nodes = module_raw_ast_nodes[(*object_path, name)]
+            try:
+                raw_ast_nodes = module_raw_ast_nodes[(*object_path, name)]
+            except KeyError:
+                nested_classes_names.append(name)
+                continue
             ast_nodes = [construction.from_raw(raw_ast_node)
                          for raw_ast_node in raw_ast_nodes]
             definitions_nodes: t.List[ast.stmt] = []
@@ -440,6 +445,11 @@ def evaluate_qualified_path(
                 for name, annotation_node in annotations_nodes.items()
             })
         globals()[qualified_name] = result
+        # can depend on the class itself
+        for name in nested_classes_names:
+            setattr(result, name,
+                    evaluate_qualified_path(module_path, (*object_path, name),
+                                            parent_namespace))
         return result
 
 
-- 
2.43.0


From 6c381701eab7831c21c7c8470321740be82c2323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 63/63] fix: objects made by calls in stubs can be pickled

---
 paradigm/_core/arboreal/evaluation.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 716bfa1..c2cf0ee 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -237,11 +237,30 @@ def _(ast_node: ast.Assign,
     else:
         result = evaluate_expression_node(ast_node.value, module_path,
                                           parent_path, parent_namespace)
+        if (isinstance(ast_node.value, ast.Call)
+                and getattr(result, '__module__', None) == __name__
+                and hasattr(result, '__qualname__')):
+            # named tuples, typed dictionaries, new types
+            _register(result, *targets_paths[0])
     for target_path in targets_paths:
         cache[target_path] = result
     return result
 
 
+def _register(value: t.Any,
+              module_path: catalog.Path,
+              object_path: catalog.Path) -> None:
+    value.__qualname__ = _to_qualified_name(module_path, object_path)
+    globals()[value.__qualname__] = value
+
+
+def _to_qualified_name(module_path: catalog.Path,
+                       object_path: catalog.Path) -> str:
+    # should be unambiguous since objects from different stubs
+    # can be namesakes
+    return '_'.join((*module_path, *object_path))
+
+
 @evaluate_expression_node.register(ast.BinOp)
 def _(ast_node: ast.BinOp,
       module_path: catalog.Path,
@@ -353,12 +372,9 @@ def evaluate_qualified_path(
         scope = stubs.definitions[module_path]
         for part in object_path:
             scope = scope[part]
-        # should be unambiguous since classes from different stubs
-        # can be namesakes
-        qualified_name = '_'.join((*module_path, *object_path))
         class_namespace: namespacing.Namespace = {
             '__module__': __name__,
-            '__qualname__': qualified_name
+            '__qualname__': _to_qualified_name(module_path, object_path)
         }
         module_namespace: namespacing.Namespace = {'__name__': __name__}
         annotations_nodes = {}
@@ -444,7 +460,7 @@ def evaluate_qualified_path(
                                                parent_namespace)
                 for name, annotation_node in annotations_nodes.items()
             })
-        globals()[qualified_name] = result
+        _register(result, module_path, object_path)
         # can depend on the class itself
         for name in nested_classes_names:
             setattr(result, name,
-- 
2.43.0

