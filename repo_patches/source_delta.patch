From bb338255f24fdf111748f7a904c25d00ffc5ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 01/65] fix: views and proxies of mappings with their own
 __or__ keep the mapping itself

mappingproxy | helper called OrderedDict.__or__ (or that of any dict subclass)
with a dict helper, which merged a new mapping instead of returning the
referenced one, so a pickled view no longer shared the pickled mapping.
---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da8aee2..7f173ca 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -932,7 +932,7 @@ class _attrgetter_helper(object):
             attrs[index] = ".".join([attrs[index], attr])
         return type(self)(attrs, index)
 
-class _dictproxy_helper(dict):
+class _dictproxy_helper(object): #NOTE: not a dict, so "mapping | helper" never merges
    def __ror__(self, a):
         return a
 
-- 
2.43.0


From c55d9235fdfcade59d6e3707e32cee271289a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 02/65] fix: find the referent of a weak proxy whatever its
 str() looks like

A referent whose str() ended like an address (e.g. 'meet at 10', 'beef') or
equalled its repr() was looked up at the wrong address.
---
 dill/_dill.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 7f173ca..fb34414 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1632,23 +1632,22 @@ def save_singleton(pickler, obj):
 
 def _proxy_helper(obj): # a dead proxy returns a reference to None
     """get memory address of proxy's reference object"""
-    _repr = repr(obj)
-    try: _str = str(obj)
+    if type(obj) not in (ProxyType, CallableProxyType): return id(obj)
+    try: obj.__class__ # either way, it's a proxy from here
     except ReferenceError: # it's a dead proxy
         return id(None)
-    if _str == _repr: return id(obj) # it's a repr
-    try: # either way, it's a proxy from here
+    if not IS_PYPY: # the proxy's own repr ends with the referent's address
+        return int(repr(obj).rstrip('>').split(' at ')[-1], base=16)
+    _str = str(obj)
+    try:
         address = int(_str.rstrip('>').split(' at ')[-1], base=16)
     except ValueError: # special case: proxy of a 'type'
-        if not IS_PYPY:
-            address = int(_repr.rstrip('>').split(' at ')[-1], base=16)
-        else:
-            objects = iter(gc.get_objects())
-            for _obj in objects:
-                if repr(_obj) == _str: return id(_obj)
-            # all bad below... nothing found so throw ReferenceError
-            msg = "Cannot reference object for proxy at '%s'" % id(obj)
-            raise ReferenceError(msg)
+        objects = iter(gc.get_objects())
+        for _obj in objects:
+            if repr(_obj) == _str: return id(_obj)
+        # all bad below... nothing found so throw ReferenceError
+        msg = "Cannot reference object for proxy at '%s'" % id(obj)
+        raise ReferenceError(msg)
     return address
 
 def _locate_object(address, module=None):
-- 
2.43.0


From 6789202e0fa9f9683945fdc424baad4b1ac9c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 03/65] fix: a descriptor of a class named like one of dill's
 own loads as that class's

_getattr evaluated the class name found in the descriptor's repr in dill's
namespace, so a slot of a user class 'Reduce' came back as dill's.
---
 dill/_dill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index fb34414..72a169c 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1035,7 +1035,10 @@ def _getattr(objclass, name, repr_str):
     # hack to grab the reference directly
     try: #XXX: works only for __builtin__ ?
         attr = repr_str.split("'")[3]
-        return eval(attr+'.__dict__["'+name+'"]')
+        attr = eval(attr+'.__dict__["'+name+'"]')
+        if attr.__objclass__ is not objclass: # it's a namesake
+            raise AttributeError(name)
+        return attr
     except Exception:
         try:
             attr = objclass.__dict__
-- 
2.43.0


From a54f360739d6b58f0e5781c63cc6e195a37498de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 04/65] fix: a module beside sys.prefix is not one below it

'/opt/venv-mine/m.py' was taken for a module installed under '/opt/venv', and
was pickled without its state.
---
 dill/_dill.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 72a169c..d759b05 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1696,10 +1696,11 @@ def _is_builtin_module(module):
     names = ["base_prefix", "base_exec_prefix", "exec_prefix", "prefix", "real_prefix"]
     rp = os.path.realpath
     # See https://github.com/uqfoundation/dill/issues/566
+    dirname = lambda path: os.path.join(path, '') # a prefix ends at a separator
     return (
         any(
-            module.__file__.startswith(getattr(sys, name))
-            or rp(module.__file__).startswith(rp(getattr(sys, name)))
+            module.__file__.startswith(dirname(getattr(sys, name)))
+            or rp(module.__file__).startswith(dirname(rp(getattr(sys, name))))
             for name in names
             if hasattr(sys, name)
         )
-- 
2.43.0


From a2d20a94efb1c86eb01d1b95298505b93e0919c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 05/65] fix: keep the qualified name of a function renamed
 after its definition

---
 dill/_dill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index d759b05..9278358 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2034,7 +2034,9 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
-        if obj.__qualname__ != obj.__name__:
+        # FunctionType takes the qualified name from the code if it has one
+        if obj.__qualname__ != obj.__name__ or obj.__qualname__ != \
+                getattr(obj.__code__, 'co_qualname', obj.__qualname__):
             state_dict['__qualname__'] = obj.__qualname__
         if '__name__' not in globs or obj.__module__ != globs['__name__']:
             state_dict['__module__'] = obj.__module__
-- 
2.43.0


From 1378424b9dac76baf4d940f8aea9a93b327344ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 06/65] fix: tracing the globals of mutually or self recursive
 functions ends

---
 dill/detect.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index cdd4287..48eb0c8 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -169,8 +169,14 @@ def globalvars(func, recurse=True, builtin=False):
     """get objects defined in global scope that are referred to by func
 
     return a dict of {name:object}"""
+    return _globalvars(func, recurse, builtin, set())
+
+def _globalvars(func, recurse, builtin, seen):
+    """find globalvars, where seen has the ids of the functions already visited"""
     if ismethod(func): func = func.__func__
     if isfunction(func):
+        if id(func) in seen: return {} # stop infinite recursion
+        seen.add(id(func))
         globs = vars(getmodule(sum)).copy() if builtin else {}
         # get references from within closure
         orig_func, func = func, set()
@@ -180,8 +186,8 @@ def globalvars(func, recurse=True, builtin=False):
             except ValueError: # cell is empty
                 pass
             else:
-                _vars = globalvars(cell_contents, recurse, builtin) or {}
-                func.update(_vars) #XXX: (above) be wary of infinte recursion?
+                _vars = _globalvars(cell_contents, recurse, builtin, seen) or {}
+                func.update(_vars)
                 globs.update(_vars)
         # get globals
         globs.update(orig_func.__globals__ or {})
@@ -193,10 +199,7 @@ def globalvars(func, recurse=True, builtin=False):
             # find globals for all entries of func
             for key in func.copy(): #XXX: unnecessary...?
                 nested_func = globs.get(key)
-                if nested_func is orig_func:
-                   #func.remove(key) if key in func else None
-                    continue  #XXX: globalvars(func, False)?
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(_globalvars(nested_func, True, builtin, seen))
     elif iscode(func):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
@@ -211,7 +214,7 @@ def globalvars(func, recurse=True, builtin=False):
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
                 nested_func = globs.get(key)
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(_globalvars(nested_func, True, builtin, seen))
     else:
         return {}
     #NOTE: if name not in __globals__, then we skip it...
-- 
2.43.0


From 997a81594974aea6bd765d7d8f7ff2a5596cbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 07/65] fix: find the names of globals by opcode, in class
 bodies too, and only as deep as asked

---
 dill/detect.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 48eb0c8..d1ddfd6 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -140,22 +140,15 @@ def nestedglobals(func, recurse=True):
     """get the names of any globals found within func"""
     func = code(func)
     if func is None: return list()
-    import sys
-    from .temp import capture
-    CAN_NULL = sys.hexversion >= 0x30b00a7 # NULL may be prepended >= 3.11a7
     names = set()
-    with capture('stdout') as out:
-        try:
-            dis.dis(func) #XXX: dis.dis(None) disassembles last traceback
-        except IndexError:
-            pass #FIXME: HACK for IS_PYPY (3.11)
-    for line in out.getvalue().splitlines():
-        if '_GLOBAL' in line:
-            name = line.split('(')[-1].split(')')[0]
-            if CAN_NULL:
-                names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
-            else:
-                names.add(name)
+    try:
+        for instruction in dis.get_instructions(func):
+            # a class body loads both its own names and globals by LOAD_NAME
+            if '_GLOBAL' in instruction.opname \
+                    or instruction.opname == 'LOAD_NAME':
+                names.add(instruction.argval)
+    except IndexError:
+        pass #FIXME: HACK for IS_PYPY (3.11)
     for co in getattr(func, 'co_consts', tuple()):
         if co and recurse and iscode(co):
             names.update(nestedglobals(co, recurse=True))
@@ -193,7 +186,7 @@ def _globalvars(func, recurse, builtin, seen):
         globs.update(orig_func.__globals__ or {})
         # get names of references
         if not recurse:
-            func.update(orig_func.__code__.co_names)
+            func.update(nestedglobals(orig_func.__code__, recurse=False))
         else:
             func.update(nestedglobals(orig_func.__code__))
             # find globals for all entries of func
-- 
2.43.0


From b19fe244b455377f80bc0a107efa64df6a0800c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 08/65] fix: a cell that leads back to itself outside of a
 function can be pickled

---
 dill/_dill.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 9278358..e380fd8 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1597,7 +1597,11 @@ def save_cell(pickler, obj):
             logger.trace(pickler, "# Ce2")
             return
     logger.trace(pickler, "Ce1: %s", obj)
-    pickler.save_reduce(_create_cell, (f,), obj=obj)
+    # Set the value once the cell is memoized, as it may lead back to the cell.
+    pickler.save_reduce(_create_cell, (_CELL_REF,), obj=obj)
+    pickler.save_reduce(_shims._setattr, (obj, 'cell_contents', f))
+    # pop None created by calling _setattr off stack
+    pickler.write(POP)
     logger.trace(pickler, "# Ce1")
     return
 
-- 
2.43.0


From 68b49c6951e321b79997cb696c3d415bb43fa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 09/65] fix: a namedtuple class loads as itself or a full copy,
 never as another class of its name

---
 dill/_dill.py | 52 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index e380fd8..abfd864 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -994,13 +994,41 @@ def _create_dtypemeta(scalar_type):
     return type(NumpyDType(scalar_type))
 
 def _create_namedtuple(name, fieldnames, modulename, defaults=None):
-    class_ = _import_module(modulename + '.' + name, safe=True)
-    if class_ is not None:
-        return class_
     import collections
     t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
+    # use the class of that name, unless the name is bound to something else
+    class_ = getattr(_import_module(modulename, safe=True), name, None)
+    if isinstance(class_, type) and class_.__bases__ == (tuple,) and _same_namedtuple(class_, t):
+        return class_
     return t
 
+def _plain_namedtuple(class_):
+    """create the namedtuple with the name, fields and defaults of the class"""
+    import collections
+    try:
+        defaults = [class_._field_defaults[field] for field in class_._fields if field in class_._field_defaults]
+        return collections.namedtuple(class_.__name__, class_._fields, defaults=defaults, module=class_.__module__)
+    except (AttributeError, TypeError, ValueError): # not a namedtuple, or with renamed fields
+        return None
+
+def _same_namedtuple(class_, plain):
+    """check if the class has the attributes of the plain namedtuple, and no others"""
+    def same(name, attr, other):
+        attr, other = getattr(attr, '__func__', attr), getattr(other, '__func__', other)
+        if isinstance(attr, FunctionType) and isinstance(other, FunctionType):
+            return attr.__code__ == other.__code__
+        if type(attr) is type(other) and type(attr).__name__ == '_tuplegetter':
+            return attr.__reduce__() == other.__reduce__()
+        if name == '__doc__' and isinstance(attr, str): # may have been renamed
+            return attr.partition('(')[1:] == other.partition('(')[1:]
+        return attr is other or attr == other
+    new, old = vars(class_), vars(plain)
+    try:
+        return class_.__qualname__ == plain.__qualname__ and new.keys() == old.keys() \
+                and all(same(name, new[name], old[name]) for name in old)
+    except Exception: # the defaults do not compare
+        return False
+
 def _create_capsule(pointer, name, context, destructor):
     attr_found = False
     try:
@@ -1790,6 +1818,12 @@ def _get_typedict_type(cls, clsdict, attrs, postproc_list):
         # clsdict.pop('__prepare__', None)
     return clsdict, attrs
 
+def _is_plain_namedtuple(obj):
+    if obj.__bases__ == (tuple,) and all([hasattr(obj, attr) for attr in ('_fields','_asdict','_make','_replace')]):
+        plain = _plain_namedtuple(obj)
+        return plain is not None and _same_namedtuple(obj, plain)
+    return False
+
 def _get_typedict_abc(obj, _dict, attrs, postproc_list):
     if hasattr(abc, '_get_dump'):
         (registry, _, _, _) = abc._get_dump(obj)
@@ -1819,16 +1853,10 @@ def save_type(pickler, obj, postproc_list=None):
         #     warnings.warn('Type %r may only exist on this implementation of Python and cannot be unpickled in other implementations.' % (obj,), PicklingWarning)
         pickler.save_reduce(_load_type, (_typemap[obj],), obj=obj)
         logger.trace(pickler, "# T1")
-    elif obj.__bases__ == (tuple,) and all([hasattr(obj, attr) for attr in ('_fields','_asdict','_make','_replace')]):
-        # special case: namedtuples
+    elif _is_plain_namedtuple(obj) and not getattr(pickler, '_byref', None) and not _locate_function(obj, pickler):
+        # special case: namedtuples with nothing but fields and defaults
         logger.trace(pickler, "T6: %s", obj)
 
-        obj_name = getattr(obj, '__qualname__', getattr(obj, '__name__', None))
-        if obj.__name__ != obj_name:
-            if postproc_list is None:
-                postproc_list = []
-            postproc_list.append((setattr, (obj, '__qualname__', obj_name)))
-
         if not obj._field_defaults:
             _save_with_postproc(pickler, (_create_namedtuple, (obj.__name__, obj._fields, obj.__module__)), obj=obj, postproc_list=postproc_list)
         else:
@@ -1896,7 +1924,7 @@ def save_type(pickler, obj, postproc_list=None):
             if qualname is not None:
                 postproc_list.append((setattr, (obj, '__qualname__', qualname)))
 
-            if not hasattr(obj, '__orig_bases__'):
+            if not hasattr(obj, '__orig_bases__') or typing.NamedTuple in obj.__orig_bases__:
                 _save_with_postproc(pickler, (_create_type, (
                     type(obj), obj.__name__, obj.__bases__, _dict
                 )), obj=obj, postproc_list=postproc_list)
-- 
2.43.0


From b331f2037510abc1d90f6a044512adcda743cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 10/65] fix: a class that hides a submodule of the same name is
 not taken for the module

---
 dill/_dill.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index abfd864..622dab8 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1094,8 +1094,12 @@ def _import_module(import_name, safe=False):
             module = '.'.join(items[:-1])
             obj = items[-1]
             submodule = getattr(__import__(module, None, None, [obj]), obj)
-            if isinstance(submodule, (ModuleType, type)):
+            if isinstance(submodule, ModuleType):
                 return submodule
+            if isinstance(submodule, type):
+                # a package may hold a class under the name of a submodule
+                found = sys.modules.get(import_name)
+                return found if isinstance(found, ModuleType) else submodule
             return __import__(import_name, None, None, [obj])
         else:
             return __import__(import_name)
-- 
2.43.0


From a60c6180a7c7b90d2898e1c8aff57236af5c755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 11/65] fix: an attribute taken from a base is only left out if
 it would be inherited

---
 dill/_dill.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 622dab8..3b7d057 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1799,12 +1799,9 @@ def save_module(pickler, obj):
 # License: https://github.com/cloudpipe/cloudpickle/blob/master/LICENSE
 def _get_typedict_type(cls, clsdict, attrs, postproc_list):
     """Retrieve a copy of the dict of a class without the inherited methods"""
-    if len(cls.__bases__) == 1:
-        inherited_dict = cls.__bases__[0].__dict__
-    else:
-        inherited_dict = {}
-        for base in reversed(cls.__bases__):
-            inherited_dict.update(base.__dict__)
+    inherited_dict = {}
+    for base in reversed(cls.__mro__[1:]): # in the order of attribute lookup
+        inherited_dict.update(base.__dict__)
     to_remove = []
     for name, value in dict.items(clsdict):
         try:
-- 
2.43.0


From ee78b9efa397777d147a9f2ab6704309fb7645ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 12/65] fix: a class with private slots can be copied

---
 dill/_dill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 3b7d057..249db5f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1911,6 +1911,8 @@ def save_type(pickler, obj, postproc_list=None):
 
             for name in slots:
                 _dict.pop(name, None)
+                if name.startswith('__') and not name.endswith('__'): # private
+                    _dict.pop('_' + obj.__name__.lstrip('_') + name, None)
 
             if isinstance(obj, abc.ABCMeta):
                 logger.trace(pickler, "ABC: %s", obj)
-- 
2.43.0


From 28b6037fa757a2bd0699f0978151f2019785eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 13/65] fix: a dictionary that only equals the main namespace
 is copied

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 249db5f..a037906 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1278,16 +1278,16 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
-    if is_dill(pickler, child=False) and obj == pickler._main.__dict__ and \
+    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
         logger.trace(pickler, "# D1")
-    elif (not is_dill(pickler, child=False)) and (obj == _main_module.__dict__):
+    elif (not is_dill(pickler, child=False)) and (obj is _main_module.__dict__):
         logger.trace(pickler, "D3: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__main__\n__dict__\n', 'UTF-8'))  #XXX: works in general?
         logger.trace(pickler, "# D3")
-    elif '__name__' in obj and obj != _main_module.__dict__ \
+    elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
             and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
-- 
2.43.0


From 9edad4ac7c0c07b250af4bd4ecbfc947fa5e38b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 14/65] fix: a dictionary with an empty __name__ can be pickled

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index a037906..9526763 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1103,7 +1103,7 @@ def _import_module(import_name, safe=False):
             return __import__(import_name, None, None, [obj])
         else:
             return __import__(import_name)
-    except (ImportError, AttributeError, KeyError):
+    except (ImportError, AttributeError, KeyError, ValueError):
         if safe:
             return None
         raise
-- 
2.43.0


From 094c41a07d3696a594ec860b4ca04e3cc3cc3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 15/65] fix: indenting and outdenting keep a leading blank
 line, tabs and line ends apart

---
 dill/source.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index b77d9fb..e68cc03 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -482,7 +482,7 @@ def _isstring(object): #XXX: isstringlike better?
 
 def indent(code, spaces=4):
     '''indent a block of code with whitespace (default is 4 spaces)'''
-    indent = indentsize(code)
+    indent = indentsize(code.split('\n')[0])
     from numbers import Integral
     if isinstance(spaces, Integral): spaces = ' '*spaces
     # if '\t' is provided, will indent with a tab
@@ -511,13 +511,18 @@ def indent(code, spaces=4):
     return '\n'.join(lines)
 
 
+def _leading(line):
+    '''get the number of whitespace characters at the start of a line'''
+    line = line.rstrip('\n') # the end of the line stays
+    return len(line) - len(line.lstrip())
+
 def _outdent(lines, spaces=None, all=True):
     '''outdent lines of code, accounting for docs and line continuations'''
-    indent = indentsize(lines[0])
+    indent = _leading(lines[0])
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
     for i in range(len(lines) if all else 1):
         #FIXME: works... but shouldn't outdent 2nd+ lines of multiline doc
-        _indent = indentsize(lines[i])
+        _indent = _leading(lines[i])
         if spaces > _indent: _spaces = _indent
         else: _spaces = spaces
         lines[i] = lines[i][_spaces:]
@@ -525,9 +530,8 @@ def _outdent(lines, spaces=None, all=True):
 
 def outdent(code, spaces=None, all=True):
     '''outdent a block of code (default is to strip all leading whitespace)'''
-    indent = indentsize(code)
+    indent = _leading(code.split('\n')[0])
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
-    #XXX: will this delete '\n' in some cases?
     if not all: return code[spaces:]
     return '\n'.join(_outdent(code.split('\n'), spaces=spaces, all=all))
 
-- 
2.43.0


From 15c20f6999e46726a684ad77f1d60d6b058bb7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 16/65] fix: find the source of coroutine functions

---
 dill/source.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index e68cc03..2332e27 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -186,14 +186,14 @@ def findsource(object):
     if ismethod(object):
         name = object.__name__
         if name == '<lambda>': pat1 = r'(.*(?<!\w)lambda(:|\s))'
-        else: pat1 = r'^(\s*def\s)'
+        else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__func__
     if isfunction(object):
         name = object.__name__
         if name == '<lambda>':
             pat1 = r'(.*(?<!\w)lambda(:|\s))'
             obj = object #XXX: better a copy?
-        else: pat1 = r'^(\s*def\s)'
+        else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__code__
     if istraceback(object):
         object = object.tb_frame
@@ -205,10 +205,10 @@ def findsource(object):
         stdin = object.co_filename == '<stdin>'
         if stdin:
             lnum = len(lines) - 1 # can't get lnum easily, so leverage pat
-            if not pat1: pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+            if not pat1: pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         else:
             lnum = object.co_firstlineno - 1
-            pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+            pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         pat1 = re.compile(pat1); pat2 = re.compile(pat2)
        #XXX: candidate_lnum = [n for n in range(lnum) if pat1.match(lines[n])]
         while lnum > 0: #XXX: won't find decorators in <stdin> ?
@@ -282,7 +282,7 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
         if lstrip: block = _outdent(block)
         return ([block], [lnum]) if locate is True else [block]
 
-    pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
+    pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
     pat2 = r'^(\s*@)'; pat2 = re.compile(pat2)
    #pat3 = r'^(\s*class\s)'; pat3 = re.compile(pat3) #XXX: enclosing class?
     #FIXME: bound methods need enclosing class (and then instantiation)
@@ -421,7 +421,8 @@ def getsource(object, alias='', lstrip=False, enclosing=False, \
                 if not line.startswith('@'): break
                 skip += 1
             #XXX: use regex from findsource / getsourcelines ?
-            if lines[skip].lstrip().startswith('def '): # we have a function
+            pat = re.compile(r'\s*(?:async\s+)?def\s')
+            if any(pat.match(line) for line in lines[skip:]): # we have a function
                 if alias != object.__name__:
                     lines.append('\n%s = %s\n' % (alias, object.__name__))
             elif 'lambda ' in lines[skip]: # we have a lambda
-- 
2.43.0


From bb7e91d85d2fd97821315e867c914e3a2190a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 17/65] fix: find the source of a class by its qualified name

---
 dill/source.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index 2332e27..c6ae193 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -102,6 +102,38 @@ def _matchlambda(func, line):
     return False
 
 
+def _findclass(cls, lines):
+    """find the line number of the definition of the class (with decorators)"""
+    import ast
+    if cls.__qualname__.split('.')[-1] != cls.__name__: # has been renamed
+        return None
+    try:
+        tree = ast.parse(''.join(lines))
+    except (SyntaxError, ValueError): # not a file, or includes failed input
+        return None
+    found = []
+    def find(node, path):
+        for child in ast.iter_child_nodes(node):
+            if isinstance(child, ast.ClassDef):
+                name = path + (child.name,)
+                if '.'.join(name) == cls.__qualname__:
+                    first = min([child.lineno] + [i.lineno for i in child.decorator_list])
+                    found.append((first, child.end_lineno))
+            elif isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
+                name = path + (child.name, '<locals>')
+            else:
+                name = path
+            find(child, name)
+    find(tree, ())
+    # if there are several, use the one with the methods of the class, or the last
+    for method in cls.__dict__.values():
+        if isfunction(method) and method.__module__ == cls.__module__:
+            lnum = method.__code__.co_firstlineno
+            for (first, last) in found:
+                if first <= lnum <= last: return first - 1
+    return found[-1][0] - 1 if found else None
+
+
 def findsource(object):
     """Return the entire source file and starting line number for an object.
     For interactively-defined objects, the 'file' is the interpreter's history.
@@ -234,6 +266,10 @@ def findsource(object):
             #XXX: we don't find how the instance was built
     except AttributeError: pass
     if isclass(object):
+        lnum = _findclass(object, lines)
+        if lnum is not None:
+            return lines, lnum
+        # the lines do not parse, so look for the name
         name = object.__name__
         pat = re.compile(r'^(\s*)class\s*' + name + r'\b')
         # make some effort to find the best matching class definition:
-- 
2.43.0


From 7680f07606b829e6e6ba8d2a9b1e8116bde73816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 18/65] fix: import a class by its name, not by what its
 metaclass shows

---
 dill/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index c6ae193..d59ce93 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -781,7 +781,8 @@ def getimport(obj, alias='', verify=True, builtin=False, enclosing=False):
     tail = qual[-1]
     # for named things... with a nice repr #XXX: move into _namespace?
     try: # look for '<...>' and be mindful it might be in lists, dicts, etc...
-        name = repr(obj).split('<',1)[1].split('>',1)[1]
+        name = '<>' if isclass(obj) else repr(obj) # the repr is the metaclass's
+        name = name.split('<',1)[1].split('>',1)[1]
         name = None # we have a 'object'-style repr
     except Exception: # it's probably something 'importable'
         if head in ['builtins','__builtin__']:
-- 
2.43.0


From 18dcbf1330c1a0985741419a481e2a5cbe2dcf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 19/65] fix: text naming a number or a type imports as the text

---
 dill/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index d59ce93..288e9dc 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -697,7 +697,7 @@ def _namespace(obj):
         return qual + [name] #XXX: can be wrong for some aliased objects
     except Exception: pass
     # special case: numpy.inf and numpy.nan (we don't want them as floats)
-    if str(obj) in ['inf','nan','Inf','NaN']: # is more, but are they needed?
+    if isinstance(obj, float) and str(obj) in ['inf','nan']: # is more, but are they needed?
         return ['numpy'] + [str(obj)]
     # mostly for classes and class instances and such
     module = getattr(obj.__class__, '__module__', None)
@@ -782,6 +782,7 @@ def getimport(obj, alias='', verify=True, builtin=False, enclosing=False):
     # for named things... with a nice repr #XXX: move into _namespace?
     try: # look for '<...>' and be mindful it might be in lists, dicts, etc...
         name = '<>' if isclass(obj) else repr(obj) # the repr is the metaclass's
+        name = re.sub(r"'(?:[^'\\]|\\.)*'|"r'"(?:[^"\\]|\\.)*"', '', name) # text
         name = name.split('<',1)[1].split('>',1)[1]
         name = None # we have a 'object'-style repr
     except Exception: # it's probably something 'importable'
-- 
2.43.0


From 646a9f69b4d08d589078668b74e44fee744e9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 20/65] fix: objects dumped as source load back, whatever
 characters they hold

---
 dill/temp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index 4b9f4e0..6f19b18 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -41,8 +41,7 @@ def capture(stream='stdout'):
 
 
 def b(x): # deal with b'foo' versus 'foo'
-    import codecs
-    return codecs.latin_1_encode(x)[0]
+    return x.encode('utf-8') # the default encoding of python source
 
 def load_source(file, **kwds):
     """load an object that was stored with dill.temp.dump_source
@@ -60,7 +59,10 @@ def load_source(file, **kwds):
     alias = kwds.pop('alias', None)
     mode = kwds.pop('mode', 'r')
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
-    source = open(fname, mode=mode, **kwds).read()
+    if 'b' not in mode: kwds.setdefault('encoding', 'utf-8')
+    with open(fname, mode=mode, **kwds) as f:
+        source = f.read()
+    if isinstance(source, bytes): source = source.decode()
     if not alias:
         tag = source.strip().splitlines()[-1].split()
         if tag[0] != '#NAME:':
@@ -110,6 +112,7 @@ NOTE: Keep the return value for as long as you want your file to exist !
     kwds.pop('suffix', '') # this is *always* '.py'
     alias = kwds.pop('alias', '') #XXX: include an alias so a name is known
     name = str(alias) or getname(object)
+    if not name: raise AttributeError("object has no name, use an alias")
     name = "\n#NAME: %s\n" % name
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
     file = tempfile.NamedTemporaryFile(suffix='.py', **kwds)
@@ -238,6 +241,7 @@ Optional kwds:
     from io import BytesIO as StringIO
     alias = kwds.pop('alias', '') #XXX: include an alias so a name is known
     name = str(alias) or getname(object)
+    if not name: raise AttributeError("object has no name, use an alias")
     name = "\n#NAME: %s\n" % name
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
     file = StringIO()
-- 
2.43.0


From 06c45ab4669dcfd0ccc5f7a7789a36582bee5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 21/65] fix: sizes in the trace are shown in their unit

---
 dill/logger.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index a330112..2d5e319 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -47,7 +47,6 @@ import codecs
 import contextlib
 import locale
 import logging
-import math
 import os
 from functools import partial
 from typing import TextIO, Union
@@ -202,9 +201,9 @@ class TraceFormatter(logging.Formatter):
             fields['prefix'] = prefix + " "
         if hasattr(record, 'size') and record.size is not None and record.size >= 1:
             # Show object size in human-readable form.
-            power = int(math.log(record.size, 2)) // 10
+            power = (record.size.bit_length() - 1) // 10
             size = record.size >> power*10
-            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power] + "i" if power else "")
+            fields['suffix'] = " [%d %sB]" % (size, "KMGTPEZY"[power-1] + "i" if power else "")
         vars(record).update(fields)
         return super().format(record)
 
-- 
2.43.0


From 729cac970aab604e5a4a4f057b89fd0e59ccfea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 22/65] fix: tracing does not need a stream that knows its
 position

---
 dill/logger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index 2d5e319..0de2587 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -149,15 +149,15 @@ class TraceAdapter(logging.LoggerAdapter):
                 size += frame.tell()
             except AttributeError:
                 # PyPy may use a BytesBuilder as frame
-                size += len(frame)
-        except (AttributeError, TypeError):
-            pass
-        if size is not None:
-            if not pushed_obj:
-                pickler._size_stack.append(size)
-            else:
-                size -= pickler._size_stack.pop()
-                extra['size'] = size
+                size += len(frame or '')
+        except Exception:
+            size = None
+        if not pushed_obj:
+            pickler._size_stack.append(size)
+        else:
+            start = pickler._size_stack.pop()
+            if size is not None and start is not None:
+                extra['size'] = size - start
         if pushed_obj:
             pickler._trace_depth -= 1
         extra['depth'] = pickler._trace_depth
-- 
2.43.0


From 61d325ac98d1e5a67e480851a3b84bda2b3924de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 23/65] fix: leaving a tracing context only brings back the
 handler it took away

---
 dill/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index 0de2587..1a6ea0b 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -270,6 +270,7 @@ class TraceManager(contextlib.AbstractContextManager):
                 self.handler = logging.StreamHandler(self.file)
             else:
                 self.handler = logging.FileHandler(self.file, self.mode)
+            self.had_stderr = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
         self.old_level = adapter.getEffectiveLevel()
@@ -279,6 +280,7 @@ class TraceManager(contextlib.AbstractContextManager):
         adapter.setLevel(self.old_level)
         if self.redirect:
             adapter.removeHandler(self.handler)
-            adapter.addHandler(stderr_handler)
+            if self.had_stderr:
+                logger.addHandler(stderr_handler)
             if not self.file_is_stream:
                 self.handler.close()
-- 
2.43.0


From 2a3bc1e1e64c6656fb54cfdfd6e20b607e41de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 24/65] fix: change detection takes a container for what its
 copy is

---
 dill/__diff.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index 6fa8dd5..c1c5bde 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -44,6 +44,16 @@ def get_attrs(obj):
     return getattr(obj, '__dict__', None)
 
 
+def _copy(obj):
+    """
+    Copies a sequence, if it knows how to
+    """
+    try:
+        return obj.copy()
+    except Exception:
+        return obj
+
+
 def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
                         dict: True, tuple: True, type: False,
                         types.ModuleType: False, types.FunctionType: False,
@@ -58,9 +68,7 @@ def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
     hsattr = hasattr
     if o_type in cache:
         if cache[o_type]:
-            if hsattr(obj, "copy"):
-                return obj.copy()
-            return obj
+            return _copy(obj)
     elif HAS_NUMPY and o_type in (numpy.ndarray, numpy.ma.core.MaskedConstant):
         if obj.shape and obj.size:
             return obj
@@ -70,9 +78,7 @@ def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
        and hsattr(obj, "__len__") and hsattr(o_type, "__contains__") \
        and hsattr(o_type, "__iter__") and hsattr(o_type, "__len__"):
         cache[o_type] = True
-        if hsattr(obj, "copy"):
-            return obj.copy()
-        return obj
+        return _copy(obj)
     else:
         cache[o_type] = False
         return None
@@ -185,7 +191,7 @@ def whats_changed(obj, seen=None, simple=False, first=True):
         obj_seq = memo[obj_id][1]
         if (len(items) != len(obj_seq)):
             seq_diff = True
-        elif hasattr(obj, "items"):  # dict type obj
+        elif hasattr(items, "items"):  # dict type obj
             obj_get = obj_seq.get
             for key, item in items.items():
                 if id_(item) != obj_get(id_(key)) \
-- 
2.43.0


From e41e9562be328977a864e366dda432bb214465c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 25/65] fix: change detection sees slots and the members of
 frozen sets

---
 dill/__diff.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index c1c5bde..cddab0a 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -36,12 +36,23 @@ dont_memo = set(id(i) for i in (memo, sys.modules, sys.path_importer_cache,
 
 def get_attrs(obj):
     """
-    Gets all the attributes of an object though its __dict__ or return None
+    Gets all the attributes of an object though its __dict__ and its slots
+    or return None
     """
     if type(obj) in builtins_types \
        or type(obj) is type and obj in builtins_types:
         return
-    return getattr(obj, '__dict__', None)
+    attrs = getattr(obj, '__dict__', None)
+    for cls in type(obj).__mro__:
+        if '__slots__' in cls.__dict__:
+            attrs = dict(attrs or {})
+            for name, member in cls.__dict__.items():
+                if type(member) is types.MemberDescriptorType:
+                    try:
+                        attrs.setdefault(name, member.__get__(obj))
+                    except AttributeError:
+                        pass # not set
+    return attrs
 
 
 def _copy(obj):
@@ -54,7 +65,7 @@ def _copy(obj):
         return obj
 
 
-def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
+def get_seq(obj, cache={str: False, frozenset: True, list: True, set: True,
                         dict: True, tuple: True, type: False,
                         types.ModuleType: False, types.FunctionType: False,
                         types.BuiltinFunctionType: False}):
-- 
2.43.0


From 7d8d7ed9b0080fead05b42bc10574c075fbb1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 26/65] fix: globals of functions from other modules are not
 taken for one's own

---
 dill/detect.py | 72 ++++++++++++++++++++------------------------------
 1 file changed, 28 insertions(+), 44 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index d1ddfd6..f6be101 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -162,56 +162,40 @@ def globalvars(func, recurse=True, builtin=False):
     """get objects defined in global scope that are referred to by func
 
     return a dict of {name:object}"""
-    return _globalvars(func, recurse, builtin, set())
-
-def _globalvars(func, recurse, builtin, seen):
-    """find globalvars, where seen has the ids of the functions already visited"""
+    globs = vars(getmodule(sum)) if builtin else {}
+    if iscode(func): # has no global scope of its own
+        return dict((name,globs[name]) for name in nestedglobals(func, recurse) \
+                                       if name in globs)
     if ismethod(func): func = func.__func__
-    if isfunction(func):
-        if id(func) in seen: return {} # stop infinite recursion
-        seen.add(id(func))
-        globs = vars(getmodule(sum)).copy() if builtin else {}
+    if not isfunction(func):
+        return {}
+    found, seen = [], set() # functions reached, and where from they are seen
+    def visit(obj, scope=None):
+        if ismethod(obj): obj = obj.__func__
+        if isfunction(obj):
+            if scope is None: scope = obj.__globals__
+            if (id(obj), id(scope)) not in seen:
+                seen.add((id(obj), id(scope)))
+                found.append((obj, scope))
+    visit(func)
+    first, other = {}, {} # seen from the global scope of func, or another one
+    for func,scope in found: #NOTE: grows within the loop
         # get references from within closure
-        orig_func, func = func, set()
-        for obj in orig_func.__closure__ or {}:
+        for obj in func.__closure__ or ():
             try:
-                cell_contents = obj.cell_contents
+                visit(obj.cell_contents)
             except ValueError: # cell is empty
                 pass
-            else:
-                _vars = _globalvars(cell_contents, recurse, builtin, seen) or {}
-                func.update(_vars)
-                globs.update(_vars)
-        # get globals
-        globs.update(orig_func.__globals__ or {})
         # get names of references
-        if not recurse:
-            func.update(nestedglobals(orig_func.__code__, recurse=False))
-        else:
-            func.update(nestedglobals(orig_func.__code__))
-            # find globals for all entries of func
-            for key in func.copy(): #XXX: unnecessary...?
-                nested_func = globs.get(key)
-                func.update(_globalvars(nested_func, True, builtin, seen))
-    elif iscode(func):
-        globs = vars(getmodule(sum)).copy() if builtin else {}
-       #globs.update(globals())
-        if not recurse:
-            func = func.co_names # get names
-        else:
-            orig_func = func.co_name # to stop infinite recursion
-            func = set(nestedglobals(func))
-            # find globals for all entries of func
-            for key in func.copy(): #XXX: unnecessary...?
-                if key is orig_func:
-                   #func.remove(key) if key in func else None
-                    continue  #XXX: globalvars(func, False)?
-                nested_func = globs.get(key)
-                func.update(_globalvars(nested_func, True, builtin, seen))
-    else:
-        return {}
-    #NOTE: if name not in __globals__, then we skip it...
-    return dict((name,globs[name]) for name in func if name in globs)
+        for name in nestedglobals(func, recurse):
+            #NOTE: if name not in __globals__, then we skip it...
+            if name not in func.__globals__ and name not in globs: continue
+            obj = func.__globals__.get(name, globs.get(name))
+            if recurse: visit(obj, scope)
+            # from another scope, only use what is also found there
+            if scope.get(name, globs.get(name, scope)) is obj:
+                (first if scope is found[0][1] else other)[name] = obj
+    return dict(other, **first)
 
 
 def varnames(func):
-- 
2.43.0


From 2f507811e302bbd6ffa72778b2414d40256cbb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 27/65] fix: the search for parents heeds the objects to ignore

---
 dill/pointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/pointers.py b/dill/pointers.py
index d27745f..17b96db 100644
--- a/dill/pointers.py
+++ b/dill/pointers.py
@@ -46,7 +46,7 @@ def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
    #if objtype is None: predicate = lambda x: True #XXX: in obj.mro() ?
     ignore = (ignore,) if not hasattr(ignore, '__len__') else ignore
     ignore = (id(obj) for obj in ignore)
-    chain = find_chain(obj, predicate, edge_func, depth)[::-1]
+    chain = find_chain(obj, predicate, edge_func, depth, ignore)[::-1]
     #XXX: should pop off obj... ?
     return chain
 
-- 
2.43.0


From b327140a9bd70c0c24a20e596578701e65d81190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 28/65] fix: pickles leaves the warning filters as they were
 and compares arrays by item

---
 dill/_dill.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 9526763..be2c646 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2223,15 +2223,17 @@ def pickles(obj,exact=False,safe=False,**kwds):
     try:
         pik = copy(obj, **kwds)
         #FIXME: should check types match first, then check content if "exact"
-        try:
-            #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
-            result = bool(pik.all() == obj.all())
-        except (AttributeError, TypeError):
+        with warnings.catch_warnings():
             warnings.filterwarnings('ignore') #FIXME: be specific
-            result = pik == obj
-            if warnings.filters: del warnings.filters[0]
+            shape = getattr(obj, 'shape', None)
+            if isinstance(shape, tuple) and shape != getattr(pik, 'shape', None):
+                result = False # arrays of different shapes can't be compared
+            else:
+                result = pik == obj
         if hasattr(result, 'toarray'): # for unusual types like sparse matrix
-            result = result.toarray().all()
+            result = result.toarray()
+        if hasattr(result, 'all'): # for arrays
+            result = result.all()
         if result: return True
         if not exact:
             result = type(pik) == type(obj)
-- 
2.43.0


From 6c60bddea7a9b53763409100e643f7410179974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 29/65] fix: errors reports none for an object that pickles

---
 dill/detect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/detect.py b/dill/detect.py
index f6be101..989d80d 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -242,6 +242,8 @@ def errors(obj, depth=0, exact=False, safe=False):
     if not depth:
         try:
             pik = copy(obj)
+            if not exact and type(pik) == type(obj): return None
+            if pickles(obj,exact,safe): return None
             if exact:
                 assert pik == obj, \
                     "Unpickling produces %s instead of %s" % (pik,obj)
-- 
2.43.0


From 9036dcaa2cd20a038aa3d5df999bed9911aa704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 30/65] fix: turning the extension off puts back the handlers
 it replaced, and only those

---
 dill/_dill.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index be2c646..0e16616 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -481,13 +481,15 @@ def register(t):
         return func
     return proxy
 
+_extension = {} # types extended in pickle, with the handler put and the one replaced
+
 def _revert_extension():
     """drop dill-registered types from pickle's dispatch table"""
-    for type, func in list(StockPickler.dispatch.items()):
-        if func.__module__ == __name__:
-            del StockPickler.dispatch[type]
-            if type in pickle_dispatch_copy:
-                StockPickler.dispatch[type] = pickle_dispatch_copy[type]
+    for type, (func, replaced) in list(_extension.items()):
+        if StockPickler.dispatch.get(type) is func: # not replaced since
+            if replaced is None: del StockPickler.dispatch[type]
+            else: StockPickler.dispatch[type] = replaced
+    _extension.clear()
 
 def use_diff(on=True):
     """
@@ -2296,10 +2298,12 @@ def _extend():
     """extend pickle with all of dill's registered types"""
     # need to have pickle not choke on _main_module?  use is_dill(pickler)
     for t,func in Pickler.dispatch.items():
-        try:
-            StockPickler.dispatch[t] = func
-        except Exception: #TypeError, PicklingError, UnpicklingError
-            logger.trace(pickler, "skip: %s", t)
+        if func is pickle_dispatch_copy.get(t): continue # is pickle's own
+        replaced = StockPickler.dispatch.get(t)
+        if t in _extension and replaced is _extension[t][0]: # was extended
+            replaced = _extension[t][1]
+        StockPickler.dispatch[t] = func
+        _extension[t] = (func, replaced)
     return
 
 del diff, _use_diff, use_diff
-- 
2.43.0


From 2ad4a42b2e6e75832942253fd75d2cf82a148ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 31/65] fix: a session file that can't be used is closed again

---
 dill/session.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index db556c8..befd3c5 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -54,6 +54,14 @@ def _check_symlink(path):
     if stat.S_ISLNK(st.st_mode):
         raise OSError("refusing to operate on symlink: %r" % path)
 
+def _fdopen(fd, mode):
+    """os.fdopen() that closes *fd* when it fails (e.g. for a directory)"""
+    try:
+        return os.fdopen(fd, mode)
+    except BaseException:
+        os.close(fd)
+        raise
+
 def _safe_open_for_writing(path):
     """Open *path* for exclusive creation with restricted permissions.
 
@@ -69,7 +77,7 @@ def _safe_open_for_writing(path):
     except FileExistsError:
         _check_symlink(path)
         fd = os.open(path, os.O_WRONLY | os.O_TRUNC | _O_NOFOLLOW, 0o600)
-    return os.fdopen(fd, 'wb')
+    return _fdopen(fd, 'wb')
 
 def _safe_open_for_reading(path):
     """Open *path* read-only, refusing to follow a final symlink.
@@ -79,7 +87,7 @@ def _safe_open_for_reading(path):
     """
     _check_symlink(path)
     fd = os.open(path, os.O_RDONLY | _O_NOFOLLOW)
-    return os.fdopen(fd, 'rb')
+    return _fdopen(fd, 'rb')
 
 _DEFAULT_PATH_WARNING = (
     "using the default session file %r which is in a world-writable "
-- 
2.43.0


From a3f09b719a7259902d9c9ee1b2582ede520786f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 32/65] fix: load_module refuses a pickle that is not a session
 with an UnpicklingError

---
 dill/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index befd3c5..5a8d3ba 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -565,7 +565,8 @@ def load_module(
             del sys.modules[runtime_main]
         except (KeyError, NameError):
             pass
-    assert loaded is main
+    if loaded is not main:
+        raise UnpicklingError("not the saved state of module %r" % main.__name__)
     _restore_modules(unpickler, main)
     if main is _main_module or main is module:
         return None
-- 
2.43.0


From b01f6e3f10314f713475207394d5d42d92af7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 33/65] fix: load_module puts back the entry of sys.modules
 that it replaced

---
 dill/session.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 5a8d3ba..36fec1e 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -555,6 +555,7 @@ def load_module(
         # This is for find_class() to be able to locate it.
         if not is_main_imported:
             runtime_main = '__runtime__.%s' % main.__name__
+            old_runtime = sys.modules.get(runtime_main)
             sys.modules[runtime_main] = main
 
         loaded = unpickler.load()
@@ -562,8 +563,11 @@ def load_module(
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
         try:
-            del sys.modules[runtime_main]
-        except (KeyError, NameError):
+            if old_runtime is None:
+                sys.modules.pop(runtime_main, None)
+            else:
+                sys.modules[runtime_main] = old_runtime
+        except NameError:
             pass
     if loaded is not main:
         raise UnpicklingError("not the saved state of module %r" % main.__name__)
-- 
2.43.0


From 3fd53677e2c558d6dca44ac3e47aec05761515f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 34/65] fix: a session is identified wherever it starts in a
 buffered file

---
 dill/session.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index 36fec1e..d9e0f55 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -368,13 +368,22 @@ def _make_peekable(stream):
             pass
     return _PeekableReader(stream)
 
+def _peek(file, n):
+    """peek() that isn't limited to what is left in the buffer of the stream"""
+    chunk = file.peek(n)
+    if len(chunk) < n and getattr(file, 'seekable', bool)():
+        position = file.tell()
+        chunk = file.read(n)
+        file.seek(position)
+    return chunk
+
 def _identify_module(file, main=None):
     """identify the name of the module stored in the given file-type object"""
     from pickletools import genops
     UNICODE = {'UNICODE', 'BINUNICODE', 'SHORT_BINUNICODE'}
     found_import = False
     try:
-        for opcode, arg, pos in genops(file.peek(256)):
+        for opcode, arg, pos in genops(_peek(file, 256)):
             if not found_import:
                 if opcode.name in ('GLOBAL', 'SHORT_BINUNICODE') and \
                         arg.endswith('_import_module'):
-- 
2.43.0


From 2ba29815f90155be26a0dd6bbae560c59b7a2ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 35/65] fix: text that ends in '_import_module' doesn't make a
 pickle a session

---
 dill/session.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index d9e0f55..54d03a7 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -382,12 +382,14 @@ def _identify_module(file, main=None):
     from pickletools import genops
     UNICODE = {'UNICODE', 'BINUNICODE', 'SHORT_BINUNICODE'}
     found_import = False
+    name = ''
     try:
         for opcode, arg, pos in genops(_peek(file, 256)):
             if not found_import:
-                if opcode.name in ('GLOBAL', 'SHORT_BINUNICODE') and \
-                        arg.endswith('_import_module'):
-                    found_import = True
+                if opcode.name == 'SHORT_BINUNICODE':
+                    name = arg
+                elif opcode.name in ('GLOBAL', 'STACK_GLOBAL'):
+                    found_import = (arg or name).endswith('_import_module')
             else:
                 if opcode.name in UNICODE:
                     return arg
-- 
2.43.0


From 635ce1edb2f2aa98683afdf5720754235d352a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 36/65] fix: load_module_asdict loads the state of a
 module-type object

---
 dill/session.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 54d03a7..0233682 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -662,22 +662,26 @@ def load_module_asdict(
     try:
         file = _make_peekable(file)
         main_name = _identify_module(file)
-        old_main = sys.modules.get(main_name)
-        main = ModuleType(main_name)
-        if update:
-            if old_main is None:
-                old_main = _import_module(main_name)
-            main.__dict__.update(old_main.__dict__)
+        if main_name.startswith('__runtime__.'):
+            # a module-type object is always loaded into a new one
+            main = load_module(file, **kwds)
         else:
-            main.__builtins__ = __builtin__
-        sys.modules[main_name] = main
-        load_module(file, **kwds)
+            old_main = sys.modules.get(main_name)
+            main = ModuleType(main_name)
+            if update:
+                if old_main is None:
+                    old_main = _import_module(main_name)
+                main.__dict__.update(old_main.__dict__)
+            else:
+                main.__builtins__ = __builtin__
+            sys.modules[main_name] = main
+            load_module(file, **kwds)
     finally:
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
         try:
             if old_main is None:
-                del sys.modules[main_name]
+                sys.modules.pop(main_name, None)
             else:
                 sys.modules[main_name] = old_main
         except NameError:  # failed before setting old_main
-- 
2.43.0


From 9462e8589743a4e8bec6fb82e965b0ea802fe391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 37/65] fix: an imported submodule is looked up in sys.modules,
 so load_module_asdict leaves it alone

---
 dill/_dill.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 0e16616..c536e18 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1092,16 +1092,15 @@ def _import_module(import_name, safe=False):
         if import_name.startswith('__runtime__.'):
             return sys.modules[import_name]
         elif '.' in import_name:
+            found = sys.modules.get(import_name)
+            if isinstance(found, ModuleType):
+                return found
             items = import_name.split('.')
             module = '.'.join(items[:-1])
             obj = items[-1]
             submodule = getattr(__import__(module, None, None, [obj]), obj)
-            if isinstance(submodule, ModuleType):
+            if isinstance(submodule, (ModuleType, type)):
                 return submodule
-            if isinstance(submodule, type):
-                # a package may hold a class under the name of a submodule
-                found = sys.modules.get(import_name)
-                return found if isinstance(found, ModuleType) else submodule
             return __import__(import_name, None, None, [obj])
         else:
             return __import__(import_name)
-- 
2.43.0


From 963b76dc9ae43d72fa4807c10914c5e8001ad878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 38/65] fix: loading a session leaves a raw stream that can't
 be peeked at open

---
 dill/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index 0233682..e2ba66b 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -362,8 +362,11 @@ def _make_peekable(stream):
     if hasattr(stream, 'peek'):
         return stream
     if not (hasattr(stream, 'tell') and hasattr(stream, 'seek')):
+        class Reader(io.BufferedReader):
+            def close(self):  # the stream is not ours to close
+                pass
         try:
-            return io.BufferedReader(stream)
+            return Reader(stream)
         except Exception:
             pass
     return _PeekableReader(stream)
-- 
2.43.0


From cf05ebb79fc3e809aa6b521dd849c7b34a172f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 39/65] fix: with refimported, every reference to the saved
 module comes back as the module

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index c536e18..a5e20fc 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1279,6 +1279,8 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
+    if getattr(pickler, '_main_modified', False) and obj is pickler._original_main.__dict__:
+        obj = pickler._main.__dict__ # saved in place of the original
     if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
@@ -1767,6 +1769,8 @@ def save_module(pickler, obj):
         logger.trace(pickler, "M1: %s", obj)
         pickler.save_reduce(_import_module, (obj.__name__,), obj=obj)
         logger.trace(pickler, "# M1")
+    elif getattr(pickler, '_main_modified', False) and obj is pickler._original_main:
+        pickler.save(pickler._main) # saved in place of the original
     else:
         builtin_mod = _is_builtin_module(obj)
         is_session_main = is_dill(pickler, child=True) and obj is pickler._main
-- 
2.43.0


From 44fed2cb3d81a741e8090b0d6b61971b58483e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 40/65] fix: with refimported, functions and classes of the
 module itself are not taken for imported

---
 dill/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/session.py b/dill/session.py
index e2ba66b..e4dbbb9 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -127,6 +127,8 @@ IMPORTED_AS_MODULES = tuple(re.compile(x) for x in IMPORTED_AS_MODULES)
 
 def _lookup_module(modmap, name, obj, main_module):
     """lookup name or id of obj if module is imported"""
+    if isinstance(obj, (TypeType, FunctionType)) and obj.__module__ == main_module.__name__:
+        return None, None  # not imported, but another module holds it too
     for modobj, modname in modmap.by_name[name]:
         if modobj is obj and sys.modules[modname] is not main_module:
             return modname, name
-- 
2.43.0


From 2fb3ac4a9699a832d4a2452a8c1ed44fbd8993a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 41/65] fix: functions of a module-type object are bound to the
 module that is loaded

---
 dill/_dill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index a5e20fc..91e2080 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2049,6 +2049,9 @@ def save_function(pickler, obj):
             if _main_modified and globs_copy is _original_main.__dict__:
                 globs_copy = getattr(pickler, '_main', _original_main).__dict__
                 globs = globs_copy
+            # The same goes for a module-type object, that can't be imported.
+            elif getattr(pickler, '_session', False) and globs_copy is pickler._main.__dict__:
+                globs = globs_copy
             # If the globals is a module __dict__, do not save it in the pickle.
             elif globs_copy is not None and obj.__module__ is not None and \
                     getattr(_import_module(obj.__module__, True), '__dict__', None) is globs_copy:
-- 
2.43.0


From 952421dd15ca22b1430af40934518c2e1347c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 42/65] fix: handles of binary files and x modes are restored
 along with the contents of the file

---
 dill/_dill.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 91e2080..1b35fd1 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -865,16 +865,14 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         try:
             #FIXME: missing: *buffering*, encoding, softspace
             if fmode == FILE_FMODE:
-                f = open(name, mode if "w" in mode else "w")
-                f.write(fdata)
-                if "w" not in mode:
-                    f.close()
-                    f = open(name, mode)
-            elif name == '<fdopen>': # file did not exist
+                # put the contents back as they were
+                with open(name, "wb" if isinstance(fdata, bytes) else "w") as f:
+                    f.write(fdata)
+            if name == '<fdopen>': # file did not exist
                 import tempfile
                 f = tempfile.TemporaryFile(mode)
             # treat x mode as w mode
-            elif fmode == CONTENTS_FMODE \
+            elif fmode != HANDLE_FMODE \
                and ("w" in mode or "x" in mode):
                 # stop truncation when opening
                 flags = os.O_CREAT
@@ -1435,7 +1433,7 @@ def _save_file(pickler, obj, open_):
         else:
             position = obj.tell()
     if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
-        f = open_(obj.name, "r")
+        f = open_(obj.name, "rb")
         fdata = f.read()
         f.close()
     else:
-- 
2.43.0


From e68f8ef094e5d9843128a658b8a027870e2734e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 43/65] fix: find a capsule that is an attribute of a submodule

---
 dill/_dill.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 1b35fd1..254a782 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1037,12 +1037,11 @@ def _create_capsule(pointer, name, context, destructor):
         for i in range(1, uname.count('.')+1):
             names = uname.rsplit('.', i)
             try:
-                module = __import__(names[0])
-            except ImportError:
-                pass
-            obj = module
-            for attr in names[1:]:
-                obj = getattr(obj, attr)
+                obj = __import__(names[0], None, None, ['*'])
+                for attr in names[1:]:
+                    obj = getattr(obj, attr)
+            except (ImportError, AttributeError):
+                continue
             capsule = obj
             attr_found = True
             break
-- 
2.43.0


From f777abc7c98ec8dccf353129f2f9f12461701d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 44/65] fix: keep the name of a created capsule alive

---
 dill/_dill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 254a782..dc2c482 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1029,6 +1029,8 @@ def _same_namedtuple(class_, plain):
     except Exception: # the defaults do not compare
         return False
 
+_capsule_names = {} # a capsule only borrows its name, so keep it
+
 def _create_capsule(pointer, name, context, destructor):
     attr_found = False
     try:
@@ -1054,6 +1056,7 @@ def _create_capsule(pointer, name, context, destructor):
         raise UnpicklingError("%s object exists at %s but a PyCapsule object was expected." % (type(capsule), name))
     else:
         #warnings.warn('Creating a new PyCapsule %s for a C data structure that may not be present in memory. Segmentation faults or other memory errors are possible.' % (name,), UnpicklingWarning)
+        name = _capsule_names.setdefault(name, name)
         capsule = _PyCapsule_New(pointer, name, destructor)
         _PyCapsule_SetContext(capsule, context)
         return capsule
-- 
2.43.0


From b99d990eb29fabee45c97bf54ab727f4faaf27cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:23 +0000
Subject: [PATCH 45/65] fix: typed dictionaries keep their required and
 optional keys

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index dc2c482..5690e4b 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1924,6 +1924,10 @@ def save_type(pickler, obj, postproc_list=None):
                 _dict, attrs = _get_typedict_abc(obj, _dict, attrs, postproc_list)
                 logger.trace(pickler, "# ABC")
 
+            if isinstance(obj, getattr(typing, '_TypedDictMeta', ())):
+                # the keys are determined anew, as if total
+                attrs = dict(attrs or {}, **{k: v for k, v in _dict.items() if k.endswith('_keys__')})
+
             qualname = getattr(obj, '__qualname__', None)
             if attrs is not None:
                 for k, v in attrs.items():
-- 
2.43.0


From 793b5921c9b848c1978166cc06897d093b0a7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 46/65] fix: only take a live submodule for importable if its
 packages are

---
 dill/_dill.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 5690e4b..c270df4 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1094,6 +1094,7 @@ def _import_module(import_name, safe=False):
         elif '.' in import_name:
             found = sys.modules.get(import_name)
             if isinstance(found, ModuleType):
+                __import__(import_name) # its packages must be importable too
                 return found
             items = import_name.split('.')
             module = '.'.join(items[:-1])
-- 
2.43.0


From adc9b25542d0b986f19f34d31efffa3de6cae18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 47/65] fix: ranges with bounds too long to be written as text
 are pickled

---
 dill/_dill.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index c270df4..64161dc 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1665,6 +1665,12 @@ def save_slice(pickler, obj):
     return
 
 @register(XRangeType)
+def save_range(pickler, obj):
+    logger.trace(pickler, "Ra: %s", obj)
+    pickler.save_reduce(range, (obj.start, obj.stop, obj.step), obj=obj)
+    logger.trace(pickler, "# Ra")
+    return
+
 @register(EllipsisType)
 @register(NotImplementedType)
 def save_singleton(pickler, obj):
-- 
2.43.0


From d9231678bfa9db29fb1586cf05df90f51b2081bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 48/65] fix: give an alias to lambdas without arguments

---
 dill/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index 288e9dc..d570eed 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -461,7 +461,7 @@ def getsource(object, alias='', lstrip=False, enclosing=False, \
             if any(pat.match(line) for line in lines[skip:]): # we have a function
                 if alias != object.__name__:
                     lines.append('\n%s = %s\n' % (alias, object.__name__))
-            elif 'lambda ' in lines[skip]: # we have a lambda
+            elif re.search(r'\blambda\b', lines[skip]): # we have a lambda
                 if alias != lines[skip].split('=')[0].strip():
                     lines[skip] = '%s = %s' % (alias, lines[skip])
             else: # ...try to use the object's name
-- 
2.43.0


From f934e6311ecc936af0b7187a716edd77f5bf5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 49/65] fix: import the modules and builtin functions an
 importable source requires

---
 dill/source.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index d570eed..4509169 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -931,6 +931,12 @@ def _closuredimport(func, alias='', builtin=False):
         func_vars[name] = src
     return func_vars
 
+def _definition(obj, name):
+    """get code that defines the name, as required by some other object"""
+    if ismodule(obj) or isbuiltin(obj): # has no source (to be included)
+        return getimport(obj, name)
+    return getsource(obj, name, force=True)
+
 #XXX: should be able to use __qualname__
 def _closuredsource(func, alias=''):
     """get source code for closured objects; return a dict of 'name'
@@ -946,7 +952,7 @@ def _closuredsource(func, alias=''):
     for name,obj in list(free_vars.items()):
         if not isfunction(obj):
             # get source for 'non-funcs'
-            free_vars[name] = getsource(obj, force=True, alias=name)
+            free_vars[name] = _definition(obj, name)
             continue
         # get source for 'funcs'
         fobj = free_vars.pop(name)
@@ -1038,7 +1044,7 @@ def importable(obj, alias='', source=None, builtin=True):
             # get source code of objects referred to by obj in global scope
             from .detect import globalvars
             obj = globalvars(obj) #XXX: don't worry about alias? recurse? etc?
-            obj = list(getsource(_obj,name,force=True) for (name,_obj) in obj.items() if not isbuiltin(_obj))
+            obj = list(_definition(_obj, name) for (name,_obj) in obj.items())
             obj = '\n'.join(obj) if obj else ''
             # combine all referred-to source (global then enclosing)
             if not obj: return src
-- 
2.43.0


From 313c41d4df0b5045cd102c063445f0d7eca48749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 50/65] fix: the import of a closure has to be that of the
 closure itself

---
 dill/source.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index 4509169..4338aea 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -879,6 +879,11 @@ def _importable(obj, alias='', source=None, enclosing=False, force=True, \
     #XXX: possible failsafe... (for example, for instances when source=False)
     #     "import dill; result = dill.loads(<pickled_object>); # repr(<object>)"
 
+def _assigned(lines, module, obj):
+    """get the names that the lines assign to, and the module binds to obj"""
+    names = [line.split('=',1)[0].split()[-1].strip() for line in lines]
+    return [name for name in names if getattr(module, name, None) is obj]
+
 def _closuredimport(func, alias='', builtin=False):
     """get import for closured objects; return a dict of 'name' and 'import'"""
     import re
@@ -902,15 +907,16 @@ def _closuredimport(func, alias='', builtin=False):
             lines,_ = findsource(encl)
             candidate = [line for line in lines if getname(encl) in line and \
                          re.match(pat, line)]
+            candidate = _assigned(candidate, getmodule(encl), func)
             if not candidate:
                 mod = getname(getmodule(fobj))
                 #HACK: get file containing 'inner' function; is func there?
                 lines,_ = findsource(fobj)
                 candidate = [line for line in lines \
                              if getname(fobj) in line and re.match(pat, line)]
+                candidate = _assigned(candidate, getmodule(fobj), func)
             if not len(candidate): raise TypeError('import could not be found')
-            candidate = candidate[-1]
-            name = candidate.split('=',1)[0].split()[-1].strip()
+            name = candidate[-1]
             src = _getimport(mod, name, alias=alias, builtin=builtin)
         func_vars[name] = src
     if not func_vars:
@@ -924,9 +930,9 @@ def _closuredimport(func, alias='', builtin=False):
             # pattern: 'func = enclosing('
             candidate = [line for line in lines if getname(name) in line and \
                          re.match(r'.*[\w\s]=\s*'+getname(name)+r'\(', line)]
+            candidate = _assigned(candidate, getmodule(name), func)
             if not len(candidate): raise TypeError('import could not be found')
-            candidate = candidate[-1]
-            name = candidate.split('=',1)[0].split()[-1].strip()
+            name = candidate[-1]
             src = _getimport(mod, name, alias=alias, builtin=builtin)
         func_vars[name] = src
     return func_vars
-- 
2.43.0


From 36efa09802b7b2e69740d7535108499e52ae3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 51/65] fix: dump an instance with its class to a module with a
 name of another length

---
 dill/source.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index 4338aea..b37e122 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -613,7 +613,6 @@ def dumpsource(object, alias='', new=False, enclose=True):
     any global namespace pollution).
     """
     from dill import dumps
-    pik = repr(dumps(object))
     code = 'import dill\n'
     if enclose:
         stub = '__this_is_a_stub_variable__' #XXX: *must* be same _enclose.stub
@@ -625,11 +624,14 @@ def dumpsource(object, alias='', new=False, enclose=True):
 
     # if a 'new' instance is not needed, then just dump and load
     if not new or not _isinstance(object):
-        code += pre + 'dill.loads(%s)\n' % pik
+        code += pre + 'dill.loads(%r)\n' % dumps(object)
     else: #XXX: other cases where source code is needed???
         code += getsource(object.__class__, alias='', lstrip=True, force=True)
-        mod = repr(object.__module__) # should have a module (no builtins here)
-        code += pre + 'dill.loads(%s.replace(b%s,bytes(__name__,"UTF-8")))\n' % (pik,mod)
+        # should have a module (no builtins here)
+        obj = ('c%s\n%s\n' % (object.__module__, getname(object.__class__))).encode()
+        pik = dumps(object, protocol=3, byref=True) # has the class as above
+        code += pre + 'dill.loads(%r.replace(%r,b"c"+bytes(__name__,"UTF-8")+%r,1))\n' \
+                % (pik, obj, obj[obj.index(b'\n'):])
        #code += 'del %s' % object.__class__.__name__ #NOTE: kills any existing!
 
     if enclose:
-- 
2.43.0


From d607501dac39e5df9b021a3382c71f6246300c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 52/65] fix: an importable source has the globals of the
 functions of other modules

---
 dill/source.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index b37e122..aa66cf7 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -939,10 +939,14 @@ def _closuredimport(func, alias='', builtin=False):
         func_vars[name] = src
     return func_vars
 
-def _definition(obj, name):
-    """get code that defines the name, as required by some other object"""
+def _definition(obj, name, func=None):
+    """get code that defines the name, as required by the function func"""
     if ismodule(obj) or isbuiltin(obj): # has no source (to be included)
         return getimport(obj, name)
+    from .detect import globalvars
+    if isfunction(obj) and isfunction(func) and globalvars(obj) \
+       and obj.__globals__ is not func.__globals__: # has a scope of its own
+        return importable(obj, alias=name)
     return getsource(obj, name, force=True)
 
 #XXX: should be able to use __qualname__
@@ -1051,8 +1055,9 @@ def importable(obj, alias='', source=None, builtin=True):
                 src = '\n'.join(_src)
             # get source code of objects referred to by obj in global scope
             from .detect import globalvars
-            obj = globalvars(obj) #XXX: don't worry about alias? recurse? etc?
-            obj = list(_definition(_obj, name) for (name,_obj) in obj.items())
+            func = obj
+            obj = globalvars(func) #XXX: don't worry about alias? recurse? etc?
+            obj = list(_definition(_obj, name, func) for (name,_obj) in obj.items())
             obj = '\n'.join(obj) if obj else ''
             # combine all referred-to source (global then enclosing)
             if not obj: return src
-- 
2.43.0


From 26cfe0969fe69bbcf6102c70f865cf3d3de70268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:05 +0000
Subject: [PATCH 53/65] fix: find the source of lambdas of any arguments

---
 dill/source.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index aa66cf7..c8a15c3 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -217,13 +217,13 @@ def findsource(object):
 #   pat1b = r'^(\s*%s\W*=)' % name #FIXME: finds 'f = decorate(f)', not exec
     if ismethod(object):
         name = object.__name__
-        if name == '<lambda>': pat1 = r'(.*(?<!\w)lambda(:|\s))'
+        if name == '<lambda>': pat1 = r'(.*(?<!\w)lambda(:|\s|\*))'
         else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__func__
     if isfunction(object):
         name = object.__name__
         if name == '<lambda>':
-            pat1 = r'(.*(?<!\w)lambda(:|\s))'
+            pat1 = r'(.*(?<!\w)lambda(:|\s|\*))'
             obj = object #XXX: better a copy?
         else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__code__
@@ -237,10 +237,10 @@ def findsource(object):
         stdin = object.co_filename == '<stdin>'
         if stdin:
             lnum = len(lines) - 1 # can't get lnum easily, so leverage pat
-            if not pat1: pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+            if not pat1: pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s|\*))|^(\s*@)'
         else:
             lnum = object.co_firstlineno - 1
-            pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+            pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s|\*))|^(\s*@)'
         pat1 = re.compile(pat1); pat2 = re.compile(pat2)
        #XXX: candidate_lnum = [n for n in range(lnum) if pat1.match(lines[n])]
         while lnum > 0: #XXX: won't find decorators in <stdin> ?
@@ -318,7 +318,7 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
         if lstrip: block = _outdent(block)
         return ([block], [lnum]) if locate is True else [block]
 
-    pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
+    pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s|\*))'; pat1 = re.compile(pat1)
     pat2 = r'^(\s*@)'; pat2 = re.compile(pat2)
    #pat3 = r'^(\s*class\s)'; pat3 = re.compile(pat3) #XXX: enclosing class?
     #FIXME: bound methods need enclosing class (and then instantiation)
-- 
2.43.0


From 4f69f7df7cc13d3f051b36cb1822c627e937126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 54/65] fix: find the definition of a function in the
 interpreter's history

---
 dill/source.py | 74 ++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index c8a15c3..cbce9ca 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -55,18 +55,20 @@ def _matchlambda(func, line):
     from .detect import freevars, globalvars, varnames
     dummy = lambda : '__this_is_a_big_dummy_function__'
     # process the line (removing leading whitespace, etc)
-    lhs,rhs = line.split('lambda ',1)[-1].split(":", 1) #FIXME: if !1 inputs
+    lhs,rhs = re.split(r'\blambda\b', line, maxsplit=1)[-1].split(":", 1) #FIXME: if !1 inputs
     try: #FIXME: unsafe
         _ = eval("lambda %s : %s" % (lhs,rhs), globals(),locals())
     except Exception: _ = dummy
     # get code objects, for comparison
-    _, code = getcode(_).co_code, getcode(func).co_code
+    _, code = getcode(_), getcode(func)
+    same = all(getattr(_, i) == getattr(code, i) for i in ('co_names','co_varnames')) and \
+           [i for i in _.co_consts if not iscode(i)] == [i for i in code.co_consts if not iscode(i)]
+    _, code = _.co_code, code.co_code
     # check if func is in closure
     _f = [line.count(i) for i in freevars(func).keys()]
     if not _f: # not in closure
         # check if code matches
-        if _ == code: return True
-        return False
+        return same and _ == code
     # weak check on freevars
     if not all(_f): return False  #XXX: VERY WEAK
     # weak check on varnames and globalvars
@@ -102,6 +104,29 @@ def _matchlambda(func, line):
     return False
 
 
+def _findtyped(func, lines):
+    """find the line number of the last definition of the function (or code)
+    in the interpreter's history (with decorators)"""
+    name = getattr(func, '__name__', None) or func.co_name
+    if name == '<lambda>': # hackery needed to confirm a match
+        pat = re.compile(r'(.*(?<!\w)lambda(:|\s|\*))')
+        found = [n for (n,line) in enumerate(lines) if pat.match(line) and \
+                 (not isfunction(func) or _matchlambda(func, line))]
+    else: # not a lambda, just look for the name
+        pat = re.compile(r'(\s*)(?:async\s+)?def\s+%s\s*[(\[]' % re.escape(name))
+        found = [(n,pat.match(line)) for (n,line) in enumerate(lines)]
+        found = [(n,match.group(1)) for (n,match) in found if match]
+        # look for a nested definition only if there's no other
+        if '.' not in getattr(func, '__qualname__', name):
+            found = [(n,indent) for (n,indent) in found if not indent] or found
+        found = [n for (n,indent) in found]
+    if not found:
+        raise IOError('could not find function definition')
+    lnum = found[-1]
+    while lnum and name != '<lambda>' and lines[lnum-1].lstrip().startswith('@'):
+        lnum -= 1
+    return lnum
+
 def _findclass(cls, lines):
     """find the line number of the definition of the class (with decorators)"""
     import ast
@@ -212,20 +237,12 @@ def findsource(object):
         return lines, 0
 
     #NOTE: beneficial if search goes from end to start of buffer history
-    name = pat1 = obj = ''
-    pat2 = r'^(\s*@)'
+    obj = None
 #   pat1b = r'^(\s*%s\W*=)' % name #FIXME: finds 'f = decorate(f)', not exec
     if ismethod(object):
-        name = object.__name__
-        if name == '<lambda>': pat1 = r'(.*(?<!\w)lambda(:|\s|\*))'
-        else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__func__
     if isfunction(object):
-        name = object.__name__
-        if name == '<lambda>':
-            pat1 = r'(.*(?<!\w)lambda(:|\s|\*))'
-            obj = object #XXX: better a copy?
-        else: pat1 = r'^(\s*(?:async\s+)?def\s)'
+        obj = object #XXX: better a copy?
         object = object.__code__
     if istraceback(object):
         object = object.tb_frame
@@ -234,29 +251,14 @@ def findsource(object):
     if iscode(object):
         if not hasattr(object, 'co_firstlineno'):
             raise IOError('could not find function definition')
-        stdin = object.co_filename == '<stdin>'
-        if stdin:
-            lnum = len(lines) - 1 # can't get lnum easily, so leverage pat
-            if not pat1: pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s|\*))|^(\s*@)'
-        else:
-            lnum = object.co_firstlineno - 1
-            pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s|\*))|^(\s*@)'
-        pat1 = re.compile(pat1); pat2 = re.compile(pat2)
+        if object.co_filename == '<stdin>': # can't get lnum easily
+            return lines, _findtyped(obj or object, lines)
+        lnum = object.co_firstlineno - 1
+        pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s|\*))|^(\s*@)'
+        pat1 = re.compile(pat1)
        #XXX: candidate_lnum = [n for n in range(lnum) if pat1.match(lines[n])]
-        while lnum > 0: #XXX: won't find decorators in <stdin> ?
-            line = lines[lnum]
-            if pat1.match(line):
-                if not stdin: break # co_firstlineno does the job
-                if name == '<lambda>': # hackery needed to confirm a match
-                    if _matchlambda(obj, line): break
-                else: # not a lambda, just look for the name
-                    if name in line: # need to check for decorator...
-                        hats = 0
-                        for _lnum in range(lnum-1,-1,-1):
-                            if pat2.match(lines[_lnum]): hats += 1
-                            else: break
-                        lnum = lnum - hats
-                        break
+        while lnum > 0: # co_firstlineno does the job
+            if pat1.match(lines[lnum]): break
             lnum = lnum - 1
         return lines, lnum
 
-- 
2.43.0


From 66a0a2d1adf1401aeb7ef8047cd8dd82aba17043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 55/65] fix: the last definition of a class in the
 interpreter's history is its source

---
 dill/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index cbce9ca..d8cf7eb 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -152,7 +152,8 @@ def _findclass(cls, lines):
     find(tree, ())
     # if there are several, use the one with the methods of the class, or the last
     for method in cls.__dict__.values():
-        if isfunction(method) and method.__module__ == cls.__module__:
+        if isfunction(method) and method.__module__ == cls.__module__ \
+           and method.__code__.co_filename != '<stdin>': # has no line number
             lnum = method.__code__.co_firstlineno
             for (first, last) in found:
                 if first <= lnum <= last: return first - 1
-- 
2.43.0


From c835f96a199cea853691583672c2041bc6a55968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:16 +0000
Subject: [PATCH 56/65] fix: subclasses of generic classes keep their bases

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 64161dc..7d19d10 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1943,7 +1943,7 @@ def save_type(pickler, obj, postproc_list=None):
             if qualname is not None:
                 postproc_list.append((setattr, (obj, '__qualname__', qualname)))
 
-            if not hasattr(obj, '__orig_bases__') or typing.NamedTuple in obj.__orig_bases__:
+            if '__orig_bases__' not in obj.__dict__ or typing.NamedTuple in obj.__orig_bases__:
                 _save_with_postproc(pickler, (_create_type, (
                     type(obj), obj.__name__, obj.__bases__, _dict
                 )), obj=obj, postproc_list=postproc_list)
-- 
2.43.0


From 157db3a1ee0b5940d6eec11cbcbe6a3c35602bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:16 +0000
Subject: [PATCH 57/65] fix: a function whose docstring was removed has none in
 the copy

---
 dill/_dill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 7d19d10..489893a 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2088,6 +2088,9 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
+        # FunctionType takes the docstring from the code if it has one
+        if obj.__doc__ is None and isinstance((obj.__code__.co_consts or (None,))[0], str):
+            state_dict['__doc__'] = None
         # FunctionType takes the qualified name from the code if it has one
         if obj.__qualname__ != obj.__name__ or obj.__qualname__ != \
                 getattr(obj.__code__, 'co_qualname', obj.__qualname__):
-- 
2.43.0


From 58da3ef825ddc35191f5ab4dd9c2125f1cce621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:16 +0000
Subject: [PATCH 58/65] fix: set what refers back to an object before the rest
 of what is postponed

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 489893a..c14681d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1176,7 +1176,8 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
         # print(pickler.x*' ', 'pop', obj, id(obj))
         postproc = pickler._postproc.pop(id(obj))
         # assert postproc_list == postproc, 'Stack tampered!'
-        for reduction in reversed(postproc):
+        # what refers back to the object comes first, as the rest may use it
+        for reduction in sorted(reversed(postproc), key=lambda r: r[1][-1] is not obj):
             if reduction[0] is _setitems:
                 # use the internal machinery of pickle.py to speedup when
                 # updating a dictionary in postproc
-- 
2.43.0


From 298f90d056f6832c69d81af77957a637279e2ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:16 +0000
Subject: [PATCH 59/65] fix: find the function around a block by its syntax,
 not in text and comments

---
 dill/source.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index d8cf7eb..22f586f 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -297,6 +297,23 @@ def findsource(object):
     raise IOError('could not find code object')
 
 
+def _outermost(lines, lnum):
+    """get the number of the first line of the outermost function (or
+    statement with a lambda) that the given line is in, or the line itself"""
+    import ast
+    def start(node):
+        decorators = getattr(node, 'decorator_list', [])
+        return min(n.lineno for n in [node] + decorators) - 1
+    functions = (ast.FunctionDef, ast.AsyncFunctionDef)
+    for node in ast.walk(ast.parse(''.join(lines))): # outermost first
+        if not isinstance(node, ast.stmt): continue
+        if not (start(node) <= lnum < node.end_lineno): continue
+        if isinstance(node, functions) or not hasattr(node, 'body') \
+           and any(isinstance(n, ast.Lambda) for n in ast.walk(node)):
+            return start(node)
+    return lnum
+
+
 def getblocks(object, lstrip=False, enclosing=False, locate=False):
     """Return a list of source lines and starting line number for an object.
     Interactively-defined objects refer to lines in the interpreter's history.
@@ -331,6 +348,13 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
     line = 0
     blocks = []; _lnum = []
     target = ''.join(block)
+    try: # read the code, so that text and comments aren't taken for code
+        line = _outermost(lines, lnum)
+        blocks.append(getblock(lines[line:]))
+        _lnum.append(line)
+        line = lnum + 1
+    except (SyntaxError, ValueError, TokenError): # it's not (only) code
+        line = 0
     while line <= lnum: #XXX: repeat lnum? or until line < lnum?
         # see if starts with ('def','lambda') and contains our target block
         if pat1.match(lines[line]):
-- 
2.43.0


From 7806c88c863b98545e5c70871fb42b45ad5173ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:16 +0000
Subject: [PATCH 60/65] fix: check with an interpreter whose path contains
 spaces

---
 dill/_dill.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index c14681d..76f38ae 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2296,14 +2296,9 @@ def check(obj, *args, **kwds):
     finally:
         if fail and verbose:
             print("DUMP FAILED")
-    #FIXME: fails if python interpreter path contains spaces
-    # Use the following instead (which also processes the 'ignore' keyword):
-    #    ignore = kwds.pop('ignore', None)
-    #    unpickle = "dill.loads(%s, ignore=%s)"%(repr(_obj), repr(ignore))
-    #    cmd = [python, "-c", "import dill; print(%s)"%unpickle]
-    #    msg = "SUCCESS" if not subprocess.call(cmd) else "LOAD FAILED"
-    msg = "%s -c import dill; print(dill.loads(%s))" % (python, repr(_obj))
-    msg = "SUCCESS" if not subprocess.call(msg.split(None,2)) else "LOAD FAILED"
+    #FIXME: process the 'ignore' keyword, as in loads(_obj, ignore=ignore)
+    cmd = [python, "-c", "import dill; print(dill.loads(%s))" % repr(_obj)]
+    msg = "SUCCESS" if not subprocess.call(cmd) else "LOAD FAILED"
     if verbose:
         print(msg)
     return
-- 
2.43.0


From 2bc1ebd6ca2e1f143d882674bbef425f787c2bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 61/65] fix: load_types drops the names it loaded before,
 whatever they are called

---
 dill/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/__init__.py b/dill/__init__.py
index 8c45188..a756ec2 100644
--- a/dill/__init__.py
+++ b/dill/__init__.py
@@ -81,7 +81,7 @@ def load_types(pickleable=True, unpickleable=True):
     del _objects
     # reset contents of types to 'empty'
     [types.__dict__.pop(obj) for obj in list(types.__dict__.keys()) \
-                             if obj.find('Type') != -1]
+                             if not obj.startswith('__')]
     # add corresponding types from objects to types
     reload(types)
 
-- 
2.43.0


From 295414a8c34fb270940c1943de1d8697872ed329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 62/65] fix: the unpickleable regex iterator no longer hides
 the pickleable callable iterator

---
 dill/_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_objects.py b/dill/_objects.py
index 573fae8..38b8c8b 100644
--- a/dill/_objects.py
+++ b/dill/_objects.py
@@ -443,7 +443,7 @@ x['TracebackType'] = _function2()[1] #(see: inspect.getouterframes,getframeinfo)
 # built-in types (CH 5)
 # string services (CH 7)
 x['StructType'] = struct.Struct('c')
-x['CallableIteratorType'] = _srepattern.finditer('')
+x['SREFinditerType'] = _srepattern.finditer('')
 x['SREMatchType'] = _srepattern.match('')
 x['SREScannerType'] = _srepattern.scanner('')
 x['StreamReader'] = codecs.StreamReader(_cstrI) #XXX: ... and etc
-- 
2.43.0


From 440460f648780445ef39bf782263cf19e8bef779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:50 +0000
Subject: [PATCH 63/65] fix: a plain namedtuple stays plain once an instance
 was pickled

---
 dill/_dill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 76f38ae..0372114 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1022,7 +1022,9 @@ def _same_namedtuple(class_, plain):
         if name == '__doc__' and isinstance(attr, str): # may have been renamed
             return attr.partition('(')[1:] == other.partition('(')[1:]
         return attr is other or attr == other
-    new, old = vars(class_), vars(plain)
+    new, old = dict(vars(class_)), dict(vars(plain))
+    new.pop('__slotnames__', None) # cached when an instance is pickled
+    old.pop('__slotnames__', None)
     try:
         return class_.__qualname__ == plain.__qualname__ and new.keys() == old.keys() \
                 and all(same(name, new[name], old[name]) for name in old)
-- 
2.43.0


From dc582df6ce1b4965e24cc9db05a77a9b90915034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:51 +0000
Subject: [PATCH 64/65] fix: a session of a module with a long name can be
 loaded

---
 dill/session.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index e4dbbb9..1d34604 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -382,14 +382,15 @@ def _peek(file, n):
         file.seek(position)
     return chunk
 
-def _identify_module(file, main=None):
+def _identify_module(file, main=None, size=256):
     """identify the name of the module stored in the given file-type object"""
     from pickletools import genops
     UNICODE = {'UNICODE', 'BINUNICODE', 'SHORT_BINUNICODE'}
     found_import = False
     name = ''
     try:
-        for opcode, arg, pos in genops(_peek(file, 256)):
+        chunk = _peek(file, size)
+        for opcode, arg, pos in genops(chunk):
             if not found_import:
                 if opcode.name == 'SHORT_BINUNICODE':
                     name = arg
@@ -405,6 +406,8 @@ def _identify_module(file, main=None):
         if isinstance(error, NotImplementedError) and main is not None:
             # file is not peekable, but we have main.
             return None
+        if found_import and len(chunk) >= size: # the name is cut short
+            return _identify_module(file, main, 2*size)
         raise UnpicklingError("unable to identify main module") from error
 
 def load_module(
-- 
2.43.0


From 3564caf44cb82651dfd60d51bad7af3640c21516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:51 +0000
Subject: [PATCH 65/65] fix: a class that takes its hash from a base stays
 hashable

---
 dill/_dill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 0372114..863bf1d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1821,6 +1821,8 @@ def _get_typedict_type(cls, clsdict, attrs, postproc_list):
     for name, value in dict.items(clsdict):
         try:
             base_value = inherited_dict[name]
+            if name == '__hash__' and '__eq__' in clsdict:
+                continue # without it, the class would not be hashable
             if value is base_value and hasattr(value, '__qualname__'):
                 to_remove.append(name)
         except KeyError:
-- 
2.43.0

