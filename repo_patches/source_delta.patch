From df3017e6191a8903736eb9c5b58eb0754f8b9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 01/88] fix: ListCollection.insert inserts the item itself

It slice-assigned the item, so inserting iterated over it (TypeError for
most items, silent expansion for iterable ones).
---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index feb95fb..efad13b 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -375,7 +375,7 @@ class ListCollection(KeyedCollection):
             i += len(self)
         if i < 0:
             i = 0
-        self[i:i] = x
+        self[i:i] = [x]
 
     def pop(self, i=-1):
         if i < 0:
-- 
2.43.0


From 85c00b9c58c10aa5a403a72b4c9c956cbc4b7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 02/88] fix: number the items of a mapping passed to a
 ListCollection

Every item was yielded with index 0.
---
 normalize/coll.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index efad13b..bec9d92 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -322,6 +322,7 @@ class ListCollection(KeyedCollection):
             i = 0
             for k in sorted(coll.keys()):
                 yield (i, coll[k])
+                i += 1
         elif isinstance(coll, (collections.abc.Sequence, types.GeneratorType)) or (
             hasattr(coll, "next") and callable(coll.next)
         ) or (
-- 
2.43.0


From e6708ba85e536e2d77d3aee137a9a0a4f9b7222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 03/88] fix: ListCollection.pop and index with out of range
 arguments

pop(-n) beyond the start removed item 0 instead of raising IndexError, and
index() with a stop beyond the end raised IndexError, not ValueError.
---
 normalize/coll.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index bec9d92..822512b 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -360,7 +360,7 @@ class ListCollection(KeyedCollection):
             i += len_
             if i < 0:
                 i = 0
-        if j is None:
+        if j is None or j > len_:
             j = len_
         elif j < 0:
             j += len_
@@ -379,10 +379,6 @@ class ListCollection(KeyedCollection):
         self[i:i] = [x]
 
     def pop(self, i=-1):
-        if i < 0:
-            i += len(self)
-            if i < 0:
-                i = 0
         x = self[i]
         del self[i]
         return x
-- 
2.43.0


From 4e0f360db2e164265f2005f9e772a2692e841a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 04/88] fix: ListCollection.extend with itself never terminated

The list was grown while a generator was iterating over it; also items
preceding one which can't be coerced were left behind.
---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 822512b..3db5377 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -349,7 +349,7 @@ class ListCollection(KeyedCollection):
         """Adds new values to the end of the collection, coercing items.
         """
         # perhaps: self[len(self):len(self)] = iterable
-        self._values.extend(self.coerce_value(item) for item in iterable)
+        self._values.extend([self.coerce_value(item) for item in iterable])
 
     def count(self, value):
         return self._values.count(value)
-- 
2.43.0


From 95a15e6f9dec641f7b5daa003bd2335385f59732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 05/88] fix: DictCollection silently dropped unrecognised
 inputs

Converting from another Collection, or from something which is not a
mapping, sequence or iterator gave an empty collection.
---
 normalize/coll.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index 3db5377..c61e5af 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -224,6 +224,9 @@ class DictCollection(KeyedCollection):
         if isinstance(coll, collections.abc.Mapping):
             for k, v in coll.items():
                 yield k, v
+        elif isinstance(coll, Collection):
+            for k, v in coll.itertuples():
+                yield k, v
         elif isinstance(coll, collections.abc.Sequence):
             i = 0
             for v in coll:
@@ -238,6 +241,11 @@ class DictCollection(KeyedCollection):
                 else:
                     yield (i, v)
                 i += 1
+        elif coll:
+            raise exc.CollectionCoerceError(
+                passed=coll,
+                colltype=cls,
+            )
 
     def itertuples(self):
         return iter(self._values.items())
-- 
2.43.0


From 4550d58672a6a9a3743a9c06abcac328c5b2080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 06/88] fix: V1Property.slot_is_empty raised TypeError (bad
 super call)

---
 normalize/property/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 6828f8b..88c9fca 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -454,7 +454,7 @@ class V1Property(SafeProperty):
     def slot_is_empty(self, obj):
         if self.v1_upgraded:
             return False
-        return super(V1Property, obj).slot_is_empty(obj)
+        return super(V1Property, self).slot_is_empty(obj)
 
     def attribute_error_hook(self):
         return self.v1_none
-- 
2.43.0


From d1f2c5672667df8cab2533ffb236e50a1aebeb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 07/88] fix: deleting an unset attribute raised KeyError

... including assigning None to a V1-style attribute which was not set.
---
 normalize/property/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 88c9fca..3372c5a 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -417,6 +417,8 @@ class SafeProperty(Property):
         it is false"""
         if self.required:
             raise exc.PropertyRequired(prop=self)
+        if self.name not in obj.__dict__:
+            raise AttributeError(self.fullname)
         del obj.__dict__[self.name]
 
 
@@ -470,6 +472,12 @@ class V1Property(SafeProperty):
             else:
                 raise
 
+    def __delete__(self, obj):
+        """As for other properties, but deleting an attribute which has no
+        value (and hence already reads as the null value) is not an error."""
+        if self.required or self.name in obj.__dict__:
+            super().__delete__(obj)
+
 
 class DiffasProperty(Property):
     __trait__ = "diffas"
-- 
2.43.0


From 2a117e4b41a8a9ddf556dfd51a7625ea02d620e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 08/88] fix: honor false defaults of lazy and required
 properties

The v1 upgrade removed the default: a lazy property then returned the
internal 'not set' sentinel (or failed coercing it), and a required one
raised PropertyRequired despite the default.
---
 normalize/property/__init__.py | 2 ++
 normalize/property/meta.py     | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 3372c5a..845a9cf 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -364,6 +364,8 @@ class LazyProperty(Property):
 
         if self.name not in obj.__dict__:
             value = self.get_default(obj)
+            if value is _none:
+                return self.attribute_error_hook()
             obj.__dict__[self.name] = self.type_safe_value(value)
 
         return super(LazyProperty, self).__get__(obj, type_)
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f424f20..a2643e3 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -93,7 +93,8 @@ def has(selfie, self, args, kwargs):
     elif "ro" not in all_traits and safe_unless_ro:
         all_traits.add("safe")
 
-    if "v1" not in all_traits:
+    if "v1" not in all_traits and "lazy" not in all_traits and \
+            not kwargs.get('required', False):
         if 'default' in kwargs and looks_like_v1_none(kwargs['default']):
             all_traits.add("v1")
             if 'safe' not in all_traits:
-- 
2.43.0


From eaf5602c6aaa5bbbf4b6f3e0d19565c733d7d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 09/88] fix: define the NoneMutable and
 AmbiguousPropertyTraitArg errors

They are raised by property declaration but did not exist, so that an
AttributeError was raised instead.
---
 normalize/exc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/normalize/exc.py b/normalize/exc.py
index 16a1fa9..914c154 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -132,6 +132,12 @@ class AmbiguousConstruction(UsageException):
     message = "only init_dict or kwargs may be specified"
 
 
+class AmbiguousPropertyTraitArg(PropertyDefinitionError):
+    message = (
+        "Property argument '{trait_arg}' could be for any of: {could_be}"
+    )
+
+
 class BadAssignment(EmptyAttributeError, TypeError):
     message = (
         "Can't assign to the empty placeholder for ({typenames})"
@@ -300,6 +306,10 @@ class MultipleInheritanceClash(SubclassError):
     )
 
 
+class NoneMutable(PropertyDefinitionError):
+    message = "v1_none value {passed!r} is not immutable"
+
+
 class NotCallable(EmptyAttributeError, TypeError):
     message = (
         "No types in ({typenames}) support invoking"
-- 
2.43.0


From be0c2886928fc8e148d53b28b309670e36e8cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 10/88] fix: JsonRecordDict.__repr__ raised TypeError (bad
 super call)

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f571c84..2d89f0a 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -497,7 +497,7 @@ class JsonRecordDict(RecordDict, JsonRecord):
         return to_json(self, extraneous)
 
     def __repr__(self):
-        super_repr = super(JsonRecordList, self).__repr__()
+        super_repr = super(JsonRecordDict, self).__repr__()
         return super_repr.replace("{", "values={", 1)
 
 
-- 
2.43.0


From 07af66f26fa2981d35cf55c15512ea77bf52ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 11/88] fix: attribute protocol of AutoJsonRecord

Missing attributes raised KeyError (breaking hasattr, copy), assignment
stored nothing or raised TypeError, and deletion always raised TypeError.
---
 normalize/record/json.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 2d89f0a..1ab5087 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -585,20 +585,28 @@ class AutoJsonRecord(JsonRecord):
     def __getattr__(self, attr):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
-        else:
+        try:
             return self.unknown_json_keys[attr]
+        except KeyError:
+            raise AttributeError(
+                "%s has no attribute or key '%s'" % (type(self).__name__, attr)
+            )
 
     def __setattr__(self, attr, value):
         if attr in type(self).properties:
-            return type(self).properties[attr].__set__(self)
+            super(AutoJsonRecord, self).__setattr__(attr, value)
         else:
-            self.unknown_json_keys[attr]
+            self.unknown_json_keys[attr] = value
 
-    def __delattr__(self, attr, value):
+    def __delattr__(self, attr):
         if attr in type(self).properties:
-            return type(self).properties[attr].__del__(self)
-        else:
+            super(AutoJsonRecord, self).__delattr__(attr)
+        elif attr in self.unknown_json_keys:
             del self.unknown_json_keys[attr]
+        else:
+            raise AttributeError(
+                "%s has no attribute or key '%s'" % (type(self).__name__, attr)
+            )
 
 
 class NCAutoJsonRecord(AutoJsonRecord):
-- 
2.43.0


From 108222134d408fbfd3ccb0fd7025fd05098d0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 12/88] fix: AutoJsonRecord.json_data lost the contents of
 nested objects

to_json() on a nested AutoJsonRecord does not include its automatic keys.
---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 1ab5087..f094a1b 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -579,7 +579,7 @@ class AutoJsonRecord(JsonRecord):
                 for k, v in self.unknown_json_keys.items():
                     k = type(self).convert_json_key_out(k)
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def __getattr__(self, attr):
-- 
2.43.0


From d687f9e0b6b7bda71836cdff6f871ae737a97ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 13/88] fix: AutoJsonRecord refused lists mixing objects and
 other values

... if the first item was an object.
---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f094a1b..79d85c1 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -527,7 +527,7 @@ class AutoJsonRecord(JsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(AutoJsonRecord)(thing)
         else:
             return thing
@@ -626,7 +626,7 @@ class NCAutoJsonRecord(AutoJsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(NCAutoJsonRecord)(thing)
         else:
             return thing
-- 
2.43.0


From b4c04833942d37f48739a60ebdd084829b465c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 14/88] fix: FieldSelector raised raw KeyError/IndexError for
 missing items

A missing dict key escaped as KeyError even from get_or_none(), and from
intermediate steps of put() and delete(); deleting a missing item raised
the error of the underlying container.
---
 normalize/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 45d9ae2..ada6267 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -160,7 +160,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -221,7 +221,7 @@ class FieldSelector(object):
                 if _try_index(record, selector):
                     try:
                         sub_record = record[selector]
-                    except IndexError:
+                    except LookupError:
                         raise FieldSelectorException(
                             "Could not find Record specified by index: %s." %
                             selector
@@ -337,7 +337,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -353,7 +353,10 @@ class FieldSelector(object):
                 else:
                     record[:] = ()
             else:
-                del record[to_delete]
+                try:
+                    del record[to_delete]
+                except LookupError:
+                    raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
-- 
2.43.0


From e3aaa08296e255eff20c56fe909d96adfa5c68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 15/88] fix: errors of FieldSelector.put and post lost their
 message

The base exception class was raised with its message as an argument, which
it ignores; they all read '(uncustomized exception!)'.
---
 normalize/exc.py      |  4 ++++
 normalize/selector.py | 26 ++++++--------------------
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 914c154..7ed8f2d 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -257,6 +257,10 @@ class FieldSelectorAttributeError(FieldSelectorException, AttributeError):
     message = "Could not find property specified by name: {name}"
 
 
+class FieldSelectorAutoVivifyError(FieldSelectorException):
+    message = "Must specify default= or isa= to auto-vivify {prop}"
+
+
 class FieldSelectorKeyError(FieldSelectorException, KeyError):
     message = "Could not find Record specified by index: {key}"
 
diff --git a/normalize/selector.py b/normalize/selector.py
index ada6267..cc41412 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -25,6 +25,7 @@ import re
 from normalize.coll import DictCollection
 from normalize.coll import ListCollection
 from normalize.exc import FieldSelectorAttributeError
+from normalize.exc import FieldSelectorAutoVivifyError
 from normalize.exc import FieldSelectorException
 from normalize.exc import FieldSelectorKeyError
 
@@ -199,18 +200,12 @@ class FieldSelector(object):
                 try:
                     record[selector] = value
                 except LookupError:
-                    raise FieldSelectorException(
-                        "Could not find Record specified by index: %s." %
-                        selector
-                    )
+                    raise FieldSelectorKeyError(key=selector)
             else:
                 try:
                     setattr(record, selector, value)
                 except AttributeError:
-                    raise FieldSelectorException(
-                        "Could not find Record specified by property "
-                        "name: %s." % selector
-                    )
+                    raise FieldSelectorAttributeError(name=selector)
         else:
             selector = self.selectors[0]
             sub_selector = type(self)(self.selectors[1:])
@@ -222,18 +217,12 @@ class FieldSelector(object):
                     try:
                         sub_record = record[selector]
                     except LookupError:
-                        raise FieldSelectorException(
-                            "Could not find Record specified by index: %s." %
-                            selector
-                        )
+                        raise FieldSelectorKeyError(key=selector)
                 else:
                     try:
                         sub_record = getattr(record, selector)
                     except AttributeError:
-                        raise FieldSelectorException(
-                            "Could not find Record specified by property "
-                            "name: %s." % selector
-                        )
+                        raise FieldSelectorAttributeError(name=selector)
                 sub_selector.put(sub_record, value)
 
     def post(self, record, value):
@@ -287,10 +276,7 @@ class FieldSelector(object):
                 if not hasattr(record, selector):
                     prop = type(record).properties[selector]
                     if not prop.valuetype:
-                        raise FieldSelectorException(
-                            "Must specify default= or isa= to auto-vivify "
-                            "%s" % prop
-                        )
+                        raise FieldSelectorAutoVivifyError(prop=prop)
                     setattr(record, selector, prop.valuetype(**kwarg))
                     if kwarg:
                         put_final = True
-- 
2.43.0


From 9f7b7228d4f8f049da4fbdb4594d8733211fb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 16/88] fix: FieldSelector.post through a wildcard raised
 TypeError

The value was not passed on.
---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index cc41412..c633e1a 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -244,7 +244,7 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r) for r in record)
+                return sum(sub_field_selector.post(r, value) for r in record)
 
             # supports the case where an item is created by setting
             # a single required field value
-- 
2.43.0


From 5bdeb317acb6c76ae3f4b01231fa24f87ac233d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 17/88] fix: FieldSelector could not refer to properties of
 list collections

An attribute name was used to subscript the list (TypeError), although
diff() returns such selectors.
---
 normalize/selector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index c633e1a..18267b0 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -35,6 +35,9 @@ def _try_index(instance, selector):
         return False
     if isinstance(selector, int):
         return True
+    if isinstance(selector, str) and isinstance(instance, ListCollection):
+        # extra properties of the collection
+        return False
     if getattr(instance, "__getitem__", False):
         return True
     return False
-- 
2.43.0


From c9a9e0aed953a6558553fafa223f78a98c007a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 18/88] fix: FieldSelector wildcard over a dict visited its
 keys

... and not its values, as MultiFieldSelector does.
---
 normalize/selector.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 18267b0..8fd8276 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -43,6 +43,13 @@ def _try_index(instance, selector):
     return False
 
 
+def _all_items(instance):
+    """Iterates over all of the items which the 'None' selector refers to"""
+    if isinstance(instance, (collections.abc.Mapping, DictCollection)):
+        return iter(list(instance.values()))
+    return iter(instance)
+
+
 @functools.total_ordering
 class FieldSelector(object):
     """
@@ -148,7 +155,7 @@ class FieldSelector(object):
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 rv = []
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     val = None
                     try:
                         val = sub_field_selector.get(r)
@@ -213,7 +220,7 @@ class FieldSelector(object):
             selector = self.selectors[0]
             sub_selector = type(self)(self.selectors[1:])
             if selector is None:
-                for x in record:
+                for x in _all_items(record):
                     sub_selector.put(x, value)
             else:
                 if _try_index(record, selector):
@@ -247,7 +254,10 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r, value) for r in record)
+                return sum(
+                    sub_field_selector.post(r, value) for r in
+                    _all_items(record)
+                )
 
             # supports the case where an item is created by setting
             # a single required field value
@@ -312,7 +322,7 @@ class FieldSelector(object):
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     try:
                         sub_field_selector.delete(r)
                         all_exc = False
-- 
2.43.0


From 06049b87ebf6ef2fb4e19fa304142bef4ab91f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 19/88] fix: FieldSelector.path of unusual keys could not be
 parsed back

Keys containing a quote and bracket, or ending in a backslash or newline,
empty keys and negative indices were parsed to something else.
---
 normalize/selector.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 8fd8276..12bacd5 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -506,7 +506,7 @@ def _fmt_selector_path(selector):
         return "[%d]" % selector
     elif selector is None:
         return "[*]"
-    elif not re.match(r'^[a-zA-Z_]\w*$', selector):
+    elif not re.match(r'[a-zA-Z_]\w*\Z', selector):
         return u"['%s']" % selector.replace("\\", "\\\\").replace("'", "\\'")
     else:
         return ".%s" % selector
@@ -515,9 +515,9 @@ def _fmt_selector_path(selector):
 _PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]''',
     re.X,
 )
@@ -533,7 +533,7 @@ def _scan_selector_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
@@ -922,9 +922,9 @@ class MultiFieldSelector(object):
 _MFS_PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]|
         (?P<branch>[()|])
         ''',
@@ -960,7 +960,7 @@ def _scan_mfs_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
-- 
2.43.0


From 5627d2e95ee28bf99eb057c92657ba8fd8d309e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 20/88] fix: FieldSelector.startswith raised IndexError for a
 longer prefix

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 12bacd5..538bb3a 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -474,13 +474,13 @@ class FieldSelector(object):
                 that passed.
         """
         if isinstance(key_or_fs, (FieldSelector, list, tuple)):
-            return all(
+            return len(key_or_fs) <= len(self.selectors) and all(
                 key_or_fs[i] == self.selectors[i] for i in range(
                     0, len(key_or_fs),
                 )
             )
         else:
-            return self.selectors[0] == key_or_fs
+            return bool(self.selectors) and self.selectors[0] == key_or_fs
 
     @property
     def path(self):
-- 
2.43.0


From 3170516b4e88e216407dd341075160a0aee4fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 21/88] fix: FieldSelector accepted invalid elements which are
 false

eg, 0.0 or an empty tuple.
---
 normalize/selector.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 538bb3a..291593f 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -82,9 +82,8 @@ class FieldSelector(object):
 
             # Validate the selector
             if any(
-                e for e in expr_selectors if not (
-                    isinstance(e, str) or isinstance(e, int) or e is None
-                )
+                not (isinstance(e, str) or isinstance(e, int) or e is None)
+                for e in expr_selectors
             ):
                 raise ValueError(
                     "FieldSelectors can only contain ints/longs, "
-- 
2.43.0


From 1dfd9b7974dfb6d4ddc7662798218d1063514158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 22/88] fix: equal FieldSelectors had different hashes

... and so did records which have them as attributes, such as DiffInfo.
---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 291593f..aab4aa2 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -369,7 +369,7 @@ class FieldSelector(object):
         return self.selectors == other.selectors
 
     def __hash__(self):
-        return super(FieldSelector, self).__hash__()
+        return hash(tuple(self.selectors))
 
     def __ne__(self, other):
         """
-- 
2.43.0


From 4921ffef63429f3617a5d7c0dc31ea47545c1802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 23/88] fix: path of an empty MultiFieldSelector parsed as
 'everything'

---
 normalize/selector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index aab4aa2..0ad9ed5 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -947,7 +947,8 @@ def _scan_mfs_path(path):
                 fs = list(stack[-1])
             else:
                 if not popping:
-                    mfs.append(fs)
+                    if fs:
+                        mfs.append(fs)
                     popping = True
                 fs = stack.pop()
         else:
-- 
2.43.0


From e6d2e5ee1c7e9b07e8639c8d98d1f594e3d24db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 24/88] fix: MultiFieldSelector.delete removed the wrong list
 items

Items were deleted in ascending order, each shifting those after it.
---
 normalize/selector.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 0ad9ed5..28da645 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -556,6 +556,15 @@ class _None(object):
     pass
 
 
+def _deletion_order(fs):
+    """Sort key for deletion of several fields: makes sure that the removal of
+    an item from a list does not change the indices of those still to go."""
+    return tuple(
+        (0, -x if x >= 0 else x, "") if isinstance(x, int) else
+        (1, 0, x or "") for x in fs.selectors
+    )
+
+
 class MultiFieldSelector(object):
     """Version of a FieldSelector which stores multiple FieldSelectors combined
     into a single tree structure."""
@@ -862,7 +871,7 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        for fs in self:
+        for fs in sorted(self, key=_deletion_order):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From fa3f50e2535c0da57ebc4429691a2577481cfc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 25/88] fix: MultiFieldSelector.patch of a field missing from
 both objects

raised an error, after having changed some other fields, if the missing
field was nested in another missing field.
---
 normalize/selector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 28da645..63a5399 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -909,7 +909,11 @@ class MultiFieldSelector(object):
 
         for fs, val in fs_val:
             if val is _None:
-                fs.delete(target)
+                try:
+                    fs.delete(target)
+                except FieldSelectorAttributeError:
+                    # already absent
+                    pass
             else:
                 fs.post(target, val if not copy else copy(val))
 
-- 
2.43.0


From dd1389946f7fb749e9de1696db1f0137f5c39716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 26/88] fix: composition of property types depended on
 declaration order

Which types were composed earlier in the process decided whether declaring
e.g. a read-only JSON property worked or failed with KeyError, a type clash
or an MRO error.  LazySafeProperty(json_name=...) was never initialized, types
from make_property_type() with JSON defaults couldn't be used unless their
trait's name sorted before 'json', and a read-only JSON property with a false
default could be assigned to.
---
 normalize/property/meta.py | 104 +++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 55 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index a2643e3..9c75634 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -16,12 +16,18 @@
 
 from collections import defaultdict
 import inspect
+import itertools
 
 import normalize.exc as exc
 
 
 PROPERTY_TYPES = dict()
 
+# Keys of PROPERTY_TYPES which were composed automatically; these aren't used
+# for composing others, so that the result doesn't depend on what was composed
+# before.
+COMPOSED_TYPES = set()
+
 # Duck typing kwargs... for picking the right Property sub-class to instantiate
 # based on the kwargs used in the Property() constructor
 DUCKWARGS = defaultdict(set)
@@ -145,7 +151,7 @@ def create_property_type_from_traits(trait_set):
     wanted_traits = set(trait_set)
     stock_types = dict(
         (k, v) for k, v in list(PROPERTY_TYPES.items()) if
-        set(k).issubset(wanted_traits)
+        set(k).issubset(wanted_traits) and k not in COMPOSED_TYPES
     )
 
     traits_available = set()
@@ -159,62 +165,50 @@ def create_property_type_from_traits(trait_set):
             missing=repr(tuple(sorted(missing_traits))),
         )
 
-    made_types = []
-    # mix together property types, until we have made the right type.
-    while trait_set not in PROPERTY_TYPES:
-
-        # be somewhat deterministic: always start with types which provide the
-        # 'first' trait on the list
-        start_with = set(
-            k for k in list(stock_types.keys()) if k and k[0] == trait_set[0]
+    # mix together all of the types which provide the wanted traits, except
+    # those which are extended by another.  Those which supply default
+    # arguments go first, so that the others get to see the arguments.
+    bases = [
+        x for _, x in sorted(
+            stock_types.items(), key=lambda kv: (
+                not hasattr(kv[1], "default_kwargs"), -len(kv[0]), kv[0],
+            ),
+        ) if not any(
+            y is not x and issubclass(y, x) for y in stock_types.values()
         )
+    ]
+    new_name = bases[0].__name__
+    for base in bases[1:]:
+        new_name = _merge_camel_case_names(new_name, base.__name__)
+
+    for mro in itertools.permutations(bases):
+        try:
+            new_type = type(new_name, mro, {})
+        except TypeError:
+            # these can't be combined in this order
+            continue
+        COMPOSED_TYPES.add(trait_set)
+        _keep_read_only(new_type)
+        return
+
+    raise exc.PropertyTypeMixinFailure(
+        traitlist=repr(trait_set),
+        newtypelist=", ".join(
+            "%r (%s)" % (x.traits, x.__name__) for x in bases
+        )
+    )
 
-        # prefer extending already composed trait sets, by only adding to the
-        # longest ones
-        longest = max(len(x) for x in start_with)
-        made_type = False
-
-        for base in sorted(start_with):
-            if len(base) != longest:
-                continue
-
-            # pick a type to join on which reduces the short-fall as much as
-            # possible.
-            shortfall = len(wanted_traits) - len(base)
-            mix_in = None
-            for other in sorted(stock_types.keys()):
-                # skip mixes that will fail; this means that the type on the
-                # list is a trait subset of 'base'
-                mixed_traits = tuple(sorted(set(base) | set(other)))
-                if mixed_traits in PROPERTY_TYPES:
-                    continue
-
-                this_shortfall = len(wanted_traits - (set(base) | set(other)))
-                if this_shortfall < shortfall:
-                    mix_in = other
-                    mixed_in_product = mixed_traits
-                    shortfall = this_shortfall
-                    if shortfall == 0:
-                        break
-
-            if mix_in:
-                base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[other]
-                new_name = _merge_camel_case_names(
-                    base_type.__name__, other_type.__name__,
-                )
-                new_type = type(new_name, (base_type, other_type), {})
-                stock_types[mixed_in_product] = new_type
-                made_types.append(new_type)
-                made_type = True
-
-        if not made_type:
-            raise exc.PropertyTypeMixinFailure(
-                traitlist=repr(trait_set),
-                newtypelist=", ".join(
-                    "%r (%s)" % (x.traits, x.__name__) for x in made_types
-                )
-            )
+
+def _keep_read_only(property_type):
+    """Types with the 'ro' trait are read-only, even if they are mixed with
+    types which check assignments."""
+    if "ro" not in property_type.traits:
+        return
+    ro_type = PROPERTY_TYPES[("ro",)]
+    for name in "__set__", "__delete__":
+        provider = next(x for x in property_type.__mro__ if name in vars(x))
+        if not issubclass(provider, ro_type):
+            setattr(property_type, name, getattr(ro_type, name))
 
 
 class MetaProperty(type):
-- 
2.43.0


From 47004f9e945f2012d9621b0bb93d3b69ec8769f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 27/88] fix: ListProperty and DictProperty ignored the 'unsafe'
 trait

Property(list_of=X, traits=['unsafe']) is unchecked, as documented;
ListProperty(of=X, traits=['unsafe']) wasn't.
---
 normalize/property/meta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 9c75634..af22031 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -94,7 +94,8 @@ def has(selfie, self, args, kwargs):
 
     all_traits = set(self.traits) | extra_traits
 
-    if "unsafe" in all_traits and "safe" not in all_traits:
+    unsafe = "unsafe" in all_traits and "safe" not in all_traits
+    if unsafe:
         all_traits.remove("unsafe")
     elif "ro" not in all_traits and safe_unless_ro:
         all_traits.add("safe")
@@ -117,7 +118,11 @@ def has(selfie, self, args, kwargs):
             base=type(self).__name__,
         )
 
-    return super(selfie, self).__new__(property_type)
+    new = super(selfie, self).__new__
+    if unsafe and "safe" not in all_traits and new is not object.__new__:
+        # don't let the types which this one extends add checks back
+        return new(property_type, traits=("unsafe",))
+    return new(property_type)
 
 
 def _merge_camel_case_names(base_name, new_name):
-- 
2.43.0


From 0c048bbf4d37be26f2a09e515e859d64b47a8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 28/88] fix: reporting an ambiguous property argument raised
 AttributeError

---
 normalize/property/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index af22031..19e95e9 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -77,8 +77,8 @@ def has(selfie, self, args, kwargs):
             if len(implies_traits) > 1:
                 raise exc.AmbiguousPropertyTraitArg(
                     trait_arg=argname,
-                    could_be=" ".join(
-                        sorted(x.__name__ for x in implies_traits)
+                    could_be=", ".join(
+                        sorted(" ".join(x) for x in implies_traits)
                     ),
                     matched_traits=implies_traits,
                 )
-- 
2.43.0


From 8e22be1dc61eb3f74aa600f59a148560e3975420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 29/88] fix: property types extending others lost their
 combined meaning

Each type in the chain picked traits by its own default arguments only, eg
a default of None was a legacy null value even though an extending type made
the attribute required or lazy.
---
 normalize/property/meta.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 19e95e9..426d3e7 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -94,8 +94,7 @@ def has(selfie, self, args, kwargs):
 
     all_traits = set(self.traits) | extra_traits
 
-    unsafe = "unsafe" in all_traits and "safe" not in all_traits
-    if unsafe:
+    if "unsafe" in all_traits and "safe" not in all_traits:
         all_traits.remove("unsafe")
     elif "ro" not in all_traits and safe_unless_ro:
         all_traits.add("safe")
@@ -118,11 +117,9 @@ def has(selfie, self, args, kwargs):
             base=type(self).__name__,
         )
 
-    new = super(selfie, self).__new__
-    if unsafe and "safe" not in all_traits and new is not object.__new__:
-        # don't let the types which this one extends add checks back
-        return new(property_type, traits=("unsafe",))
-    return new(property_type)
+    # 'kwargs' includes the defaults of all of the types which 'self' extends,
+    # so those don't get to pick another type
+    return object.__new__(property_type)
 
 
 def _merge_camel_case_names(base_name, new_name):
@@ -224,7 +221,13 @@ class MetaProperty(type):
     def __new__(mcs, name, bases, attrs):
         """This __new__ method is called when new property trait combinations
         are created."""
-        selfie = [None, attrs.get('default_kwargs', {})]
+        default_kwargs = dict()
+        for base in reversed(bases):
+            default_kwargs.update(getattr(base, 'default_kwargs', {}))
+        default_kwargs.update(attrs.get('default_kwargs', {}))
+        selfie = [None, default_kwargs]
+        if default_kwargs:
+            attrs['default_kwargs'] = default_kwargs
 
         def _has(self, *args, **kwargs):
             mixed_kwargs = dict(selfie[1])
-- 
2.43.0


From 6f3a2209861fe8a66551c620447643b2e7704594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 30/88] fix: unknown primary key name raised a raw KeyError

Raise PropertiesNotKnown, as for property objects which aren't in the class.
---
 normalize/record/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 398ba4e..819d16d 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -69,7 +69,7 @@ class RecordMeta(type):
             if proplist:
                 for prop in proplist:
                     if isinstance(prop, str):
-                        prop = properties[prop]
+                        prop = properties.get(prop, prop)
                     if not isinstance(prop, Property) or (
                         prop not in all_properties
                     ):
-- 
2.43.0


From 068877f2dfc9f462e8c582351299bf5692e4d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 31/88] fix: items converted to a wrong type were stored in
 collections

A custom coerceitem (or itemtype constructor) which returned something
else than an item was not checked, so typed collections could hold items
which are not of their type.
---
 normalize/coll.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index c61e5af..272a115 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -139,7 +139,12 @@ class Collection(Record):
             return v
         else:
             try:
-                return cls.coerceitem(v)
+                item = cls.coerceitem(v)
+                if not isinstance(item, cls.itemtype):
+                    raise TypeError(
+                        "coerceitem returned a %s" % type(item).__name__
+                    )
+                return item
             except Exception as e:
                 raise exc.CollectionItemCoerceError(
                     itemtype=cls.itemtype,
-- 
2.43.0


From fb41b02d53af14e570426cc5fbeddc42c9306e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 32/88] fix: bound methods and classes as default were passed
 the record

The 'self' of a bound method, constructor or callable object is already
bound, but was mistaken for a request to be passed the record.
---
 normalize/property/__init__.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 845a9cf..65d446b 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -157,18 +157,15 @@ class Property(metaclass=MetaProperty):
         self.extraneous = extraneous
 
     def func_info(self, func):
-        args = inspect.getfullargspec(func)
-        is_method = False
-        if not args.args:
-            required_args = 0
-        else:
-            required_args = len(args.args)
-            if args.defaults:
-                required_args -= len(args.defaults)
-            if required_args and args.args[0] == "self":
-                is_method = True
-                required_args -= 1
-        return is_method, required_args
+        # does not include the 'self' of bound methods and constructors
+        signature = inspect.signature(func, follow_wrapped=False)
+        required = [
+            x.name for x in signature.parameters.values() if
+            x.kind in (x.POSITIONAL_ONLY, x.POSITIONAL_OR_KEYWORD) and
+            x.default is x.empty
+        ]
+        is_method = bool(required) and required[0] == "self"
+        return is_method, len(required) - (1 if is_method else 0)
 
     @property
     def bound(self):
-- 
2.43.0


From 066e26c63920c6303a24a189faf9b2a1a1ddab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 33/88] fix: default=dict raised a TypeError at declaration

Some built-in types have no signature to inspect.
---
 normalize/property/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 65d446b..69a2c62 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -120,7 +120,11 @@ class Property(metaclass=MetaProperty):
         super(Property, self).__init__()
         self.default = default
         if callable(default):
-            is_method, nargs = self.func_info(default)
+            try:
+                is_method, nargs = self.func_info(default)
+            except ValueError:
+                # dict, etc; these don't say what arguments they take
+                is_method, nargs = False, 0
             if nargs:
                 if not is_method and nargs == 1:
                     # backwards compatibility; default=lambda x: x.foo was
-- 
2.43.0


From de5043c3e2d8f02370ecb654bf47a52cdb9924a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 34/88] fix: classes with a common base could not be combined

Inheriting the same attribute by two ways, such as unknown_json_keys of
two JsonRecord classes, was rejected as MultipleInheritanceClash.
---
 normalize/record/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 819d16d..00b90a0 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -37,7 +37,7 @@ class RecordMeta(type):
         for base in bases:
             if hasattr(base, "properties"):
                 for propname, prop in base.properties.items():
-                    if propname in properties:
+                    if properties.get(propname, prop) is not prop:
                         raise exc.MultipleInheritanceClash(
                             prop=prop,
                             typename=name,
-- 
2.43.0


From 5e97500ad1837da30730124c5db3af85f0eebeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 35/88] fix: equal dictionary collections had different
 identities

The identity, and so the hash of records which contain them, depended on
the order of insertion.
---
 normalize/identity.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 759fe23..e43afba 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -20,6 +20,14 @@ import normalize.exc as exc
 import normalize.record
 
 
+def _sort_tuples(gen):
+    tuples = list(gen)
+    try:
+        return sorted(tuples, key=lambda x: x[0])
+    except TypeError:
+        return sorted(tuples, key=lambda x: hash(x[0]))
+
+
 def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     """Implementation of id() which is overridable and knows about record's
     primary_key property.  Returns if the two objects may be the "same";
@@ -51,11 +59,13 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     if not pk_cols and issubclass(
         type_, normalize.coll.Collection
     ):
-        # FIXME: unordered collections will rarely match each other
         gen = (
             object_.itertuples() if hasattr(object_, "itertuples") else
             type_.coll_to_tuples(object_)
         )
+        if issubclass(type_, normalize.coll.DictCollection):
+            # equal dictionaries may be in different orders
+            gen = _sort_tuples(gen)
         return tuple(
             record_id(
                 v, type_.itemtype, selector[k], normalize_object_slot,
-- 
2.43.0


From da1ee9f80f5fc8eecff4da7f04e45d57111e28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 36/88] fix: identity of values of union types including a
 record type

Values which are not of the record type were all given the same identity
(or raised an error, for collection types), as they have none of its
attributes.
---
 normalize/identity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/identity.py b/normalize/identity.py
index e43afba..24ffe7e 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -95,6 +95,11 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
+            # of a union, use the types which the value is an instance of;
+            # there is none for aliens (see duck typing)
+            value_type_list = tuple(
+                x for x in value_type_list if isinstance(val, x)
+            ) or value_type_list
             val_pk = ()
             set_elements = 0
             for value_type in value_type_list:
-- 
2.43.0


From b239f882b1a275fc52d544063cca5c25bf76fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 37/88] fix: records with an empty collection could not be
 hashed or compared

The identity of an empty collection is (), which was mistaken for having
none; so the (unhashable) collection was used instead.
---
 normalize/identity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 24ffe7e..3081e53 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -100,7 +100,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
             value_type_list = tuple(
                 x for x in value_type_list if isinstance(val, x)
             ) or value_type_list
-            val_pk = ()
+            val_pk = None
             set_elements = 0
             for value_type in value_type_list:
                 if issubclass(value_type, normalize.record.Record):
@@ -108,11 +108,12 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                                    selector[prop.name] if selector else None,
                                    normalize_object_slot)
                     pk_elements = len([x for x in pk if x is not None])
-                    if not val_pk or pk_elements > set_elements:
+                    if val_pk is None or pk_elements > set_elements:
                         val_pk = pk
                         set_elements = pk_elements
 
-            val_pk = val_pk or val
+            if val_pk is None:
+                val_pk = val
             try:
                 val_pk.__hash__()
             except TypeError:
-- 
2.43.0


From ddc08284be643efef0eafe98ad81fbf440b9b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 38/88] fix: extending a copy of a FieldSelector altered the
 original

copy.copy() shared the list of selectors between the two objects, so that
add_property(), add_index(), add_full_collection() or extend() on one of them
changed the other.
---
 normalize/selector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index 63a5399..94fa2d3 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -121,6 +121,10 @@ class FieldSelector(object):
         self.selectors.extend(other.selectors)
         return self  # Useful for chaining
 
+    def __copy__(self):
+        """Copies can be extended without altering the original."""
+        return type(self)(self)
+
     def __getnewargs__(self):
         """
         The pickle protocol is supported on this type.
-- 
2.43.0


From 0c842b5a7bff0fc477a07d8c73ae674ca5b41ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 39/88] fix: a copy of a typed collection shared its items with
 the original

Appending to (or deleting from, etc) the result of copy.copy() of a
collection also changed the collection it was copied from, unlike plain lists
and dicts, and unlike the collections made by list_of() and dict_of().
---
 normalize/coll.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index 272a115..cb333a7 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -18,6 +18,7 @@
 from __future__ import absolute_import
 
 import collections
+from copy import copy
 import sys
 import types
 
@@ -103,6 +104,14 @@ class Collection(Record):
         )
         super(Collection, self).__init__(**kwargs)
 
+    def __getstate__(self):
+        """Used for copying and pickling; a copy does not share the underlying
+        container with the original."""
+        state = dict(super(Collection, self).__getstate__())
+        if "_values" in state:
+            state["_values"] = copy(state["_values"])
+        return state
+
     def __iter__(self):
         """The default iterator always iterates over the *values* of a
         Collection."""
-- 
2.43.0


From 34a3120ab725d48415db5b14d2ae35daa877de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 40/88] fix: attributes set on a copy of an AutoJsonRecord
 changed the original

copy.copy() shared the dictionary holding the undeclared attributes.
---
 normalize/record/json.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 79d85c1..de1641c 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -582,6 +582,14 @@ class AutoJsonRecord(JsonRecord):
                         jd[k] = _json_data(v, extraneous)
         return jd
 
+    def __getstate__(self):
+        """Used for copying and pickling; the attributes of a copy are not
+        those of the original."""
+        state = dict(super(AutoJsonRecord, self).__getstate__())
+        if "unknown_json_keys" in state:
+            state["unknown_json_keys"] = dict(state["unknown_json_keys"])
+        return state
+
     def __getattr__(self, attr):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
-- 
2.43.0


From f70bfc8028cea2b2e2c0e7bc97f0d9ac6569b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 41/88] fix: JSON names were not respected in records nested in
 JSON input

When reading JSON, an attribute whose type is a (non-JSON) Record, or a plain
collection of them, was passed its input as if it were a dictionary of
attribute names, ignoring json_name= and json_in= of the nested attributes,
although they are respected on output; so that what to_json() returned could
not be read back.  The test for this case passed the class to isinstance().
---
 normalize/record/json.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index de1641c..eae1d4b 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -37,18 +37,46 @@ from normalize.record import Record
 from normalize.selector import FieldSelector
 
 
-def _json_to_value_initializer(json_val, proptype):
+def _json_to_value_initializer(json_val, proptype, coerce=None):
     if proptype:
-        if isinstance(proptype, JsonRecord):
+        if isinstance(json_val, proptype):
+            # eg, already converted by a 'json_in' function
             return json_val
         elif hasattr(proptype, "from_json"):
             return proptype.from_json(json_val)
-        elif isinstance(proptype, Record) and isinstance(json_val, dict):
+        elif not isinstance(proptype, type) or (coerce or proptype) != proptype:
+            # a custom 'coerce' function takes the JSON form, too
+            return json_val
+        elif issubclass(proptype, Collection):
+            return _json_to_coll_initializer(json_val, proptype)
+        elif issubclass(proptype, Record) and isinstance(json_val, dict):
             return from_json(proptype, json_val)
 
     return json_val
 
 
+def _json_to_coll_initializer(json_val, colltype):
+    """Converts the items of JSON data for a collection which does not itself
+    have a JSON form"""
+    itemtype = colltype.itemtype
+    if isinstance(json_val, list) and issubclass(colltype, RecordList):
+        rv = list(json_val)
+        items = enumerate(json_val)
+    elif isinstance(json_val, dict) and issubclass(colltype, RecordDict):
+        rv = dict(json_val)
+        items = json_val.items()
+    else:
+        return json_val
+    for k, v in items:
+        try:
+            rv[k] = _json_to_value_initializer(
+                v, itemtype, colltype.coerceitem,
+            )
+        except Exception as e:
+            raise _box_ingress_error(k, e)
+    return rv
+
+
 def _box_ingress_error(context, exception):
     error_fs = FieldSelector([context])
     if hasattr(exception, "error_fs"):
@@ -95,7 +123,7 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                                 prop.from_json(
                                     json_struct[json_name]
                                 ),
-                                prop.valuetype,
+                                prop.valuetype, prop.coerce,
                             )
                         except Exception as e:
                             raise _box_ingress_error(json_name, e)
@@ -107,7 +135,7 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                 proptype = prop.valuetype
                 try:
                     kwargs[propname] = _json_to_value_initializer(
-                        json_val, proptype,
+                        json_val, proptype, prop.coerce,
                     )
                 except Exception as e:
                     raise _box_ingress_error(prop.name, e)
-- 
2.43.0


From 04b27e268ac78c5196816cae3c2f214b0210957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 42/88] fix: from_json() of a collection type could not read
 what to_json() returns

to_json() of a typed list or dictionary returns the JSON form of its items, but
from_json(), given the (non-JSON) collection class, treated the input as a
dictionary of the attributes of the collection.
---
 normalize/record/json.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index eae1d4b..33ae538 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -178,6 +178,12 @@ def from_json(record_type, json_struct):
     if issubclass(record_type, JsonRecord):
         return record_type(json_struct)
 
+    elif issubclass(record_type, Collection):
+        # the counterpart of to_json() on collections
+        return record_type(
+            values=_json_to_coll_initializer(json_struct, record_type),
+        )
+
     elif issubclass(record_type, Record):
         # do what the default JsonRecord __init__ does
         init_kwargs = json_to_initkwargs(record_type, json_struct)
-- 
2.43.0


From 729e550296f46b7b3245dc661ca92153c57e454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 43/88] fix: following a FieldSelector into something without
 that item raised TypeError, not a selector error

---
 normalize/selector.py | 49 +++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 94fa2d3..02c8d96 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -47,7 +47,26 @@ def _all_items(instance):
     """Iterates over all of the items which the 'None' selector refers to"""
     if isinstance(instance, (collections.abc.Mapping, DictCollection)):
         return iter(list(instance.values()))
-    return iter(instance)
+    try:
+        return iter(instance)
+    except TypeError:
+        raise FieldSelectorKeyError(key=None)
+
+
+def _get_item(instance, selector):
+    """Follows a selector which is an index or key"""
+    try:
+        return instance[selector]
+    except (LookupError, TypeError):
+        # TypeError: not something which has items
+        raise FieldSelectorKeyError(key=selector)
+
+
+def _get_attr(instance, selector):
+    """Follows a selector which is not an index or key"""
+    if not isinstance(selector, str) or not hasattr(instance, selector):
+        raise FieldSelectorAttributeError(name=selector)
+    return getattr(instance, selector)
 
 
 @functools.total_ordering
@@ -172,14 +191,9 @@ class FieldSelector(object):
                 else:
                     return rv
             elif _try_index(record, selector):
-                try:
-                    record = record[selector]
-                except LookupError:
-                    raise FieldSelectorKeyError(key=selector)
+                record = _get_item(record, selector)
             else:
-                if not hasattr(record, selector):
-                    raise FieldSelectorAttributeError(name=selector)
-                record = getattr(record, selector)
+                record = _get_attr(record, selector)
             i = i + 1
         return record
 
@@ -227,15 +241,9 @@ class FieldSelector(object):
                     sub_selector.put(x, value)
             else:
                 if _try_index(record, selector):
-                    try:
-                        sub_record = record[selector]
-                    except LookupError:
-                        raise FieldSelectorKeyError(key=selector)
+                    sub_record = _get_item(record, selector)
                 else:
-                    try:
-                        sub_record = getattr(record, selector)
-                    except AttributeError:
-                        raise FieldSelectorAttributeError(name=selector)
+                    sub_record = _get_attr(record, selector)
                 sub_selector.put(sub_record, value)
 
     def post(self, record, value):
@@ -337,14 +345,9 @@ class FieldSelector(object):
                 else:
                     return
             elif _try_index(record, selector):
-                try:
-                    record = record[selector]
-                except LookupError:
-                    raise FieldSelectorKeyError(key=selector)
+                record = _get_item(record, selector)
             else:
-                if not hasattr(record, selector):
-                    raise FieldSelectorAttributeError(name=selector)
-                record = getattr(record, selector)
+                record = _get_attr(record, selector)
             i = i + 1
         to_delete = self.selectors[-1]
         if _try_index(record, to_delete):
-- 
2.43.0


From 34c48a6252ba509c7f26f29e342fa66e5cc45828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 44/88] fix: FieldSelector.post() could not create dict items,
 or items which are given by index or key

---
 normalize/selector.py | 46 +++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 02c8d96..f48b012 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -272,38 +272,46 @@ class FieldSelector(object):
 
             # supports the case where an item is created by setting
             # a single required field value
-            kwarg = {}
-            if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
-                kwarg[self.selectors[-1]] = value
+            def vivify(valuetype):
+                last = self.selectors[-1]
+                if i < len(self.selectors) - 2 or (
+                    last not in getattr(valuetype, "properties", ())
+                ):
+                    return valuetype(), False
+                return valuetype(**{last: value}), True
 
             if _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
-                    if isinstance(selector, int):
+                except TypeError:
+                    raise FieldSelectorKeyError(key=selector)
+                except LookupError as e:
+                    itemtype = getattr(type(record), "itemtype", None)
+                    if not isinstance(itemtype, type):
+                        raise FieldSelectorKeyError(key=selector)
+                    if isinstance(e, IndexError):
                         if len(record) != selector:
                             raise ValueError(
                                 "FieldSelector set out of order: "
                                 "[%d]" % selector
                             )
-                        record.append(type(record).itemtype(**kwarg))
-                        if kwarg:
-                            put_final = True
+                        item, put_final = vivify(itemtype)
+                        record.append(item)
                     else:
-                        raise
+                        item, put_final = vivify(itemtype)
+                        record[selector] = item
                     record = record[selector]
-                except KeyError:
-                    record[selector] = type(record).itemtype(**kwarg)
-                    if kwarg:
-                        put_final = True
             else:
-                if not hasattr(record, selector):
-                    prop = type(record).properties[selector]
-                    if not prop.valuetype:
+                if not isinstance(selector, str) or (
+                    not hasattr(record, selector)
+                ):
+                    prop = getattr(type(record), "properties", {}).get(selector)
+                    if not prop:
+                        raise FieldSelectorAttributeError(name=selector)
+                    if not isinstance(prop.valuetype, type):
                         raise FieldSelectorAutoVivifyError(prop=prop)
-                    setattr(record, selector, prop.valuetype(**kwarg))
-                    if kwarg:
-                        put_final = True
+                    new_value, put_final = vivify(prop.valuetype)
+                    setattr(record, selector, new_value)
                 record = getattr(record, selector)
             i = i + 1
         if not put_final:
-- 
2.43.0


From 275c9d65e236c4f9725cbd9c3c7f49df3367e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 45/88] fix: deleting an item of something without items
 through a FieldSelector raised TypeError

---
 normalize/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index f48b012..7115986 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -368,8 +368,10 @@ class FieldSelector(object):
             else:
                 try:
                     del record[to_delete]
-                except LookupError:
+                except (LookupError, TypeError):
                     raise FieldSelectorKeyError(key=to_delete)
+        elif not isinstance(to_delete, str):
+            raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
-- 
2.43.0


From 170b3bc41f92a73d0eb3eace1edec1ee669f12fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 46/88] fix: FieldSelector.post() set attributes of new dict
 collections in place of items

---
 normalize/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 7115986..42b17de 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -274,7 +274,9 @@ class FieldSelector(object):
             # a single required field value
             def vivify(valuetype):
                 last = self.selectors[-1]
-                if i < len(self.selectors) - 2 or (
+                if (
+                    i < len(self.selectors) - 2 or
+                    issubclass(valuetype, DictCollection) or
                     last not in getattr(valuetype, "properties", ())
                 ):
                     return valuetype(), False
-- 
2.43.0


From 08a22d09b6916e2885abbb0fb830edecb50e71b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 47/88] fix: subscripting a MultiFieldSelector by an index
 ignored wildcards

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 42b17de..655b6fd 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -747,7 +747,7 @@ class MultiFieldSelector(object):
                 return self  # XXX wat
 
         tail = (
-            self.heads[None] if self.complete else
+            self.heads[None] if self.has_none else
             self.heads.get(index, None)
         )
         return type(self).complete_mfs() if tail == all else tail
-- 
2.43.0


From 9fd616234e6bb66b0ff22257ec8ee81d7ea4269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 48/88] fix: MultiFieldSelector.get() raised IndexError for a
 list index which isn't there

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 655b6fd..4bcbeb7 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -833,8 +833,8 @@ class MultiFieldSelector(object):
                 vals = list(self._get(x, tail) for x in obj)
             else:
                 vals = list(
-                    self._get(obj[head], tail) for head, tail in
-                    sorted(self.heads.items())
+                    self._get(obj[head], self.heads[head]) for head in
+                    sorted(self.heads) if -len(obj) <= head < len(obj)
                 )
 
             if isinstance(obj, ListCollection):
-- 
2.43.0


From d0b4f50f23a5471e7d7eb38ef0c179cab431816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 49/88] fix: MultiFieldSelector.get() failed on JSON dict
 collections

---
 normalize/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 4bcbeb7..ea7181f 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -844,14 +844,17 @@ class MultiFieldSelector(object):
         elif isinstance(obj, (dict, DictCollection)):
             if self.has_none:
                 tail = self.heads[None]
-                return ctor(
-                    (k, self._get(v, tail)) for k, v in obj.items()
-                )
+                vals = list((k, self._get(v, tail)) for k, v in obj.items())
             else:
-                return ctor(
+                vals = list(
                     (head, self._get(obj[head], tail)) for head, tail in
                     self.heads.items() if head in obj
                 )
+
+            if isinstance(obj, DictCollection):
+                return ctor(values=dict(vals))
+            else:
+                return ctor(vals)
         else:
             if self.has_int or (self.has_none and self.heads[None] is not all):
                 raise TypeError(
-- 
2.43.0


From dfca0c998cf3f72b917cf41d713b18ae8c424394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 50/88] fix: MultiFieldSelector.patch() failed if items on the
 way to a field are in neither object

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index ea7181f..b8ad985 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -933,7 +933,7 @@ class MultiFieldSelector(object):
             if val is _None:
                 try:
                     fs.delete(target)
-                except FieldSelectorAttributeError:
+                except FieldSelectorException:
                     # already absent
                     pass
             else:
-- 
2.43.0


From 6761c124d736bfc9fd8745465de777823d7e30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 51/88] fix: compare_as functions were called for attributes
 with no value

Identifying the items of collections called the compare_as function of
each property with None, whether the property was set or not, so functions
which only take the values of the property raised exceptions.
---
 normalize/identity.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 3081e53..aa78735 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -83,13 +83,19 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
             )
 
     for prop in pk_cols or all_properties:
-        val = getattr(object_, prop.name, None)
+        _none = None
         if normalize_object_slot:
-            val = normalize_object_slot(val, prop, object_)
-        _none = (
-            normalize_object_slot(None, prop, object_) if
-            normalize_object_slot else None
-        )
+            # there's no value for a ``compare_as`` function to clean up
+            _none = normalize_object_slot(
+                None, None if hasattr(prop, "compare_as") else prop, object_,
+            )
+        try:
+            val = getattr(object_, prop.name)
+        except AttributeError:
+            val = _none
+        else:
+            if normalize_object_slot:
+                val = normalize_object_slot(val, prop, object_)
         if val is not _none and prop.valuetype:
             value_type_list = (
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
-- 
2.43.0


From f05af8946dca558db6ebe45e25339f8ca6981ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 52/88] fix: comparing selected fields of one item of a
 collection found nothing

With a filter such as [["friends", 0, "name"]], items of which not every
field was selected were left out, so their differences were not reported.
---
 normalize/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index aa36428..9563418 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -651,7 +651,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
         for k, v in collection_generator(propval_x):
             if callable(id_args):
-                if fs_a + [k] not in options.compare_filter:
+                if not options.compare_filter[fs_a + [k]]:
                     continue
             pk = options.record_id(
                 v, **(id_args(k) if callable(id_args) else id_args))
-- 
2.43.0


From 5ef395621324b7dfe5e76ae6ffa07c3a1b063637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 53/88] fix: comparison filters were ignored for items of
 simple collections

With a filter such as [["tags", 0]], the differences of all items of the
collection were reported, unless the items were records.
---
 normalize/diff.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/normalize/diff.py b/normalize/diff.py
index 9563418..efcabf4 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -809,6 +809,10 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = indices[x] = dict()
         seen = collections.Counter()
         for i, v in collection_generator(propval_x):
+            if options.compare_filter and not options.compare_filter[
+                fs_a + [i]
+            ]:
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
@@ -894,6 +898,10 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = rev_keys[x] = dict()
         seen = collections.Counter()
         for k, v in collection_generator(propval_x):
+            if options.compare_filter and not options.compare_filter[
+                fs_a + [k]
+            ]:
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-- 
2.43.0


From a03b06093e76e6af82afa33b1e04cf39699b6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 54/88] fix: visiting something else in place of a collection
 failed to report it

The VisitorUnpackError is passed the name of the collection type, but its
message expected the type.
---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 7ed8f2d..09e771d 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -505,5 +505,5 @@ class VisitorTooSimple(VisitorException):
 class VisitorUnpackError(VisitorException, TypeError):
     message = (
         "Can't unpack collection at {context.field_selector}; expected "
-        "{colltype.__name__}, got {passed!r}"
+        "{colltype}, got {passed!r}"
     )
-- 
2.43.0


From 3efaeed1e21eaaabbfb126a5d49eebc8d494eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 55/88] fix: values of unions of record and other types could
 not be cast

Input which is not suitable for the first record type of the union was an
error, rather than leading to the other types to be tried; and input for
empty collections was not converted.
---
 normalize/exc.py     | 2 +-
 normalize/visitor.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 09e771d..31af2ff 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -480,7 +480,7 @@ class VisitorPropError(VisitorException):
     )
 
 
-class VisitorGrokRecordError(VisitorException):
+class VisitorGrokRecordError(VisitorException, TypeError):
     message = (
         u"{val} found where I'm expecting to unpack a "
         u"{record_type_name} record at {field_selector}"
diff --git a/normalize/visitor.py b/normalize/visitor.py
index 2e42d87..252e917 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -749,10 +749,10 @@ class VisitorPattern(object):
                 else:
                     # this could also be the wrong thing when mapping
                     # over types.
-                    if mapped:
+                    if mapped or isinstance(mapped, Record):
                         break
 
-            if not mapped:
+            if not mapped and not isinstance(mapped, Record):
                 mapped = visitor.apply(value, prop, visitor)
 
         return mapped
-- 
2.43.0


From 314a10f0ad20ed130a1f4f3c4db87036244af80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 56/88] fix: visiting empty slots with apply_empty_slots
 descended into the exception

The exception which stands for the missing value was treated like a record
or collection of the type of the slot, which failed for collections, and
made up values for the attributes of records.
---
 normalize/visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 252e917..d1c0314 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -696,7 +696,10 @@ class VisitorPattern(object):
         # those who don't declare their isa= for complex object types.
         value_type = prop.valuetype or type(value)
 
-        if isinstance(value_type, tuple):
+        if isinstance(value, (AttributeError, KeyError)):
+            # an empty slot: there's nothing to descend into
+            mapped = visitor.apply(value, prop, visitor)
+        elif isinstance(value_type, tuple):
             mapped = cls.map_type_union(
                 visitor, value, value_type, prop,
             )
-- 
2.43.0


From 44a9524c731c90659e719903c06e4d9436a2a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 57/88] fix: visiting plain values of unions with
 apply_empty_slots

If the type of a property is a union with a record type, the value was also
visited as if it was such a record, and each of the attributes which it
doesn't have was passed to the apply function.
---
 normalize/visitor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index d1c0314..b46c422 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -724,9 +724,12 @@ class VisitorPattern(object):
         # tried.
         record_types = []
         matching_record_types = []
+        other_types = []
 
         for value_type in type_tuple:
-            if issubclass(value_type, Record):
+            if not issubclass(value_type, Record):
+                other_types.append(value_type)
+            else:
                 record_types.append(value_type)
                 # XXX - this test here should probably be a per-visitor
                 # hook, as it only really applies to 'visit', not 'grok'
@@ -743,6 +746,10 @@ class VisitorPattern(object):
                 else:
                     if mapped:
                         break
+        elif visitor.unpack == cls.unpack and isinstance(
+            value, tuple(other_types)
+        ):
+            mapped = visitor.apply(value, prop, visitor)
         else:
             for value_type in record_types:
                 try:
-- 
2.43.0


From 620428bed2e3d808dad63dff68b69c6b11cf8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 58/88] fix: visiting with a filter included items which are
 not selected

The filter was ignored for collections of plain values, and items of record
collections which are not selected at all appeared as empty records.
---
 normalize/visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index b46c422..8cf032f 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -678,6 +678,9 @@ class VisitorPattern(object):
     def map_collection(cls, visitor, coll_generator, coll_type):
         rv = visitor.copy()
         for key, value in coll_generator:
+            if visitor.visit_filter and not isinstance(key, type) and \
+                    not visitor.visit_filter[visitor.cue + [key]]:
+                continue
             rv.push(key)
             mapped = cls.map(rv, value, coll_type.itemtype)
             rv.pop(key)
-- 
2.43.0


From 60f4c13227e5ba23b5f70794a3686a0cd06c041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 59/88] fix: casting to a record type with no attributes to
 convert

If all of the attributes are extraneous, or there are none, the input was
returned as it is instead of a record.
---
 normalize/visitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 8cf032f..1a084ee 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -407,9 +407,11 @@ class VisitorPattern(object):
         ``value_type`` is not appropriate for ``value``.
         """
         is_coll = issubclass(value_type, Collection)
-        is_record = issubclass(value_type, Record) and any(
-            not visitor.is_filtered(prop) for prop in
-            list(value_type.properties.values())
+        is_record = issubclass(value_type, Record) and (
+            not is_coll or any(
+                not visitor.is_filtered(prop) for prop in
+                list(value_type.properties.values())
+            )
         )
 
         if is_record and not isinstance(value, cls.grok_mapping_types):
-- 
2.43.0


From 3f81a97315088a0d737f466a59d74da4b090090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 60/88] fix: subtypes of subtypes of classes with a metaclass
 could not be made

---
 normalize/subtype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/subtype.py b/normalize/subtype.py
index e09240e..6e7868b 100644
--- a/normalize/subtype.py
+++ b/normalize/subtype.py
@@ -45,7 +45,7 @@ class subtype(type):
         # for classes with a custom metaclass, we'll need to whip up a new
         # metaclass for them, then construct that.
         if not issubclass(typcls, type(of)):
-            typcls = type(
+            typcls = type(of) if issubclass(type(of), typcls) else type(
                 type(of).__name__ + typcls.__name__.capitalize(),
                 (typcls, type(of)), {})
             return typcls(name, of, where, coerce)
-- 
2.43.0


From 9428c0060fc01d052f821f83198f3ffcbea8305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 61/88] fix: datetimes with microseconds could not be read back
 without dateutil

---
 normalize/property/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/property/types.py b/normalize/property/types.py
index 3d81890..2959b12 100644
--- a/normalize/property/types.py
+++ b/normalize/property/types.py
@@ -33,6 +33,8 @@ except ImportError:
         14: "%Y%m%d%H:%MZ",
         16: "%Y%m%d%H:%M:%S",
         17: "%Y%m%d%H:%M:%SZ",
+        23: "%Y%m%d%H:%M:%S.%f",
+        24: "%Y%m%d%H:%M:%S.%fZ",
     }
 
     def parse_datetime(not_a_datetime):
-- 
2.43.0


From 235f5e8fc83523a834fa00fa8ec7038e4da54566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 62/88] fix: traits of property types with defaults lost their
 meaning when requested by name

---
 normalize/property/meta.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 426d3e7..325b277 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -33,6 +33,10 @@ COMPOSED_TYPES = set()
 DUCKWARGS = defaultdict(set)
 
 
+# Property types by the name of the trait they define
+TRAIT_TYPES = defaultdict(list)
+
+
 # a test for whether a value passed to 'default' is sufficient to qualify the
 # attribute for v1 upgrade
 def looks_like_v1_none(value):
@@ -60,6 +64,21 @@ def has(selfie, self, args, kwargs):
         raise exc.PositionalArgumentsProhibited()
     extra_traits = set(kwargs.pop('traits', tuple()))
 
+    # requesting a trait by name means the same as using the type which
+    # defines it
+    expanded = set(self.traits)
+    while extra_traits - expanded:
+        trait = min(extra_traits - expanded)
+        expanded.add(trait)
+        if len(TRAIT_TYPES[trait]) == 1:
+            trait_type = TRAIT_TYPES[trait][0]
+            extra_traits.update(trait_type.traits)
+            for arg, val in getattr(trait_type, 'default_kwargs', {}).items():
+                if arg == 'traits':
+                    extra_traits.update(val)
+                else:
+                    kwargs.setdefault(arg, val)
+
     safe_unless_ro = self.__safe_unless_ro__ or any(
         x in kwargs for x in ("required", "isa", "check")
     )
@@ -264,6 +283,7 @@ class MetaProperty(type):
         PROPERTY_TYPES[self.traits] = self
         selfie[0] = self
         if trait:
+            TRAIT_TYPES[trait].append(self)
             for kwarg in duckwargs:
                 DUCKWARGS[kwarg].add((traits, self))
         return self
-- 
2.43.0


From 83b44cee2497354abc035176a59df52f0624bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 63/88] fix: FieldSelectorAttributeError did not expose its
 name

---
 normalize/exc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/exc.py b/normalize/exc.py
index 31af2ff..ca430c8 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -47,6 +47,9 @@ class StringFormatException(NormalizeError):
                 missing=e.args[0],
                 passed=repr(list(kwargs.keys())),
             )
+        if isinstance(self, AttributeError) and "name" in kwargs:
+            # AttributeError has an attribute of this name, which is None
+            self.name = kwargs["name"]
 
     def __str__(self):
         return self.formatted
-- 
2.43.0


From f80559e4f194d07ea1b7bd22fe3536803d239b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 64/88] fix: repr of errors with a tuple as positional argument
 raised TypeError

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index ca430c8..774a6ca 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -71,7 +71,7 @@ class StringFormatException(NormalizeError):
         return "%s%s(%s)" % (
             "exc." if self.__module__.endswith(".exc") else "",
             type(self).__name__, ", ".join(
-                tuple("%r" % x for x in self.args) +
+                tuple("%r" % (x,) for x in self.args) +
                 tuple("%s=%r" % (k, v) for k, v in self.kwargs.items())
             )
         )
-- 
2.43.0


From ea75aa01a3dfa8b2e17b4da34e15c385d8cb0599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 65/88] fix: DiffOptions.normalize_item is passed the index of
 the item

---
 normalize/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index efcabf4..4129690 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -814,7 +814,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             ]:
                 continue
             v = options.normalize_item(
-                v, propval_a if options.duck_type else propval_x
+                v, propval_a if options.duck_type else propval_x, i,
             )
             if not v.__hash__:
                 v = repr(v)
@@ -903,7 +903,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             ]:
                 continue
             v = options.normalize_item(
-                v, propval_a if options.duck_type else propval_x
+                v, propval_a if options.duck_type else propval_x, k,
             )
             if not v.__hash__:
                 v = repr(v)
-- 
2.43.0


From c39cf828d2b474ac5f30db2753054d2f771076a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 66/88] fix: a Diff made of entries, without type names, has a
 text form

---
 normalize/diff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 4129690..754b445 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -1036,10 +1036,12 @@ class Diff(ListCollection):
     itemtype = DiffInfo
 
     def __str__(self):
+        # (not known for part of a result, or one made of entries)
+        base_type_name = getattr(self, "base_type_name", "?")
+        other_type_name = getattr(self, "other_type_name", "?")
         what = (
-            "%s vs %s" % (self.base_type_name, self.other_type_name) if
-            self.base_type_name != self.other_type_name else
-            self.base_type_name
+            "%s vs %s" % (base_type_name, other_type_name) if
+            base_type_name != other_type_name else base_type_name
         )
         diffstate = collections.defaultdict(list)
         for diff in self:
-- 
2.43.0


From fb08bba3aac5f5b0f3485666b2f5b404e41cd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 67/88] fix: compare unhashable items of lists and dictionaries
 by value

They were compared by their repr(), so that equal dictionaries in a
different order were reported as modified, a list wasn't told from the
text which looks like it, and a tuple which holds a list raised TypeError.
---
 normalize/diff.py | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 754b445..26120d8 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -789,6 +789,45 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                 )
 
 
+class _ByValue(object):
+    """Stands for an item which can't be hashed; equal if the items are."""
+    def __init__(self, value):
+        self.value = value
+
+    def __eq__(self, other):
+        return isinstance(other, _ByValue) and self.value == other.value
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return _value_hash(self.value)
+
+
+def _value_hash(value):
+    try:
+        return hash(value)
+    except (TypeError, exc.KeyHashError):
+        pass
+    if isinstance(value, collections.abc.Mapping):
+        return hash(frozenset((k, _value_hash(value[k])) for k in value))
+    elif isinstance(value, collections.abc.Set):
+        return hash(frozenset(value))
+    elif isinstance(value, (list, tuple)):
+        return hash(tuple(_value_hash(x) for x in value))
+    else:
+        return 0
+
+
+def _item_key(value):
+    try:
+        hash(value)
+    except (TypeError, exc.KeyHashError):
+        return _ByValue(value)
+    else:
+        return value
+
+
 def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                       options=None):
     """Generator for comparing 'simple' lists when they are encountered.  This
@@ -816,8 +855,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x, i,
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _item_key(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = i
@@ -905,8 +943,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x, k,
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _item_key(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = k
-- 
2.43.0


From fea452a35b57edf49db8bf608605abf398ea9a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 68/88] fix: str() of a record with unhashable values of a
 declared type

It raised KeyHashError (about the primary key), as text isn't an identity.
---
 normalize/record/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/normalize/record/__init__.py b/normalize/record/__init__.py
index e317d9b..deb81d4 100644
--- a/normalize/record/__init__.py
+++ b/normalize/record/__init__.py
@@ -94,7 +94,16 @@ class Record(metaclass=RecordMeta):
         of all of the defined attributes with their values) is included, up to
         the first 30 characters or so.
         """
-        pk = self.__pk__
+        try:
+            pk = self.__pk__
+        except exc.KeyHashError:
+            # of no use as an identity, but it can be shown
+            pk = tuple(v for k, v in self.itertuples()) if hasattr(
+                self, "itertuples"
+            ) else tuple(
+                getattr(self, x.name, None) for x in
+                type(self).primary_key or type(self)._sorted_properties
+            )
         key = repr(pk[0] if len(pk) == 1 else pk)
         return "<%s %s>" % (
             type(self).__name__, key[:30] + "..." if len(key) > 32 else key
-- 
2.43.0


From d34c6f9433d175e9db126110cc664a38235b09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 69/88] fix: iterating over an empty-safe placeholder never
 ended

---
 normalize/empty.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/empty.py b/normalize/empty.py
index c631ef7..d775093 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -124,6 +124,11 @@ class EmptyVal(object):
                 self._member_type = placeholder(any)
         return self._member_type
 
+    def __iter__(self):
+        # there's nothing in it; but it has to be subscriptable
+        self[0]
+        return iter(())
+
     def __bool__(self):
         return False
 
-- 
2.43.0


From fa3b7293407b7a6a5ad4540ee4e7f3a53afb3804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 70/88] fix: str() of a record with collections of unhashable
 items

---
 normalize/record/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/normalize/record/__init__.py b/normalize/record/__init__.py
index deb81d4..566e923 100644
--- a/normalize/record/__init__.py
+++ b/normalize/record/__init__.py
@@ -96,14 +96,16 @@ class Record(metaclass=RecordMeta):
         """
         try:
             pk = self.__pk__
-        except exc.KeyHashError:
+        except (exc.KeyHashError, exc.IdentityCrisis):
             # of no use as an identity, but it can be shown
-            pk = tuple(v for k, v in self.itertuples()) if hasattr(
-                self, "itertuples"
-            ) else tuple(
-                getattr(self, x.name, None) for x in
-                type(self).primary_key or type(self)._sorted_properties
-            )
+            pk_cols = type(self).primary_key
+            if hasattr(self, "itertuples") and not pk_cols:
+                pk = tuple(v for k, v in self.itertuples())
+            else:
+                pk = tuple(
+                    getattr(self, x.name, None) for x in
+                    pk_cols or type(self)._sorted_properties
+                )
         key = repr(pk[0] if len(pk) == 1 else pk)
         return "<%s %s>" % (
             type(self).__name__, key[:30] + "..." if len(key) > 32 else key
-- 
2.43.0


From b14c64a504a72373db016116da06aed89363615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 71/88] fix: all items of anything include some of these in
 multi-field selectors

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index b8ad985..4711fe6 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -625,7 +625,7 @@ class MultiFieldSelector(object):
         self.heads = dict(
             (head, all if all in tail else MultiFieldSelector(*tail))
             for head, tail in heads.items()
-        ) if None not in heads or heads[None] is not all else {None: all}
+        ) if None not in heads or all not in heads[None] else {None: all}
 
         # sanity assertions follow
         head_types = set(type(x) for x in self.heads)
-- 
2.43.0


From 06b628c2a75f44999e8994413baf51b790c127f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 72/88] fix: copies of generic collections keep their
 attributes and class

---
 normalize/coll.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index cb333a7..92013df 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -477,18 +477,28 @@ class _GenericPickler(object):
     def __init__(self, typekey):
         self.typekey = typekey
 
-    def __call__(self, values):
+    def __call__(self, values=None):
         if (len(self.typekey) > 1) and (self.typekey[1].startswith('__builtin__')):
             self.typekey = (self.typekey[0], self.typekey[1].replace('__builtin__', 'builtins'))
-        return GENERIC_TYPES[self.typekey](values=values)
+        type_ = GENERIC_TYPES[self.typekey]
+        if values is None:
+            # the state follows
+            return type_.__new__(type_)
+        return type_(values=values)
 
 
 class _Generic(Collection):
     """A mix-in to mark collection types which are (for example) collections of
     things."""
-    def __reduce__(self):
+    def __reduce_ex__(self, protocol):
         """helper method for pickling"""
-        return (_GenericPickler(type(self).generic_key), (self._values,))
+        type_ = type(self)
+        if GENERIC_TYPES.get(type_.generic_key) is not type_:
+            # sub-classes are found by their name
+            return super(_Generic, self).__reduce_ex__(protocol)
+        return (
+            _GenericPickler(type_.generic_key), (), self.__getstate__(),
+        )
 
 
 def _make_generic(of, coll):
-- 
2.43.0


From df0c2dc9449db3f34e18c18abbb8dee64bf595ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 73/88] fix: collection types of the same name were mistaken
 for each other

---
 normalize/coll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 92013df..e7048eb 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -518,7 +518,8 @@ def _make_generic(of, coll):
     assert(issubclass(coll, Collection))
     key = (coll.__name__, "%s.%s" % (of.__module__, of.__name__))
     if key in GENERIC_TYPES:
-        if GENERIC_TYPES[key].itemtype != of:
+        if GENERIC_TYPES[key].itemtype != of or \
+                not issubclass(GENERIC_TYPES[key], coll):
             raise exc.PropertyNotUnique(key=key)
     else:
         # oh, we get to name it?  Goodie!
-- 
2.43.0


From 1f99a1861ac891736191db51121c8e0af8619620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 74/88] fix: json_data() methods were not passed 'extraneous'
 when they take it as **kwargs, and were when they only take other keywords

---
 normalize/record/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 33ae538..60090a5 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -213,7 +213,10 @@ def _json_data(x, extraneous):
         has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
-            tjte = 'extraneous' in argspec.args or argspec.kwonlyargs
+            tjte = (
+                'extraneous' in argspec.args + argspec.kwonlyargs or
+                argspec.varkw is not None
+            )
             json_data_takes_extraneous[type(x)] = tjte
             if tjte:
                 return x.json_data(extraneous=extraneous)
-- 
2.43.0


From 01695d646da2f337a318b18cfd89c03541f9ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 75/88] fix: keyword-only arguments of user-defined property
 types did not select them

---
 normalize/property/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 325b277..013e0ed 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -256,7 +256,8 @@ class MetaProperty(type):
         attrs['__new__'] = _has
         duckwargs = set()
         if '__init__' in attrs:
-            new_kwargs = inspect.getfullargspec(attrs['__init__']).args
+            argspec = inspect.getfullargspec(attrs['__init__'])
+            new_kwargs = argspec.args + argspec.kwonlyargs
             if new_kwargs:
                 duckwargs.update(new_kwargs)
         traits = set()
-- 
2.43.0


From 1e586bddcd64b49cb207662bff1a534f1eb0dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 76/88] fix: property types declared in several threads at once
 clashed, or were used before they were complete

---
 normalize/property/meta.py | 42 ++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 013e0ed..f8ec1fa 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -17,6 +17,7 @@
 from collections import defaultdict
 import inspect
 import itertools
+import threading
 
 import normalize.exc as exc
 
@@ -36,6 +37,9 @@ DUCKWARGS = defaultdict(set)
 # Property types by the name of the trait they define
 TRAIT_TYPES = defaultdict(list)
 
+# held while the above are used, as declarations may be made in any thread
+REGISTRY_LOCK = threading.RLock()
+
 
 # a test for whether a value passed to 'default' is sufficient to qualify the
 # attribute for v1 upgrade
@@ -251,7 +255,8 @@ class MetaProperty(type):
         def _has(self, *args, **kwargs):
             mixed_kwargs = dict(selfie[1])
             mixed_kwargs.update(kwargs)
-            return has(selfie[0], self, args, mixed_kwargs)
+            with REGISTRY_LOCK:
+                return has(selfie[0], self, args, mixed_kwargs)
 
         attrs['__new__'] = _has
         duckwargs = set()
@@ -271,20 +276,21 @@ class MetaProperty(type):
             if hasattr(base, "all_duckwargs"):
                 all_duckwargs.update(base.all_duckwargs)
         traits = tuple(sorted(traits))
-        if traits in PROPERTY_TYPES:
-            raise exc.PropertyTypeClash(
-                newtype=name,
-                oldtype=PROPERTY_TYPES[traits].__name__,
-                traitlist=repr(traits),
-            )
-        attrs['traits'] = traits
-        attrs['duckwargs'] = duckwargs
-        attrs['all_duckwargs'] = all_duckwargs
-        self = super(MetaProperty, mcs).__new__(mcs, name, bases, attrs)
-        PROPERTY_TYPES[self.traits] = self
-        selfie[0] = self
-        if trait:
-            TRAIT_TYPES[trait].append(self)
-            for kwarg in duckwargs:
-                DUCKWARGS[kwarg].add((traits, self))
-        return self
+        with REGISTRY_LOCK:
+            if traits in PROPERTY_TYPES:
+                raise exc.PropertyTypeClash(
+                    newtype=name,
+                    oldtype=PROPERTY_TYPES[traits].__name__,
+                    traitlist=repr(traits),
+                )
+            attrs['traits'] = traits
+            attrs['duckwargs'] = duckwargs
+            attrs['all_duckwargs'] = all_duckwargs
+            self = super(MetaProperty, mcs).__new__(mcs, name, bases, attrs)
+            PROPERTY_TYPES[self.traits] = self
+            selfie[0] = self
+            if trait:
+                TRAIT_TYPES[trait].append(self)
+                for kwarg in duckwargs:
+                    DUCKWARGS[kwarg].add((traits, self))
+            return self
-- 
2.43.0


From cdb8994e9ca83ad462e60015d40890bfb2870764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 77/88] fix: traits made up by several threads at once were the
 same

---
 normalize/property/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 69a2c62..dccb97d 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -27,6 +27,7 @@ documentation.
 from __future__ import absolute_import
 
 import inspect
+import itertools
 import warnings
 import weakref
 
@@ -503,7 +504,7 @@ class DiffasProperty(Property):
             )
 
 
-trait_num = 0
+trait_nums = itertools.count(1)
 
 
 def make_property_type(name, base_type=Property,
@@ -556,9 +557,7 @@ def make_property_type(name, base_type=Property,
     bases = base_type if isinstance(base_type, tuple) else (base_type,)
     self_type = []
     if not trait_name:
-        global trait_num
-        trait_num += 1
-        trait_name = "trait%d" % trait_num
+        trait_name = "trait%d" % next(trait_nums)
 
     def __init__(self, **kwargs):
         for arg, val in default_kwargs.items():
-- 
2.43.0


From 024098361a1d0030168d37236117f196254fe41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 78/88] fix: a thread could output JSON of a class before
 whether its json_data() takes 'extraneous' was known (KeyError)

---
 normalize/record/json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 60090a5..9aadf14 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -210,7 +210,6 @@ def _json_data(x, extraneous):
             return x.json_data()
     else:
         htj = hasattr(x, "json_data") and callable(x.json_data)
-        has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
             tjte = (
@@ -218,11 +217,13 @@ def _json_data(x, extraneous):
                 argspec.varkw is not None
             )
             json_data_takes_extraneous[type(x)] = tjte
+            has_json_data[type(x)] = True
             if tjte:
                 return x.json_data(extraneous=extraneous)
             else:
                 return x.json_data()
         else:
+            has_json_data[type(x)] = False
             return to_json(x, extraneous)
 
 
-- 
2.43.0


From e4f03f1e74b416f97c60076ef7eded27eda24dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 79/88] fix: threads which asked for the same generic
 collection type at once got different ones

---
 normalize/coll.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index e7048eb..2faba51 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -20,6 +20,7 @@ from __future__ import absolute_import
 import collections
 from copy import copy
 import sys
+import threading
 import types
 
 from builtins import range, object
@@ -468,6 +469,7 @@ class ListCollection(KeyedCollection):
 
 
 GENERIC_TYPES = dict()
+GENERIC_TYPES_LOCK = threading.RLock()
 
 
 class _GenericPickler(object):
@@ -517,20 +519,22 @@ def _make_generic(of, coll):
 
     assert(issubclass(coll, Collection))
     key = (coll.__name__, "%s.%s" % (of.__module__, of.__name__))
-    if key in GENERIC_TYPES:
-        if GENERIC_TYPES[key].itemtype != of or \
-                not issubclass(GENERIC_TYPES[key], coll):
-            raise exc.PropertyNotUnique(key=key)
-    else:
-        # oh, we get to name it?  Goodie!
-        generic_name = "%s%s" % (of.__name__, coll.suffix)
-        GENERIC_TYPES[key] = type(
-            generic_name, (coll, _Generic), dict(itemtype=of, generic_key=key)
-        )
-        mod = sys.modules[of.__module__]
-        if not hasattr(mod, generic_name):
-            setattr(mod, generic_name, GENERIC_TYPES[key])
-    return GENERIC_TYPES[key]
+    with GENERIC_TYPES_LOCK:
+        if key in GENERIC_TYPES:
+            if GENERIC_TYPES[key].itemtype != of or \
+                    not issubclass(GENERIC_TYPES[key], coll):
+                raise exc.PropertyNotUnique(key=key)
+        else:
+            # oh, we get to name it?  Goodie!
+            generic_name = "%s%s" % (of.__name__, coll.suffix)
+            GENERIC_TYPES[key] = type(
+                generic_name, (coll, _Generic),
+                dict(itemtype=of, generic_key=key)
+            )
+            mod = sys.modules[of.__module__]
+            if not hasattr(mod, generic_name):
+                setattr(mod, generic_name, GENERIC_TYPES[key])
+        return GENERIC_TYPES[key]
 
 
 def list_of(of):
-- 
2.43.0


From 099cdec6ad33e2b2288d45774b66a316e0d4c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 80/88] fix: a set of types could get several EmptyVal objects,
 if threads asked for it at once

---
 normalize/empty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index d775093..1b3d444 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -12,7 +12,7 @@ def placeholder(type_):
     if any in typetuple:
         typetuple = any
     if typetuple not in EMPTY_VALS:
-        EMPTY_VALS[typetuple] = EmptyVal(typetuple)
+        EMPTY_VALS.setdefault(typetuple, EmptyVal(typetuple))
     return EMPTY_VALS[typetuple]
 
 
-- 
2.43.0


From b20ed2e794ade48d5556c219788ba873eba701b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:45 +0000
Subject: [PATCH 81/88] fix: placeholders kept every name read from those of
 schemaless records

---
 normalize/empty.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index 1b3d444..12fece4 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -74,15 +74,18 @@ class EmptyVal(object):
                     "NoSuchAttribute",
                     attribute=attr_name,
                 )
-            elif attrs_found:
-                self._attrs[attr_name] = placeholder(
-                    tuple(
-                        itertypes(
-                            getattr(attr, "valuetype", False) or any for
-                            attr in attrs_found
-                        )
+            attr_val = placeholder(
+                tuple(
+                    itertypes(
+                        getattr(attr, "valuetype", False) or any for
+                        attr in attrs_found
                     )
                 )
+            )
+            if all(attr is None for attr in attrs_found):
+                # it can be any name, so there could be any number of them
+                return attr_val
+            self._attrs[attr_name] = attr_val
         return self._attrs[attr_name]
 
     def __setattr__(self, item, value):
-- 
2.43.0


From f5a92017c217347353bfa3b59d1d78a4bff46539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 82/88] fix: subtypes: checking a value does not swallow
 KeyboardInterrupt and the like

---
 normalize/subtype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/subtype.py b/normalize/subtype.py
index 6e7868b..29385c9 100644
--- a/normalize/subtype.py
+++ b/normalize/subtype.py
@@ -29,7 +29,7 @@ class subtype(type):
             ok = isinstance(instance, cls.of) and (
                 all(where(instance) for where in cls.where_funcs)
             )
-        except:
+        except Exception:
             ok = False
         return ok
 
-- 
2.43.0


From f6815dad28c6576b9a6009851355c84c73cde5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 83/88] fix: generic collection types: the name is added to the
 module even if that was interrupted, or there is no such module

---
 normalize/coll.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 2faba51..b53a4b9 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -531,10 +531,11 @@ def _make_generic(of, coll):
                 generic_name, (coll, _Generic),
                 dict(itemtype=of, generic_key=key)
             )
-            mod = sys.modules[of.__module__]
-            if not hasattr(mod, generic_name):
-                setattr(mod, generic_name, GENERIC_TYPES[key])
-        return GENERIC_TYPES[key]
+        generic_type = GENERIC_TYPES[key]
+        mod = sys.modules.get(of.__module__)
+        if mod is not None and not hasattr(mod, generic_type.__name__):
+            setattr(mod, generic_type.__name__, generic_type)
+        return generic_type
 
 
 def list_of(of):
-- 
2.43.0


From af0fa53f4bfeca9df1b957a66e82978f1638970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:36 +0000
Subject: [PATCH 84/88] fix: property types which are composed are registered
 once they are complete, so interruptions leave no read-only type which can be
 changed

---
 normalize/property/meta.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f8ec1fa..737bb7b 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -208,12 +208,10 @@ def create_property_type_from_traits(trait_set):
 
     for mro in itertools.permutations(bases):
         try:
-            new_type = type(new_name, mro, {})
+            type(new_name, mro, {"__composed__": True})
         except TypeError:
             # these can't be combined in this order
             continue
-        COMPOSED_TYPES.add(trait_set)
-        _keep_read_only(new_type)
         return
 
     raise exc.PropertyTypeMixinFailure(
@@ -286,9 +284,14 @@ class MetaProperty(type):
             attrs['traits'] = traits
             attrs['duckwargs'] = duckwargs
             attrs['all_duckwargs'] = all_duckwargs
+            composed = attrs.pop('__composed__', False)
             self = super(MetaProperty, mcs).__new__(mcs, name, bases, attrs)
-            PROPERTY_TYPES[self.traits] = self
             selfie[0] = self
+            # (only complete types are registered)
+            if composed:
+                _keep_read_only(self)
+                COMPOSED_TYPES.add(traits)
+            PROPERTY_TYPES[self.traits] = self
             if trait:
                 TRAIT_TYPES[trait].append(self)
                 for kwarg in duckwargs:
-- 
2.43.0


From 4b7dae29a02b6a9ae3d34d30ea56087c92d6461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:48 +0000
Subject: [PATCH 85/88] fix: identity of dictionary collections does not depend
 on the order of unorderable keys

---
 normalize/identity.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index aa78735..7039093 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -21,11 +21,16 @@ import normalize.record
 
 
 def _sort_tuples(gen):
+    """Sort by the keys; the result does not depend on the order passed, even
+    if the keys have no order, or only a partial one"""
     tuples = list(gen)
     try:
-        return sorted(tuples, key=lambda x: x[0])
+        tuples.sort(key=lambda x: x[0])
+        if all(x[0] < y[0] for x, y in zip(tuples, tuples[1:])):
+            return tuples
     except TypeError:
-        return sorted(tuples, key=lambda x: hash(x[0]))
+        pass
+    return sorted(tuples, key=lambda x: (hash(x[0]), repr(x[0])))
 
 
 def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
-- 
2.43.0


From a63609ccd61577ab8bd64b09b623a464717f28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 86/88] fix: MultiFieldSelector.get keeps attributes which are
 None

---
 normalize/selector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 4711fe6..a239713 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -867,9 +867,11 @@ class MultiFieldSelector(object):
             else:
                 kwargs = dict()
                 for head, tail in self.heads.items():
-                    val = getattr(obj, head, None)
-                    if val is not None:
-                        kwargs[head] = self._get(val, tail)
+                    val = getattr(obj, head, _None)
+                    if val is not _None:
+                        # (there's nothing to select from None)
+                        kwargs[head] = None if val is None else \
+                            self._get(val, tail)
                 return ctor(**kwargs)
 
     def delete(self, obj, force=False):
-- 
2.43.0


From cbd7c7c093d097180a0e60e7bf3c8cacf0a43930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 87/88] fix: MultiFieldSelector.get leaves out legacy
 attributes which are not set, whatever they read as

---
 normalize/selector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index a239713..6fe932b 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -28,6 +28,7 @@ from normalize.exc import FieldSelectorAttributeError
 from normalize.exc import FieldSelectorAutoVivifyError
 from normalize.exc import FieldSelectorException
 from normalize.exc import FieldSelectorKeyError
+from normalize.record import Record
 
 
 def _try_index(instance, selector):
@@ -868,6 +869,11 @@ class MultiFieldSelector(object):
                 kwargs = dict()
                 for head, tail in self.heads.items():
                     val = getattr(obj, head, _None)
+                    if isinstance(obj, Record) and hasattr(
+                        ctor.properties.get(head), "v1_none"
+                    ) and head not in obj.__dict__:
+                        # not set, but reads as something
+                        continue
                     if val is not _None:
                         # (there's nothing to select from None)
                         kwargs[head] = None if val is None else \
-- 
2.43.0


From 3aaa5559fdb96dc74d07b5856b76dfccd0fcb400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:27 +0000
Subject: [PATCH 88/88] fix: make_property_type leaves the attrs it is passed
 as they are

---
 normalize/property/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index dccb97d..ee1bdcd 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -552,8 +552,7 @@ def make_property_type(name, base_type=Property,
             ``make_property_type``.
     """
 
-    if not attrs:
-        attrs = {}
+    attrs = dict(attrs) if attrs else {}
     bases = base_type if isinstance(base_type, tuple) else (base_type,)
     self_type = []
     if not trait_name:
-- 
2.43.0

