From ce0f5de9aeb7e3025933a00f2d1b89759ff845b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 01/68] fix: apply the surrogate metaclass on python 3, so
 surrogates can be serialized

---
 scheme/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index f2175a0..a6d769e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -1,7 +1,7 @@
 from copy import deepcopy
 
 import scheme
-from scheme.util import identify_object, import_object, string
+from scheme.util import identify_object, import_object, string, with_metaclass
 
 __all__ = ('surrogate',)
 
@@ -11,6 +11,7 @@ class SurrogateMeta(type):
         cls.surrogate = identify_object(cls)
         return cls
 
+@with_metaclass(SurrogateMeta)
 class surrogate(dict):
     """A schema-based object surrogate.
 
@@ -25,7 +26,6 @@ class surrogate(dict):
     :param integer version: Optional, default is ``None``; the schema version of this surrogate.
     """
 
-    __metaclass__ = SurrogateMeta
     cache = {}
     schemas = None
 
-- 
2.43.0


From c811490da2f813fc764435322ce544e0d45ed8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 02/68] fix: check valid_surrogates against the surrogate's own
 identifier

---
 scheme/fields/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 3cd584d..61daf55 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -15,7 +15,7 @@ class Surrogate(Field):
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a surrogate'),
-        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogate)s'),
+        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogates)s'),
     ]
 
     def __init__(self, valid_surrogates=None, **params):
@@ -62,6 +62,6 @@ class Surrogate(Field):
         if not isinstance(value, surrogate):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        if self.valid_surrogates and value.identity not in self.valid_surrogates:
+        if self.valid_surrogates and value.surrogate not in self.valid_surrogates:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'invalid-surrogate', surrogates=', '.join(sorted(self.valid_surrogates)))
-- 
2.43.0


From e87ee6f0523043ebb5271fe3cbb7655413834c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 03/68] fix: reconstruct a field without modifying the given
 specification

---
 scheme/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/field.py b/scheme/field.py
index 8da185d..5493144 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -67,6 +67,7 @@ class FieldMeta(type):
             fieldtype, specification = specification, params
         else:
             try:
+                specification = dict(specification)
                 fieldtype = specification.pop('fieldtype')
             except Exception:
                 raise ValueError("argument 'specification' must be a dict value properly"
-- 
2.43.0


From cc01eedf14bc202650c53cebaa7f5f9be4a5f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 04/68] fix: keep merging fields into a structure after one is
 already present

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b6d7532..d79a941 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -351,7 +351,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if name in self.structure and not prefer:
-                return
+                continue
             if field.name != name:
                 field = field.clone(name=name)
             self.structure[name] = field
-- 
2.43.0


From 00048a4cc15b5cf0eeaa2cd193bea845f35f9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 05/68] fix: honour the 'all' argument and fully excluded
 structures when filtering

---
 scheme/fields/map.py       | 2 +-
 scheme/fields/structure.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 263af53..b24a831 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -123,7 +123,7 @@ class Map(Field):
         if not super(Map, self).filter(all, **params):
             return None
 
-        value = self.value.filter(self.value, **params)
+        value = self.value.filter(all, **params)
         if value is self.value:
             return self
         elif value:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index d79a941..1d33e1d 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -233,14 +233,14 @@ class Structure(Field):
             structure = {}
             for identity, substructure in self.structure.items():
                 candidate = self._filter_structure(substructure, all, params)
-                if candidate:
+                if candidate is not None:
                     structure[identity] = candidate
                     filtered = True
                 else:
                     structure[identity] = substructure
         else:
             structure = self._filter_structure(self.structure, all, params)
-            if structure:
+            if structure is not None:
                 filtered = True
 
         if filtered:
@@ -520,7 +520,7 @@ class Structure(Field):
         candidates = {}
 
         for name, field in structure.items():
-            candidate = field.filter(all, **params)
+            candidate = field.filter(exclusive, **params)
             if candidate:
                 candidates[name] = candidate
                 if candidate is not field:
-- 
2.43.0


From f1597d3471ab15d1bf18fbe4387d84c011a8a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 06/68] fix: name the interpolator correctly when interpolating
 a union

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 8de3215..95daec9 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -84,7 +84,7 @@ class Union(Field):
 
         for field in self.fields:
             try:
-                return field.interpolate(subject, parameters, interpolater)
+                return field.interpolate(subject, parameters, interpolator)
             except CannotInterpolateError:
                 pass
             except AttributeError:
-- 
2.43.0


From 87fb9c24e4f73769fec0f80fd4176d72a04275c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 07/68] fix: do not print every cell while reading csv

---
 scheme/formats/csv.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index bcfe3e2..3bbe736 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -113,7 +113,6 @@ class Csv(Format):
             for i, column, converter in cells:
                 value = row[i]
                 if value:
-                    print(value)
                     if converter:
                         candidate[column] = converter(value)
                     else:
-- 
2.43.0


From 5f3db7f78ee280372140f0bf1fbda0c106885290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 08/68] fix: read csv rows and quoted line breaks as the csv
 module writes them

---
 scheme/formats/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 3bbe736..c31ba98 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -89,7 +89,7 @@ class Csv(Format):
         if not isinstance(structure, Structure):
             raise TypeError(structure)
 
-        reader = Reader(value.strip('\r\n').split('\r\n'), cls.Dialect)
+        reader = Reader(StringIO(value.strip('\r\n')), cls.Dialect)
         columns = next(reader)
 
         cells = []
-- 
2.43.0


From 551b482a40cc514c4c450f23a4afd04b7f3fb08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 09/68] fix: let the urlencoded format be used through fields
 and Format

---
 scheme/formats/urlencoded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index eec97cd..dc8f419 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -18,7 +18,7 @@ class UrlEncoded(StructuredText):
     name = 'urlencoded'
 
     @classmethod
-    def serialize(cls, content):
+    def serialize(cls, content, schema=None):
         if not isinstance(content, dict):
             raise ValueError(content)
 
@@ -29,7 +29,7 @@ class UrlEncoded(StructuredText):
         return urlencode(data)
 
     @classmethod
-    def unserialize(cls, content):
+    def unserialize(cls, content, schema=None):
         if not isinstance(content, string):
             raise ValueError(content)
 
-- 
2.43.0


From 2719ca40374348530d34311c780947e36a7642f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 10/68] fix: keep blank values when reading urlencoded content

---
 scheme/formats/urlencoded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index dc8f419..a010293 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -34,8 +34,8 @@ class UrlEncoded(StructuredText):
             raise ValueError(content)
 
         data = {}
-        for name, value in parse_qsl(content):
-            if value[0] in ('{', '['):
+        for name, value in parse_qsl(content, True):
+            if value[:1] in ('{', '['):
                 value = cls._unserialize_structured_value(value)
             else:
                 value = cls._unserialize_simple_value(value)
-- 
2.43.0


From d1d6371979e1d06778940ec2ff8c9642df921af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 11/68] fix: read empty structured text as an empty string

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index c015ad9..4499f14 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -23,7 +23,7 @@ class StructuredText(Format):
     def unserialize(cls, value, schema=None, parse_numbers=False):
         if not isinstance(value, string):
             raise ValueError(value)
-        if value[0] in ('{', '['):
+        if value[:1] in ('{', '['):
             return cls._unserialize_structured_value(value, parse_numbers)
         else:
             return cls._unserialize_simple_value(value, parse_numbers)
-- 
2.43.0


From 6fceeee64638dc905ba37f56bd82680dc0facaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 12/68] fix: unescape structured text when parsing numbers

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 4499f14..3711334 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -120,4 +120,4 @@ class StructuredText(Format):
         try:
             return int(value)
         except (TypeError, ValueError):
-            return value
+            return cls.ESCAPED_TOKENS_EXPR.sub(r'\1', value)
-- 
2.43.0


From 586cb755e2d71e451aec732cfaee3777c0aa0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 13/68] fix: check sequences of unhashable items for duplicates

---
 scheme/fields/sequence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index eca6c5f..dc5bee8 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -203,7 +203,7 @@ class Sequence(Field):
 
         if not valid:
             raise ValidationError(identity=ancestry, field=self, value=value, structure=sequence)
-        elif self.unique and len(set(sequence)) != len(sequence):
+        elif self.unique and self._has_duplicates(sequence):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('duplicate')
         else:
             return sequence
@@ -224,6 +224,12 @@ class Sequence(Field):
     def _define_undefined_field(self, field):
         self.item = field
 
+    def _has_duplicates(self, sequence):
+        try:
+            return len(set(sequence)) != len(sequence)
+        except TypeError:
+            return any(value in sequence[:i] for i, value in enumerate(sequence))
+
     @classmethod
     def _visit_field(cls, specification, callback):
         return {'item': callback(specification['item'])}
-- 
2.43.0


From ff0c14aed5d0e8296b91239b2dbedcd2f5f7286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 14/68] fix: report malformed base64 content as an invalid
 binary value

---
 scheme/fields/binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/binary.py b/scheme/fields/binary.py
index 2824acc..d77d4a4 100644
--- a/scheme/fields/binary.py
+++ b/scheme/fields/binary.py
@@ -48,7 +48,10 @@ class Binary(Field):
         if not isinstance(value, bytes):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        return urlsafe_b64decode(value)
+        try:
+            return urlsafe_b64decode(value)
+        except Exception:
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, bytes):
-- 
2.43.0


From 0082b3465ecb09dab7fb9f66e89a0ed582999277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 15/68] fix: include ignored_values, segments and key_order in
 field descriptions

---
 scheme/fields/enumeration.py | 2 +-
 scheme/fields/structure.py   | 2 +-
 scheme/fields/token.py       | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 96f5e85..325cb9b 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -9,7 +9,7 @@ class Enumeration(Field):
     """A field for enumerated values."""
 
     basetype = 'enumeration'
-    parameters = {'enumeration': None}
+    parameters = {'enumeration': None, 'ignored_values': None}
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be one of %(values)s')
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 1d33e1d..a23bd2e 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -50,7 +50,7 @@ class Structure(Field):
     """
 
     basetype = 'structure'
-    parameters = {'strict': True}
+    parameters = {'key_order': None, 'strict': True}
     structural = True
 
     errors = [
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index 7ac89a3..cbace9a 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,6 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
+    parameters = {'segments': None}
     pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*$')
 
     errors = [
-- 
2.43.0


From a1dc18ee503c61279eb0a7ff476c7eac1aa27730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 16/68] fix: describe empty, nested and null-bearing defaults
 of structural fields

---
 scheme/fields/map.py       | 2 +-
 scheme/fields/sequence.py  | 2 +-
 scheme/fields/structure.py | 4 ++--
 scheme/fields/tuple.py     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index b24a831..bf30691 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -76,7 +76,7 @@ class Map(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for key, value in self.default.items():
                 default[key] = self.value.process(value, OUTBOUND, True)
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index dc5bee8..b73cd1a 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -72,7 +72,7 @@ class Sequence(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = [self.item.process(value, OUTBOUND, True) for value in self.default]
 
         return super(Sequence, self).describe(parameters, verbose,
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index a23bd2e..80c84e1 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -159,10 +159,10 @@ class Structure(Field):
             structure = self._describe_structure(self.structure, parameters, verbose)
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for name, value in self.default.items():
-                default[name] = default_structure[name]._serialize_value(value)
+                default[name] = default_structure[name].process(value, OUTBOUND, True)
 
         return super(Structure, self).describe(parameters, verbose, default=default,
             polymorphic_on=polymorphic_on, structure=structure)
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 48d2a90..fc24271 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -56,7 +56,7 @@ class Tuple(Field):
             values.append(value.describe(parameters, verbose))
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = []
             for field, value in zip(self.values, self.default):
                 default.append(field.process(value, OUTBOUND, True))
-- 
2.43.0


From 6d5d40f6e01302e2fd76228f082c560d718b73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 17/68] fix: clone fields which declare their own errors

---
 scheme/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 5493144..76cde10 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -205,6 +205,8 @@ class Field(object):
 
         if errors:
             self.errors = self.errors.copy()
+            if isinstance(errors, dict):
+                errors = errors.values()
             for error in errors:
                 self.errors[error.token] = error
 
-- 
2.43.0


From 4612dfc2bbc051e384300ff29aa3f6e3a8c850cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 18/68] fix: write four digit years, and describe datetime
 bounds in utc

---
 scheme/fields/date.py     | 14 +++++++-------
 scheme/fields/datetime.py | 14 +++++++-------
 scheme/formats/yaml.py    |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 3909571..2ebe4f6 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -48,22 +48,22 @@ class Date(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % self._serialize_value(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % self._serialize_value(self.maximum))
         return super(Date, self).__repr__(aspects)
 
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum is not None:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum is not None:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(Date, self).describe(parameters, verbose, **params)
 
     def _serialize_value(self, value):
-        return value.strftime(self.pattern)
+        return '%04d-%02d-%02d' % value.timetuple()[:3]
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, date):
@@ -81,9 +81,9 @@ class Date(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=self._serialize_value(maximum))
diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 7a4dd34..d6856c9 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -51,9 +51,9 @@ class DateTime(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % self._serialize_value(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % self._serialize_value(self.maximum))
         if self.utc:
             aspects.append('utc=True')
 
@@ -62,9 +62,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
@@ -81,7 +81,7 @@ class DateTime(Field):
     def _serialize_value(self, value):
         if value.tzinfo is not UTC:
             value = value.astimezone(UTC)
-        return value.strftime(self.pattern)
+        return '%04d-%02d-%02dT%02d:%02d:%02dZ' % value.timetuple()[:6]
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
@@ -102,11 +102,11 @@ class DateTime(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=self._serialize_value(maximum))
 
         return value
diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index f662160..f62c8d8 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -177,9 +177,9 @@ class Yaml(Format):
             else:
                 return 'false'
         elif isinstance(value, datetime):
-            return value.strftime('%Y-%m-%d %H:%M:%S')
+            return '%04d-%02d-%02d %02d:%02d:%02d' % value.timetuple()[:6]
         elif isinstance(value, date):
-            return value.strftime('%Y-%m-%d')
+            return '%04d-%02d-%02d' % value.timetuple()[:3]
         elif isinstance(value, (float, int)):
             return str(value)
         else:
-- 
2.43.0


From d290142ab603c927789434c7dc2f3ba174a7dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 19/68] fix: check datetime values against the bounds of a date
 field

---
 scheme/fields/date.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 2ebe4f6..290353b 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 
-from datetime import date
+from datetime import date, datetime
 from time import strptime
 
 from scheme.exceptions import *
@@ -78,12 +78,16 @@ class Date(Field):
         if not isinstance(value, date):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
+        candidate = value
+        if isinstance(candidate, datetime):
+            candidate = candidate.date()
+
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and candidate < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and candidate > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=self._serialize_value(maximum))
-- 
2.43.0


From 67d091481a32d67b43008831cad29a99d5c08fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 20/68] fix: allow structures to contain themselves, and
 schemas to be cloned while undefined

---
 scheme/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 76cde10..5d84a98 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -628,6 +628,9 @@ class Undefined(object):
         self.callbacks = []
         self.field = field
 
+    def __deepcopy__(self, memo):
+        return self
+
     def define(self, field):
         self.field = field
         for callback, args in self.callbacks:
-- 
2.43.0


From eba446d5d38b08a07db93570adaa5a4bad464524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 21/68] fix: raise UndefinedFieldError when an undefined field
 has no value

---
 scheme/fields/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 80c84e1..b09e61b 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -411,6 +411,8 @@ class Structure(Field):
                 field_value = value[name]
             elif partial:
                 continue
+            elif isinstance(field, Undefined):
+                raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
                 field_value = field.default
             elif field.required:
-- 
2.43.0


From 3c3aa337e80c8c654fd71d36030c9e7e15c69e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 22/68] fix: transform the variants of polymorphic structures

---
 scheme/fields/structure.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b09e61b..3fb902f 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -487,16 +487,16 @@ class Structure(Field):
         elif candidate is False:
             return self
 
-        transformed = False
-        candidates = {}
-
-        for name, field in self.structure.items():
-            candidate = field.transform(transformer)
-            if candidate is not field:
-                candidates[name] = candidate
-                transformed = True
-            else:
-                candidates[name] = field
+        if self.polymorphic:
+            transformed = False
+            candidates = {}
+            for identity, structure in self.structure.items():
+                candidates[identity] = self._transform_structure(structure, transformer)
+                if candidates[identity] is not structure:
+                    transformed = True
+        else:
+            candidates = self._transform_structure(self.structure, transformer)
+            transformed = (candidates is not self.structure)
 
         if transformed:
             return self.clone(structure=candidates)
@@ -574,6 +574,21 @@ class Structure(Field):
             if not field.name:
                 field.name = name
 
+    def _transform_structure(self, structure, transformer):
+        transformed = False
+        candidates = {}
+
+        for name, field in structure.items():
+            candidate = field.transform(transformer)
+            if candidate is not field:
+                transformed = True
+            candidates[name] = candidate
+
+        if transformed:
+            return candidates
+        else:
+            return structure
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
-- 
2.43.0


From 2c04187b81a603f115c901f1df6da177b7c51544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 23/68] fix: read and write polymorphic structures and empty
 text as xml

---
 scheme/formats/xml.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index f250867..f209e57 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -49,9 +49,10 @@ class Xml(Format):
                 element.text = 'false'
         elif field.type == 'structure':
             if content:
+                definition = field._get_definition(content)
                 for key, value in sorted(content.items()):
                     subelement = etree.SubElement(element, key)
-                    cls._serialize_content(value, subelement, field.structure[key])
+                    cls._serialize_content(value, subelement, definition[key])
         elif field.type == 'map':
             if content:
                 for key, value in sorted(content.items()):
@@ -89,7 +90,12 @@ class Xml(Format):
         elif field.type == 'sequence':
             return attr, [cls._unserialize_element(v, field.item)[1] for v in element]
         elif field.type == 'structure':
-            return attr, dict(cls._unserialize_element(v, field.structure[v.tag])
+            definition = field.structure
+            if field.polymorphic:
+                discriminator = field.polymorphic_on
+                definition = definition[cls._unserialize_element(
+                    element.find(discriminator.name), discriminator)[1]]
+            return attr, dict(cls._unserialize_element(v, definition[v.tag])
                 for v in element)
         elif field.type == 'tuple':
             return attr, tuple(cls._unserialize_element(v, field.values[i])[1]
@@ -97,4 +103,4 @@ class Xml(Format):
         elif field.type == 'union':
             raise NotImplementedError()
         else:
-            return attr, element.text
+            return attr, element.text or ''
-- 
2.43.0


From 32ba34e684ae84dd6d2fea6edc362acbf88273bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 24/68] fix: reject tokens, uuids and extended emails followed
 by a newline

---
 scheme/fields/email.py | 2 +-
 scheme/fields/token.py | 2 +-
 scheme/fields/uuid.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 0fc5c53..35468d3 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -13,7 +13,7 @@ EMAIL_EXPR = (
     r')@([a-zA-Z0-9-]+\.)+[a-zA-Z]{2,6}')
 
 EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?$' % EMAIL_EXPR)
-EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?$'
+EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?\Z'
     % (EMAIL_EXPR, EMAIL_EXPR, EMAIL_EXPR))
 EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?$' % (EMAIL_EXPR, EMAIL_EXPR))
 
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index cbace9a..d13d745 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -12,7 +12,7 @@ class Token(Field):
 
     basetype = 'token'
     parameters = {'segments': None}
-    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*$')
+    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a valid token')
diff --git a/scheme/fields/uuid.py b/scheme/fields/uuid.py
index 57f3713..fd6feaf 100644
--- a/scheme/fields/uuid.py
+++ b/scheme/fields/uuid.py
@@ -11,7 +11,7 @@ class UUID(Field):
     """A field for UUID values."""
 
     basetype = 'text'
-    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$')
+    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a UUID')
-- 
2.43.0


From abebbf3b441a7ac2d819e535ffe8bd01cdbafa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 25/68] fix: report the offending value when a boolean is given
 for an integer

---
 scheme/fields/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index bbbdf08..9465781 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -45,7 +45,7 @@ class Integer(Field):
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
-            raise InvalidTypeError(identity=ancestry, field=self, valid=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         try:
             return int(value)
-- 
2.43.0


From c3fd026aca7ccace8eb3f28eb4ca084da9174700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 26/68] fix: report preprocessor failures of maps, sequences
 and tuples as invalid values

---
 scheme/fields/map.py      | 6 +++++-
 scheme/fields/sequence.py | 6 +++++-
 scheme/fields/tuple.py    | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index bf30691..f394069 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -186,7 +186,11 @@ class Map(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         valid = True
         key_field = self.key
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index b73cd1a..7d11227 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -173,7 +173,11 @@ class Sequence(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         min_length = self.min_length
         if min_length is not None and len(value) < min_length:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index fc24271..4f3af74 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -169,7 +169,11 @@ class Tuple(Field):
         if not isinstance(value, (list, tuple)):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         values = self.values
         if len(value) != len(values):
-- 
2.43.0


From 75edf333b0f2822df72cdeb52de6af68ca9b291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 27/68] fix: report datetimes which overflow in the field's
 timezone as validation errors

---
 scheme/fields/datetime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index d6856c9..43708b0 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -95,7 +95,11 @@ class DateTime(Field):
 
     def _validate_value(self, value, ancestry):
         if isinstance(value, datetime):
-            value = self._normalize_value(value)
+            try:
+                value = self._normalize_value(value)
+            except OverflowError:
+                raise ValidationError(identity=ancestry, field=self,
+                    value=value).construct('overflow')
         else:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-- 
2.43.0


From ac9621de9de4a5bcd8af90c338c98f6d3a99899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 28/68] fix: do not accept NaN within the bounds of floats and
 decimals

---
 scheme/fields/decimal.py | 4 ++--
 scheme/fields/float.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index d9ef58d..dd4b2b7 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -89,11 +89,11 @@ class Decimal(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and (value.is_nan() or value < minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum)
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and (value.is_nan() or value > maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum)
diff --git a/scheme/fields/float.py b/scheme/fields/float.py
index 2d7d075..072ae91 100644
--- a/scheme/fields/float.py
+++ b/scheme/fields/float.py
@@ -54,11 +54,11 @@ class Float(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and not value >= minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum)
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and not value <= maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum)
-- 
2.43.0


From 34336c02bbdaf36e127803bdf35f911dbd233f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 29/68] fix: report times which cannot be compared with a
 field's bounds as invalid

---
 scheme/fields/time.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/time.py b/scheme/fields/time.py
index fe6e0bb..92c8412 100644
--- a/scheme/fields/time.py
+++ b/scheme/fields/time.py
@@ -58,6 +58,12 @@ class Time(Field):
 
         return super(Time, self).describe(parameters=parameters, verbose=verbose, **params)
 
+    def _is_comparable(self, value):
+        for bound in (self.minimum, self.maximum):
+            if bound is not None and (bound.utcoffset() is None) != (value.utcoffset() is None):
+                return False
+        return True
+
     def _serialize_value(self, value):
         return value.strftime(self.pattern)
 
@@ -72,7 +78,7 @@ class Time(Field):
                 value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
-        if not isinstance(value, time):
+        if not (isinstance(value, time) and self._is_comparable(value)):
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
 
-- 
2.43.0


From a891c09be2a29a146c43e91fe47c92150b3a7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 30/68] fix: process maps keyed by tuples

---
 scheme/fields/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index f394069..fbc51ab 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -200,14 +200,14 @@ class Map(Field):
         for name, subvalue in value.items():
             if key_field:
                 try:
-                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % name])
+                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % (name,)])
                 except StructuralError as exception:
                     raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
             elif not isinstance(name, string):
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
 
             try:
-                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
+                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % (name,)])
             except StructuralError as exception:
                 valid = False
                 map[name] = exception
-- 
2.43.0


From 73e1eaadd90571280af9a68ce57269af1adab22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 31/68] fix: rebuild nested errors when unserializing a
 structural error

---
 scheme/exceptions.py   | 24 ++++++++++++++++++++++--
 scheme/fields/error.py |  2 +-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 026b1dd..d63b182 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -1,6 +1,6 @@
 from traceback import format_exc
 
-from scheme.util import format_structure, indent
+from scheme.util import format_structure, indent, string
 
 __all__ = ('CannotDescribeError', 'CannotExtractError', 'CannotFilterError',
     'CannotInterpolateError', 'FieldExcludedError', 'InvalidTypeError', 'StructuralError',
@@ -128,7 +128,27 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
-        return cls(*errors, **{'structure': structure})
+        return cls(*(errors or ()), **{'structure': cls._unserialize_structure(structure)})
+
+    @classmethod
+    def _unserialize_structure(cls, structure):
+        if isinstance(structure, dict):
+            return dict((k, cls._unserialize_item(v)) for k, v in structure.items())
+        elif isinstance(structure, (list, tuple)):
+            return [cls._unserialize_item(item) for item in structure]
+        else:
+            return structure
+
+    @classmethod
+    def _unserialize_item(cls, item):
+        if isinstance(item, (list, tuple)) and all(
+                isinstance(error, dict) and isinstance(error.get('message', error.get('token')), string)
+                for error in item):
+            return cls(*item)
+        elif isinstance(item, (dict, list, tuple)):
+            return cls(structure=cls._unserialize_structure(item))
+        else:
+            return item
 
     def _format_errors(self, errors):
         field = self.field
diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index 31787b9..4659702 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -18,7 +18,7 @@ class Error(Field):
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, StructuralError):
             return value
-        elif isinstance(value, tuple) and len(value) == 2:
+        elif isinstance(value, (list, tuple)) and len(value) == 2:
             return StructuralError.unserialize(value)
         else:
             raise InvalidTypeError(identity=ancestry, field=self,
-- 
2.43.0


From 01288ef39400050269cc8e9853bc93e3f02a6602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 32/68] fix: write yaml which reads back as the value that was
 written

---
 README.rst             |  2 +-
 scheme/formats/yaml.py | 96 ++++++++++++++++++++++++------------------
 2 files changed, 57 insertions(+), 41 deletions(-)

diff --git a/README.rst b/README.rst
index 5493e9f..b7c6447 100644
--- a/README.rst
+++ b/README.rst
@@ -39,7 +39,7 @@ Scheme can be used wherever incoming and outgoing structured data needs to be we
 
     >>> print(account.serialize(suzy, 'yaml'))
     active: false
-    birthday: 1985-12-02
+    birthday: '1985-12-02'
     email: suzy.queue@something.com
     logins: 324
     name: Suzy Queue
diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index f62c8d8..004b18f 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -16,20 +16,19 @@ except ImportError:
     yaml = None
 
 from scheme.format import *
-from scheme.util import string
+from scheme.util import integers, string
 
 __all__ = ('Yaml',)
 
 class Yaml(Format):
     extensions = ['.yaml', '.yml']
     indent = '  '
-    indicators = '-?:,[]{}#&*!|>\'"%@`'
     line_width = 100
     mimetype = 'application/x-yaml'
     name = 'yaml'
     requires_escape = (': ', ' #')
-    requires_quotes = ('null', '~', 'true', 'false')
-    whitespace = re.compile(r'^\s*$')
+    requires_quotes = ('null', 'true', 'false', 'yes', 'no', 'on', 'off')
+    unprintable = re.compile(u'[\x00-\x1f\x7f-\x9f\u2028\u2029\ud800-\udfff\ufeff\ufffe\uffff]')
 
     @classmethod
     def serialize(cls, value, schema=None):
@@ -42,19 +41,23 @@ class Yaml(Format):
     def unserialize(cls, value, schema=None):
         return yaml.load(value)
 
+    @classmethod
+    def _escape_string(cls, value):
+        def escape(match):
+            code = ord(match.group(0))
+            return (code < 256 and '\\x%02x' or '\\u%04x') % code
+
+        value = value.replace('\\', '\\\\').replace('"', '\\"')
+        return '"%s"' % cls.unprintable.sub(escape, value)
+
     @classmethod
     def _is_literal_text(cls, value):
-        if '\n' not in value:
+        if '\n' not in value or value[0] in ' \n' or value[-1] == '\n':
             return False
 
-        whitespace = cls.whitespace
-        for line in value.split('\n'):
-            if not line or whitespace.match(line):
-                continue
-            if line[0] in ' \t\v\f':
-                return True
-        else:
-            return False
+        lines = value.split('\n')
+        return not (cls.unprintable.search(''.join(lines))
+            or any(line.endswith(' ') for line in lines))
 
     @classmethod
     def _is_simple_sequence(cls, value):
@@ -66,7 +69,9 @@ class Yaml(Format):
 
     @classmethod
     def _requires_escaping(cls, value):
-        if value[0] in cls.indicators:
+        if not (value[0].isalpha() or value[0] == '_') or value[-1] in ' :':
+            return True
+        if value.lower() in cls.requires_quotes:
             return True
 
         for token in cls.requires_escape:
@@ -75,6 +80,28 @@ class Yaml(Format):
         else:
             return False
 
+    @classmethod
+    def _serialize_scalar(cls, value):
+        if not isinstance(value, string):
+            return cls._serialize_value(value, None)
+        elif not value:
+            return "''"
+        elif cls.unprintable.search(value):
+            return cls._escape_string(value)
+        elif cls._requires_escaping(value):
+            return "'%s'" % value.replace("'", "''")
+        else:
+            return value
+
+    @classmethod
+    def _serialize_float(cls, value):
+        content = repr(value)
+        if content in ('inf', '-inf', 'nan'):
+            return content.replace('inf', '.inf').replace('nan', '.nan')
+        elif '.' not in content:
+            content = content.replace('e', '.0e')
+        return content
+
     @classmethod
     def _serialize_sequence(cls, value, level):
         if not value:
@@ -108,7 +135,7 @@ class Yaml(Format):
 
         lines = []
         for k, v in items:
-            key = '%s%s:' % (cls.indent * level, k)
+            key = '%s%s:' % (cls.indent * level, cls._serialize_scalar(k))
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
@@ -128,38 +155,25 @@ class Yaml(Format):
 
     @classmethod
     def _serialize_string(cls, value, level):
-        length = len(value)
-        if length == 0:
-            return "''"
-        elif length <= 5 and value.lower() in cls.requires_quotes:
-            return "'%s'" % value
-
-        indent = cls.indent * level
-        if '\n' in value:
-            lines = ['|']
+        indent = cls.indent * max(level, 1)
+        if cls._is_literal_text(value):
+            lines = ['|-']
             for line in value.split('\n'):
                 if line:
                     lines.append(indent + line)
                 else:
                     lines.append('')
             return lines
-        elif length + len(indent) <= cls.line_width:
-            if cls._requires_escaping(value):
-                return "'%s'" % value.replace("'", "''")
-            else:
-                return value
-        else:
-            if cls._requires_escaping(value):
-                value = "'%s'" % value.replace("'", "''")
 
-            wrapper = TextWrapper(width=cls.line_width, initial_indent=indent,
-                subsequent_indent=indent, break_long_words=False,
-                replace_whitespace=False, drop_whitespace=False)
+        content = cls._serialize_scalar(value)
+        if content[0] == '"' or '  ' in content or len(value) + len(indent) <= cls.line_width:
+            return content
 
-            lines = []
-            for line in value.splitlines():
-                lines.extend(wrapper.wrap(line))
-            return lines
+        wrapper = TextWrapper(width=cls.line_width, initial_indent=indent,
+            subsequent_indent=indent, break_long_words=False, break_on_hyphens=False,
+            expand_tabs=False, replace_whitespace=False)
+
+        return wrapper.wrap(content)
 
     @classmethod
     def _serialize_value(cls, value, level):
@@ -180,7 +194,9 @@ class Yaml(Format):
             return '%04d-%02d-%02d %02d:%02d:%02d' % value.timetuple()[:6]
         elif isinstance(value, date):
             return '%04d-%02d-%02d' % value.timetuple()[:3]
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, float):
+            return cls._serialize_float(value)
+        elif isinstance(value, integers):
             return str(value)
         else:
             raise ValueError(value)
-- 
2.43.0


From 78ee35732952e2b063a1a64ee81d5d0f5984761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 33/68] fix: report enumerations which fail their constant or
 preprocessor as invalid values

---
 scheme/field.py              | 7 ++++++-
 scheme/fields/enumeration.py | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 5d84a98..cddbea2 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -26,7 +26,7 @@ class FieldError(object):
     def format(self, field, params):
         if 'field' not in params:
             params['field'] = field.name or 'unknown-field'
-        return self.message % params
+        return self.message % dict(field._error_params(), **params)
 
 class FieldMeta(type):
     def __new__(metatype, name, bases, namespace):
@@ -574,6 +574,11 @@ class Field(object):
         else:
             raise CannotDescribeError(parameter)
 
+    def _error_params(self):
+        """Returns the parameters which are available to every error message of this field."""
+
+        return {}
+
     def _is_null(self, value, ancestry):
         if value is None:
             if self.nonnull:
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 325cb9b..26a3be8 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -66,6 +66,9 @@ class Enumeration(Field):
         self.enumeration = list(set(baseline + enumeration))
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
+    def _error_params(self):
+        return {'values': self.representation}
+
     def _is_null(self, value, ancestry):
         ignored_values = self.ignored_values
         if ignored_values and value in ignored_values:
@@ -75,5 +78,4 @@ class Enumeration(Field):
 
     def _validate_value(self, value, ancestry):
         if value not in self.enumeration:
-            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid',
-                values=self.representation)
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
-- 
2.43.0


From fa8fc0210673fe37129c2c99342af9a7bca15def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 34/68] fix: print errors whose value is a tuple

---
 scheme/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index d63b182..6c9cdad 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -164,7 +164,7 @@ class StructuralError(SchemeError):
             if definition.show_field:
                 lines.append('Field: %r' % field)
             if definition.show_value and self.value is not None:
-                lines.append('Value: %r' % self.value)
+                lines.append('Value: %r' % (self.value,))
 
             if self.tracebacks:
                 lines.append('Captured tracebacks:')
-- 
2.43.0


From ef1958edaeb059bb1aed7dc74bb65f1abcfc733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 35/68] fix: report malformed structural errors as invalid
 values

---
 scheme/fields/error.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index 4659702..fb7bc55 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -19,10 +19,12 @@ class Error(Field):
         if isinstance(value, StructuralError):
             return value
         elif isinstance(value, (list, tuple)) and len(value) == 2:
-            return StructuralError.unserialize(value)
-        else:
-            raise InvalidTypeError(identity=ancestry, field=self,
-                value=value).construct('invalid')
+            errors, structure = value
+            if errors is None or isinstance(errors, (list, tuple)):
+                return StructuralError.unserialize(value)
+
+        raise InvalidTypeError(identity=ancestry, field=self,
+            value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, StructuralError):
-- 
2.43.0


From 6d52f3e8c7cd4ae4c23c306ed56ff498bd44da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 36/68] fix: report malformed surrogates as invalid values

---
 scheme/fields/surrogate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 61daf55..94bd1b0 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -51,7 +51,13 @@ class Surrogate(Field):
 
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, dict):
-            return surrogate.unserialize(value, ancestry)
+            try:
+                return surrogate.unserialize(value, ancestry)
+            except (StructuralError, UndefinedFieldError):
+                raise
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
         elif isinstance(value, surrogate):
             return value
         else:
-- 
2.43.0


From 0aeaadb62839db6535e4bfa973033b85681b8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 37/68] fix: rebuild polymorphic structures whose identities
 are not text

---
 scheme/fields/structure.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 3fb902f..6731faf 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -122,6 +122,16 @@ class Structure(Field):
             aspects.append('key_order=%r' % self.key_order)
         return super(Structure, self).__repr__(aspects)
 
+    @classmethod
+    def construct(cls, **specification):
+        params = cls._construct_parameter(specification)
+        polymorphic_on = params.get('polymorphic_on')
+        if isinstance(polymorphic_on, Field):
+            params['structure'] = dict(
+                (identity if identity == '*' else polymorphic_on.unserialize(identity), structure)
+                for identity, structure in params['structure'].items())
+        return cls(**params)
+
     @property
     def has_required_fields(self):
         """need doc"""
-- 
2.43.0


From 9923710cb0bcccd261375084c0ed0370930e4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 38/68] fix: use the variant of a falsy polymorphic identity

---
 scheme/fields/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 6731faf..fdeef9c 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -555,9 +555,8 @@ class Structure(Field):
         return default
 
     def _get_definition(self, value, getter=getitem):
-        identity = self._get_polymorphic_identity(value, getter)
-        if identity:
-            return self.structure[identity]
+        if self.polymorphic_on:
+            return self.structure[self._get_polymorphic_identity(value, getter)]
         else:
             return self.structure
 
-- 
2.43.0


From 8077bbc5ac6508c0a24e3d2e8f07929bcb128b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 39/68] fix: serialize the keys of a map's default when
 describing it

---
 scheme/fields/map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index fbc51ab..d82b555 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -79,6 +79,8 @@ class Map(Field):
         if self.default is not None:
             default = {}
             for key, value in self.default.items():
+                if self.key:
+                    key = self.key.process(key, OUTBOUND, True)
                 default[key] = self.value.process(value, OUTBOUND, True)
 
         params = {'value': self.value.describe(parameters, verbose), 'default': default}
-- 
2.43.0


From 59c134e389a38737cb8904986d218b04d1cfd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 40/68] fix: show tuples as defaults of fields

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index cddbea2..8d179fd 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -223,7 +223,7 @@ class Field(object):
         if self.constant:
             aspects.append('constant=True')
         if self.default is not None:
-            aspects.append('default=%r' % self.default)
+            aspects.append('default=%r' % (self.default,))
         if self.nonnull:
             aspects.append('nonnull=True')
         if self.required:
-- 
2.43.0


From b0f308a128b41de8370766187c08fc1ec1ea826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 41/68] fix: describe structures whose default has undeclared
 keys

---
 scheme/fields/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index fdeef9c..80ec45e 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -172,7 +172,8 @@ class Structure(Field):
         if self.default is not None:
             default = {}
             for name, value in self.default.items():
-                default[name] = default_structure[name].process(value, OUTBOUND, True)
+                if name in default_structure:
+                    default[name] = default_structure[name].process(value, OUTBOUND, True)
 
         return super(Structure, self).describe(parameters, verbose, default=default,
             polymorphic_on=polymorphic_on, structure=structure)
-- 
2.43.0


From 4a8c16c8d96b916ce1060358ec3f9f76fe842d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 42/68] fix: report structures without a recognized identity
 when extracting and interpolating

---
 scheme/fields/structure.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 80ec45e..e3a6ccb 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -212,7 +212,11 @@ class Structure(Field):
         else:
             raise CannotExtractError('extraction candidate must be a dict value')
 
-        definition = self._get_definition(subject, getter)
+        try:
+            definition = self._get_definition(subject, getter)
+        except (AttributeError, KeyError, TypeError):
+            raise CannotExtractError('extraction candidate has no recognized polymorphic identity')
+
         extraction = {}
 
         for name, field in definition.items():
@@ -327,7 +331,11 @@ class Structure(Field):
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
 
-        definition = self._get_definition(subject)
+        try:
+            definition = self._get_definition(subject)
+        except (KeyError, TypeError):
+            raise CannotInterpolateError('interpolation candidate has no recognized polymorphic identity')
+
         interpolation = {}
 
         for name, field in definition.items():
-- 
2.43.0


From 9487450aa033bea63ab2365a75e8023c7c169167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 43/68] fix: report tuples which are too short when extracting
 and interpolating

---
 scheme/fields/tuple.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 4f3af74..4eb97fd 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -80,6 +80,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotExtractError('extraction candidate must be a list or tuple value')
+        if len(subject) < len(self.values):
+            raise CannotExtractError('extraction candidate has too few values')
 
         extraction = []
         for i, definition in enumerate(self.values):
@@ -147,6 +149,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple')
+        if len(subject) < len(self.values):
+            raise CannotInterpolateError('interpolation candidate has too few values')
 
         interpolation = []
         for i, definition in enumerate(self.values):
-- 
2.43.0


From 31cd911afbe08febf6d48dc3fdcc1391b8294917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 44/68] fix: report failing extractors of unions like those of
 other fields

---
 scheme/fields/union.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 95daec9..a953551 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -58,7 +58,10 @@ class Union(Field):
         if subject is None:
             return None
         if self.extractor:
-            subject = self.extractor(self, subject)
+            try:
+                subject = self.extractor(self, subject)
+            except Exception:
+                raise CannotExtractError('extractor raised exception')
 
         for field in self.fields:
             try:
-- 
2.43.0


From e22385ed640f7c433a11d54045ad7e45c7f2ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 45/68] fix: order the keys of polymorphic and edited
 structures

---
 scheme/fields/structure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index e3a6ccb..09309e6 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -415,10 +415,8 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            if identity:
-                key_order = self.key_order[identity]
-            else:
-                key_order = self.key_order
+            key_order = [name for name in self.key_order if name in definition]
+            key_order.extend(name for name in definition if name not in self.key_order)
         else:
             structure = {}
             key_order = definition.keys()
-- 
2.43.0


From 3d04ec4496278822aa256db51b5910c5d399c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 46/68] fix: show maps whose required keys are of several types

---
 scheme/fields/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index d82b555..414eaa1 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -70,7 +70,7 @@ class Map(Field):
 
         aspects.append('value=%r' % self.value)
         if self.required_keys:
-            aspects.append('required_keys=%r' % sorted(self.required_keys))
+            aspects.append('required_keys=%r' % sorted(self.required_keys, key=repr))
         
         return super(Map, self).__repr__(aspects)
 
-- 
2.43.0


From 72074ef3241cfcfa19307578aa875f74b20fbdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 47/68] fix: report structural errors with a malformed
 structure as invalid values

---
 scheme/fields/error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index fb7bc55..2f2792e 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -20,7 +20,8 @@ class Error(Field):
             return value
         elif isinstance(value, (list, tuple)) and len(value) == 2:
             errors, structure = value
-            if errors is None or isinstance(errors, (list, tuple)):
+            if ((errors is None or isinstance(errors, (list, tuple)))
+                    and (structure is None or isinstance(structure, (dict, list, tuple)))):
                 return StructuralError.unserialize(value)
 
         raise InvalidTypeError(identity=ancestry, field=self,
-- 
2.43.0


From d8dbdd211d9667c46269cc4342a901b4111f20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 48/68] fix: register elements with a falsy polymorphic
 identity

---
 scheme/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/element.py b/scheme/element.py
index a1e110d..ca64a7c 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -6,7 +6,7 @@ __all__ = ('Element',)
 class ElementMeta(type):
     def __new__(metatype, name, bases, namespace):
         element = type.__new__(metatype, name, bases, namespace)
-        if element.polymorphic_identity:
+        if element.polymorphic_identity is not None:
             base = bases[0]
             if getattr(base, '__polymorphic_on__', None):
                 base.__polymorphic_impl__[element.polymorphic_identity] = element
-- 
2.43.0


From 8099704da934b2d2fc276de80fe8e3eddc9314a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 49/68] fix: let unions interpolate values which their first
 fields cannot take

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index a953551..fa350f4 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -88,7 +88,7 @@ class Union(Field):
         for field in self.fields:
             try:
                 return field.interpolate(subject, parameters, interpolator)
-            except CannotInterpolateError:
+            except (CannotInterpolateError, ArithmeticError, TypeError, ValueError):
                 pass
             except AttributeError:
                 if isinstance(field, Undefined):
-- 
2.43.0


From 66bcb5569abb1d7d7fec7896995805aec9067c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 50/68] fix: leave native values of untyped fields alone when
 interpolating

---
 scheme/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 8d179fd..2ef4386 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -415,6 +415,8 @@ class Field(object):
         equivalent = self.equivalent
         if subject is None or (equivalent and isinstance(subject, equivalent)):
             return subject
+        elif not (equivalent or isinstance(subject, string)):
+            return subject
         else:
             return interpolate_parameters(subject, parameters, True, interpolator)
 
-- 
2.43.0


From a2fbe646ed65278e10b85e3e4a9243d8cc2c51e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 51/68] fix: report templates reaching into undefined variables
 as undefined parameters

---
 scheme/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/interpolation.py b/scheme/interpolation.py
index 522396a..2df7d7f 100644
--- a/scheme/interpolation.py
+++ b/scheme/interpolation.py
@@ -55,7 +55,10 @@ class Interpolator(object):
 
     def interpolate(self, subject, parameters):
         template = self.environment.from_string(subject)
-        return template.render(parameters)
+        try:
+            return template.render(parameters)
+        except jinja2.UndefinedError:
+            raise UndefinedParameterError()
 
 def interpolate_parameters(subject, parameters, simple=False, interpolator=None):
     """Interpolates ``subject``, a template string, using ``parameters``. If ``subject`` is empty,
-- 
2.43.0


From fd97b2734e50e25a0594de32f7dfd860c614c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 52/68] fix: keep trailing newlines of interpolated text

---
 scheme/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/interpolation.py b/scheme/interpolation.py
index 2df7d7f..ed23894 100644
--- a/scheme/interpolation.py
+++ b/scheme/interpolation.py
@@ -24,7 +24,8 @@ class Interpolator(object):
     def __init__(self, filters=None, globals=None):
         self.environment = jinja2.Environment(
             variable_start_string='${',
-            variable_end_string='}')
+            variable_end_string='}',
+            keep_trailing_newline=True)
 
         for filter in self.standard_filters:
             self.environment.filters[filter.__name__] = filter
-- 
2.43.0


From 96fe4ead905760dad0113b7f4545661d0ab17411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 53/68] fix: do not take escaped brackets in structured text
 for containers

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 3711334..eb9fc7c 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -10,7 +10,7 @@ class StructuredText(Format):
     name = 'structuredtext'
 
     STRUCTURE_EXPR = re.compile(
-        r'(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
+        r'(?<!\\)(?:(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\]))'
     )
     STRUCTURE_TOKENS_EXPR = re.compile(r'([{}\[\]])')
     ESCAPED_TOKENS_EXPR = re.compile(r'\\([{}\[\]])')
-- 
2.43.0


From c13019c00bcb5badb3f61e15903492fcce204f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 54/68] fix: serialize before opening the file to write

---
 scheme/format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/format.py b/scheme/format.py
index fda8db8..efb47a3 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -81,5 +81,6 @@ class Format(object):
             else:
                 raise ValueError(format)
 
+        content = format.serialize(value, schema, **params)
         with open(path, 'w+') as openfile:
-            openfile.write(format.serialize(value, schema, **params))
+            openfile.write(content)
-- 
2.43.0


From 6c065bc368335215a3e369247e577f51a16deb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 55/68] fix: let structures contain themselves under several
 keys and in containers

---
 scheme/fields/structure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 09309e6..9d0f004 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -522,10 +522,16 @@ class Structure(Field):
 
     def _define_undefined_field(self, field, name):
         identity, name = name
+        if not field.structural:
+            field = field.clone(name=name)
+        elif not field.name:
+            field.name = name
+
+        # structural fields are not cloned, since they may well contain this very structure
         if self.polymorphic_on:
-            self.structure[identity][name] = field.clone(name=name)
+            self.structure[identity][name] = field
         else:
-            self.structure[name] = field.clone(name=name)
+            self.structure[name] = field
 
     def _describe_structure(self, structure, parameters, verbose):
         description = {}
-- 
2.43.0


From 3a2b364f172ac5e765d0c120531933210884015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 56/68] fix: give surrogates the latest version of their schema
 when none is specified

---
 scheme/surrogate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index a6d769e..cec0150 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -31,6 +31,9 @@ class surrogate(dict):
 
     def __init__(self, value, schema=None, version=None):
         super(surrogate, self).__init__(value)
+        if version is None and self.schemas and not schema:
+            version = len(self.schemas)
+
         self.schema = schema
         self.version = version
 
-- 
2.43.0


From 8b7d37e39f12eda2795cfaf876cdd2667e3f31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 57/68] fix: refuse surrogate versions below the first

---
 scheme/surrogate.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index cec0150..9196e0e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -75,7 +75,7 @@ class surrogate(dict):
             if version is None:
                 version = len(impl.schemas)
             try:
-                effective_schema = impl.schemas[version - 1]
+                effective_schema = impl._get_schema(version)
             except IndexError:
                 raise Exception('invalid surrogate version')
 
@@ -122,7 +122,7 @@ class surrogate(dict):
             value = self.schema.serialize(value)
             value['__schema__'] = self.schema.describe()
         elif self.schemas:
-            value = self.schemas[self.version - 1].serialize(value)
+            value = self._get_schema(self.version).serialize(value)
             if self.version > 1:
                 value['__version__'] = self.version
 
@@ -160,6 +160,12 @@ class surrogate(dict):
         cls.cache[token] = impl
         return impl
 
+    @classmethod
+    def _get_schema(cls, version):
+        if version < 1:
+            raise IndexError(version)
+        return cls.schemas[version - 1]
+
     @classmethod
     def _interpolate_dynamic_surrogate(cls, value, parameters, interpolator):
         schema = scheme.Field.reconstruct(deepcopy(value.pop('__schema__')))
@@ -177,7 +183,7 @@ class surrogate(dict):
             version = len(cls.schemas)
 
         try:
-            schema = cls.schemas[version - 1]
+            schema = cls._get_schema(version)
         except IndexError:
             raise ValueError(value)
 
@@ -202,7 +208,7 @@ class surrogate(dict):
     def _unserialize_versioned_surrogate(cls, value, ancestry=None):
         version = value.pop('__version__', 1)
         try:
-            schema = cls.schemas[version - 1]
+            schema = cls._get_schema(version)
         except IndexError:
             raise ValueError(value)
 
-- 
2.43.0


From 32ecf972e5f23861165da8f1c8a40bea7d42cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 58/68] fix: prefer constants over defaults when generating
 defaults

The discriminator of every variant of a polymorphic structure carries the
identity as its constant; with a default of its own, the generated default
of a variant identified another one.
---
 scheme/fields/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 9d0f004..0cc5679 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -559,9 +559,9 @@ class Structure(Field):
     def _generate_default_values(self, structure, sparse=False):
         default = {}
         for name, field in structure.items():
-            value = field.default
+            value = field.constant
             if value is None:
-                value = field.constant
+                value = field.default
             if not sparse or value is not None:
                 default[name] = value
 
-- 
2.43.0


From 29b290b21c62bfafeb87b6134a4b01ff322eb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 59/68] fix: format structures with keys of several types

---
 scheme/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/util.py b/scheme/util.py
index 207c1e3..575ee8a 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -165,7 +165,7 @@ class StructureFormatter(object):
         inner_indent = self.indent * (level + 1)
         singles, multiples = [], []
 
-        for k, v in sorted(value.items()):
+        for k, v in sorted(value.items(), key=lambda item: str(item[0])):
             try:
                 k = str(k)
             except Exception:
-- 
2.43.0


From 22d68ac7b9ab8ae796391b4aa38ad51d35fa4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 60/68] fix: document the fields of unions

---
 scheme/doc/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index d74d412..be65a5d 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -196,7 +196,7 @@ class DocumentationGenerator(object):
     def _describe_union(self, field, block, role):
         fields = field.get('fields')
         if fields:
-            for i, subfield in enumerat,e(fields):
+            for i, subfield in enumerate(fields):
                 block.append(self._document_field('', subfield, role))
 
     def _document_field(self, name, field, role=None, sectional=False, key=None):
-- 
2.43.0


From 311cd5e9d6cc39931dbfb60928f3ebdd61a3aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 61/68] fix: document the maximum of decimals as such

---
 scheme/doc/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index be65a5d..6973914 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -92,7 +92,7 @@ class DocumentationGenerator(object):
         if field.get('minimum') is not None:
             constraints.append('min=%r' % field['minimum'])
         if field.get('maximum') is not None:
-            constraints.append('min=%r' % field['maximum'])
+            constraints.append('max=%r' % field['maximum'])
         if constraints:
             block.set('constraints', ', '.join(constraints))
 
-- 
2.43.0


From e03f3ded94d09186c440fb0f95bb9bc6e707394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 62/68] fix: document the fields of structures, leaving out
 only the discriminator of variants

---
 scheme/doc/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 6973914..7fa6bba 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -67,6 +67,9 @@ class DocumentationGenerator(object):
         'required': ['schema'],
     }
 
+    def _collate_fields(self, fields, exclude=()):
+        return [(name, field) for name, field in sorted(fields.items()) if name not in exclude]
+
     def _describe_date(self, field, block, role):
         constraints = []
         if isinstance(field.get('minimum'), date):
@@ -158,7 +161,7 @@ class DocumentationGenerator(object):
                 for value, substructure in sorted(structure.items()):
                     subblock = directive('field', '%s=%r' % (field_name, value))
                     subblock.set('polymorphic_discriminator', '')
-                    for name, subfield in self._collate_fields(substructure, ('type',)):
+                    for name, subfield in self._collate_fields(substructure, (field_name,)):
                         subblock.append(self._document_field(name, subfield, role))
                     block.append(subblock)
             else:
-- 
2.43.0


From 8410bb7d3c4e48a75d2ada1ffff3ab0bf550ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 63/68] fix: document enumerations, required keys and variants
 of several types

---
 scheme/doc/generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 7fa6bba..819f598 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -101,7 +101,7 @@ class DocumentationGenerator(object):
 
     def _describe_enumeration(self, field, block, role):
         if field.get('constant') is None:
-            block.set('values', ' '.join(sorted(field['enumeration'])))
+            block.set('values', ' '.join(sorted(str(value) for value in field['enumeration'])))
 
     def _describe_float(self, field, block, role):
         constraints = []
@@ -123,7 +123,7 @@ class DocumentationGenerator(object):
 
     def _describe_map(self, field, block, role):
         if field.get('required_keys'):
-            block.set('required_keys', repr(sorted(field['required_keys'])))
+            block.set('required_keys', repr(sorted(field['required_keys'], key=str)))
 
         key = field.get('key')
         if key:
@@ -158,7 +158,7 @@ class DocumentationGenerator(object):
             if polymorphic_on:
                 block.set('polymorphic', '')
                 field_name = polymorphic_on['name']
-                for value, substructure in sorted(structure.items()):
+                for value, substructure in sorted(structure.items(), key=lambda item: str(item[0])):
                     subblock = directive('field', '%s=%r' % (field_name, value))
                     subblock.set('polymorphic_discriminator', '')
                     for name, subfield in self._collate_fields(substructure, (field_name,)):
-- 
2.43.0


From 834ce97335b2f06b136ae4c3ee5ffc33ca9c5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:56 +0000
Subject: [PATCH 64/68] fix: document the bounds of dates and times

---
 scheme/doc/generator.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 819f598..6261efd 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -1,6 +1,5 @@
 import os
 import textwrap
-from datetime import date, datetime, time
 
 from scheme import *
 from scheme.util import numbers, string
@@ -72,18 +71,18 @@ class DocumentationGenerator(object):
 
     def _describe_date(self, field, block, role):
         constraints = []
-        if isinstance(field.get('minimum'), date):
+        if field.get('minimum') is not None:
             constraints.append('min=%s' % field['minimum'])
-        if isinstance(field.get('maximum'), date):
+        if field.get('maximum') is not None:
             constraints.append('max=%s' % field['maximum'])
         if constraints:
             block.set('constraints', ', '.join(constraints))
 
     def _describe_datetime(self, field, block, role):
         constraints = []
-        if isinstance(field.get('minimum'), datetime):
+        if field.get('minimum') is not None:
             constraints.append('min=%s' % field['minimum'])
-        if isinstance(field.get('maximum'), datetime):
+        if field.get('maximum') is not None:
             constraints.append('max=%s' % field['maximum'])
         if field.get('utc', False):
             constraints.append('utc=True')
@@ -183,9 +182,9 @@ class DocumentationGenerator(object):
 
     def _describe_time(self, field, block, role):
         constraints = []
-        if isinstance(field.get('minimum'), time):
+        if field.get('minimum') is not None:
             constraints.append('min=%s' % field['minimum'])
-        if isinstance(field.get('maximum'), time):
+        if field.get('maximum') is not None:
             constraints.append('max=%s' % field['maximum'])
         if constraints:
             block.set('constraints', ', '.join(constraints))
-- 
2.43.0


From a8bb77dbf545434353f8cad0d3847ec61eae045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:03 +0000
Subject: [PATCH 65/68] fix: abbreviate strings

---
 scheme/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 575ee8a..32e3f1f 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -21,18 +21,18 @@ except NameError:
 NODEFAULT = object()
 
 def abbreviate_string(value, maxlength=0):
-    maxlength = max(maxlength, 4)
+    maxlength = max(maxlength, 5)
     if len(value) <= maxlength:
         return value
 
-    half = (maxlength - 3) / 2
+    half = (maxlength - 3) // 2
 
     left = value[:half]
-    while not left[-1].isalnum():
+    while left and not left[-1].isalnum():
         left = left[:-1]
 
     right = value[-half:]
-    while not right[0].isalnum():
+    while right and not right[0].isalnum():
         right = right[1:]
 
     return '%s...%s' % (left, right)
-- 
2.43.0


From f57973e76880467b5fae0234482e58c702abecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 66/68] fix: fields keep aspects of their own

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 2ef4386..dfe6250 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -187,7 +187,7 @@ class Field(object):
         if extractor:
             extractor = getattr(extractor, '__extract__', extractor)
 
-        self.aspects = aspects or {}
+        self.aspects = dict(aspects) if aspects else {}
         self.constant = constant
         self.default = default
         self.description = description
-- 
2.43.0


From 1b6f5fffe760eace645e93e670cfd4a2370b6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 67/68] fix: structures keep a definition of their own

---
 scheme/fields/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 0cc5679..a915a21 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -67,6 +67,9 @@ class Structure(Field):
         if not isinstance(structure, dict):
             raise TypeError("argument 'structure' must be a dict value")
 
+        structure = dict((name, dict(value) if isinstance(value, dict) else value)
+            for name, value in structure.items())
+
         if polymorphic_on:
             if '*' in structure:
                 common = structure.pop('*')
-- 
2.43.0


From 0a392e2fac07c996c7a5a2b8b0e0d27026a7f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:25 +0000
Subject: [PATCH 68/68] fix: email fields honour the errors they are given

---
 scheme/fields/email.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 35468d3..4eaaca7 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -30,15 +30,19 @@ class Email(Text):
     def __init__(self, multiple=False, extended=False, pattern=None,
             strip=None, errors=None, **params):
 
+        if isinstance(errors, dict):
+            errors = errors.values()
+
+        errors = list(errors or ())
         if multiple:
-            errors = self.multiple_errors
+            errors = self.multiple_errors + errors
             if not extended:
                 pattern = EMAIL_LIST_EXPR
             else:
                 raise ValueError("argument 'extended' cannot be True when argument"
                     " 'multiple' is True")
         else:
-            errors = self.single_errors
+            errors = self.single_errors + errors
             if extended:
                 pattern = EXTENDED_EMAIL_ADDRESS_EXPR
             else:
-- 
2.43.0

