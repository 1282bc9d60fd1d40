From 90b49aaa8087fffac6558dd26b8cd02b7164a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:06 +0000
Subject: [PATCH 01/54] fix: rewinding to the top frame must not drop the whole
 stack

---
 pilo/context.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 103b1e1..67292fd 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -134,13 +134,13 @@ class Context(threading.local):
 
         :return: A context object used to restore the stack.
         """
-        for i, frame in enumerate(reversed(self.stack)):
-            if stop(frame):
-                frames = self.stack[-i:]
+        for i in range(len(self.stack), 0, -1):
+            if stop(self.stack[i - 1]):
+                frames = self.stack[i:]
                 break
         else:
             raise RewindDidNotStop()
-        del self.stack[-i:]
+        del self.stack[i:]
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
-- 
2.43.0


From 15e53fe149b8e88c0a18d8a9fd5531e9716faade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:06 +0000
Subject: [PATCH 02/54] fix: JsonSource does not pass json.loads an argument it
 no longer takes

---
 pilo/source/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 118bf5a..06e99c1 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -40,7 +40,9 @@ class JsonSource(Source):
         self.strict = strict
         self.location = location
         self.text = text
-        self.data = json.loads(text, encoding=encoding)
+        if encoding is not None and isinstance(text, six.binary_type):
+            text = text.decode(encoding)
+        self.data = json.loads(text)
 
     def as_string(self, field, value):
         if isinstance(value, six.string_types):
-- 
2.43.0


From 96f931982f3a4a2deca8d102861af41d2b502112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 03/54] fix: JsonSource resolves keys that contain a dot

---
 pilo/source/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 06e99c1..5364e3f 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -23,8 +23,11 @@ class JsonPath(Path):
 
     def resolve(self, container, part):
         try:
+            return container[part.key]
+        except (IndexError, KeyError, TypeError):
             if not isinstance(part.key, six.string_types) or '.' not in part.key:
-                return container[part.key]
+                return NONE
+        try:
             value = container
             for atom in part.key.split('.'):
                 value = value[atom]
-- 
2.43.0


From 571916d2ef47e57b37b458ea139c2790783fa951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:33 +0000
Subject: [PATCH 04/54] fix: MountSource works on Python 3 and reports errors
 as source errors

---
 pilo/source/mount.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 251965d..cd07a37 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -7,10 +7,11 @@ from . import PathPart, Source, NONE, DefaultSource
 class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
+        self.src = src
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
-            (key, src.path()) for key, src in src.srcs.iteritems()
+            (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
     @property
@@ -60,13 +61,13 @@ class MountPath(collections.MutableSequence):
 
     def primitive(self, *types):
         if self.part is None:
-            raise self.error(self, 'not a primitive')
-        return self.paths[self.part.key].primitive(*types)
+            raise self.src.error(self, 'not a primitive')
+        return self.path.primitive(*types)
 
     def sequence(self):
         if self.part is None:
-            raise self.error(self, 'not a sequence')
-        return self.paths[self.part.key].sequence()
+            raise self.src.error(self, 'not a sequence')
+        return self.path.sequence()
 
     def mapping(self):
         if self.part is None:
-- 
2.43.0


From 45f2c6b19b273953f683edb94fea1c5bc8bb7594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:33 +0000
Subject: [PATCH 05/54] fix: ConfigSource reads configuration text

---
 pilo/source/configparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 84a5538..2fb8d75 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -131,8 +131,8 @@ class ConfigSource(Source, ParserMixin):
         if isinstance(config, six.string_types):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
-                config.optionxform = lambda x: x
-            parser.readfp(six.moves.StringIO.StringIO(config))
+                parser.optionxform = lambda x: x
+            getattr(parser, 'read_file', parser.readfp)(six.StringIO(config))
             config = parser
         self.config = config
         self.section = section
-- 
2.43.0


From be4983219121439336fd914dabdebedf4e116be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:33 +0000
Subject: [PATCH 06/54] fix: ConfigSource works without defaults and on Python
 3

---
 pilo/source/configparser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 2fb8d75..e246cff 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -60,7 +60,7 @@ class SectionMapping(collections.Mapping):
         self.config = config
         self.section = section
         pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
-        self.defaults = defaults
+        self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
         for option, value in self.config.items(section):
             m = re.match(pattern, option)
@@ -78,7 +78,7 @@ class SectionMapping(collections.Mapping):
         raise KeyError(key)
 
     def __iter__(self):
-        for k, v in self.sub_mappings.iteritems():
+        for k, v in six.iteritems(self.sub_mappings):
             yield k
         for k, v in self.config.items(self.section):
             yield k
@@ -91,7 +91,7 @@ class Mapping(collections.Mapping):
 
     def __init__(self, config, defaults=None):
         self.config = config
-        self.defaults = defaults
+        self.defaults = defaults or {}
 
     def __getitem__(self, key):
         if not self.config.has_section(key):
-- 
2.43.0


From bc04d6001e7fc565208b2c9b7c5037c9873081b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:08 +0000
Subject: [PATCH 07/54] fix: a name that is not mounted does not exist

---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index cd07a37..aabeaf4 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -35,7 +35,7 @@ class MountPath(collections.MutableSequence):
 
     @property
     def value(self):
-        if self.path is None:
+        if self.path is None or self.path is self.dne:
             return NONE
         return self.path.value
 
-- 
2.43.0


From 56f24f33f1a118df98f044242c0026ab91d88669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:08 +0000
Subject: [PATCH 08/54] fix: a data key ending in () is looked up before it is
 called as a method

---
 pilo/source/default.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 4620093..e079c18 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -52,6 +52,9 @@ class DefaultPath(Path):
 
     def resolve(self, container, part):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
+            value = NONE if self.src.ignore(self) else self._as_item(container, part.key)
+            if value is not NONE:
+                return value
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part)
-- 
2.43.0


From 203d95b69c7c9e18a97be1740fe5fe2eae994713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:09 +0000
Subject: [PATCH 09/54] fix: mappings with keys that are neither strings nor
 integers

---
 pilo/source/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ed5ece5..5e8c3e8 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -84,7 +84,7 @@ class Path(collections.MutableSequence):
                 if isinstance(part.key, six.integer_types):
                     part = '[{0}]'.format(part.key)
                 else:
-                    part = '.' + part.key
+                    part = '.{0}'.format(part.key)
                 parts.append(part)
         return ''.join(parts)
 
@@ -149,7 +149,7 @@ class Path(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts[index] = value
 
@@ -157,7 +157,7 @@ class Path(collections.MutableSequence):
         del self.parts[index]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts.insert(index, value)
 
-- 
2.43.0


From d8e592062b10f1c6b6268964969ebe99188d066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:09 +0000
Subject: [PATCH 10/54] fix: an integer too large for a float is an invalid
 float

---
 pilo/source/__init__.py | 5 ++++-
 pilo/source/json.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 5e8c3e8..be9d68e 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -238,7 +238,10 @@ class ParserMixin(object):
         if isinstance(value, (float)):
             pass
         elif isinstance(value, six.integer_types):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                raise self.error(path, '"{0}" is not a float'.format(value))
         elif isinstance(value, six.string_types):
             try:
                 value = float(value)
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 5364e3f..81e4b0e 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -72,7 +72,10 @@ class JsonSource(Source):
         if isinstance(value, (float)):
             return value
         if isinstance(value, six.integer_types):
-            return float(value)
+            try:
+                return float(value)
+            except OverflowError:
+                raise self.error(field, '{0} is not a float'.format(value))
         if not self.strict:
             if isinstance(value, six.string_types):
                 try:
-- 
2.43.0


From a3d19ffa076f1f6239e34491d23a1851492bd5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:09 +0000
Subject: [PATCH 11/54] fix: malformed decimal text is reported as an invalid
 value

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ea6d191..6d28989 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -857,7 +857,10 @@ class Decimal(Number):
         if isinstance(path.value, numbers.Number):
             return decimal.Decimal(path.value)
         value = path.primitive(six.string_types[0])
-        return decimal.Decimal(value)
+        try:
+            return decimal.Decimal(value)
+        except decimal.InvalidOperation:
+            raise ValueError('"{0}" is not a decimal'.format(value))
 
 
 class Boolean(Field):
-- 
2.43.0


From c0bba9f6178cf12753dfd91de0c10ff46313d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:10 +0000
Subject: [PATCH 12/54] fix: NaN is not within any range of numbers

---
 pilo/fields.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6d28989..2a133c8 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -793,6 +793,11 @@ class Number(Field):
         if not super(Number, self)._validate(value):
             return False
         if value is not None:
+            if self.min_value is None and self.max_value is None:
+                return True
+            if value.is_nan() if isinstance(value, decimal.Decimal) else value != value:
+                self.ctx.errors.invalid('"{0}" is not within range'.format(value))
+                return False
             if self.min_value is not None and value < self.min_value:
                 self.ctx.errors.invalid('"{0}" must be >= {1}'.format(
                     value, self.min_value
-- 
2.43.0


From 00d71b38a70d7a75382041e055105d860fc8eba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:10 +0000
Subject: [PATCH 13/54] fix: Float.pattern produces a float

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2a133c8..13bee25 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -846,7 +846,7 @@ class Float(Number):
                 raise ValueError('{0} does not match pattern "{1}"'.format(
                     value, pattern_re.pattern
                 ))
-            return int(m.group(0))
+            return float(m.group(0))
 
         return self.parse(parse)
 
-- 
2.43.0


From 88954c3bf640c67a7ff9a69c898961a8171b83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 14/54] fix: a date in none of the formats is invalid

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 13bee25..e6768bc 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -926,7 +926,7 @@ class Date(Field, RangeMixin):
                 try:
                     return iso8601.parse_date(value).date()
                 except iso8601.ParseError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
@@ -934,7 +934,7 @@ class Date(Field, RangeMixin):
                 try:
                     return datetime.datetime.strptime(value, spec).date()
                 except ValueError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
-- 
2.43.0


From 7b80756263cabf92b517e836b9baee1313f866da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 15/54] fix: Date maps a datetime to its date

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index e6768bc..ced3764 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -910,6 +910,8 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
+        if isinstance(path.value, datetime.datetime):
+            return path.value.date()
         if isinstance(path.value, datetime.date):
             return path.value
         value = path.primitive(six.string_types[0])
-- 
2.43.0


From e224a1cafc7f416d2ce051ad718af84629e0c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 16/54] fix: String choices can be any sequence

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ced3764..3fcb102 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -754,7 +754,7 @@ class String(Field):
                 value, self.pattern_re.pattern
             ))
             return False
-        if self.choices and value not in self.choices + list(self.translations.values()):
+        if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
                     value, self.choices[0],
-- 
2.43.0


From 75157f16c21da503856cb3e2ba3a6d5bdf432ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 17/54] fix: Dict required_keys can be any collection of keys

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 3fcb102..dfaef1a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1186,10 +1186,10 @@ class Dict(Field):
             return False
         if value is not None:
             if self.required_keys:
-                missing_keys = self.required_keys.difference(value.keys())
+                missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
-                        ', '.join(missing_keys)
+                        ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
             if self.max_keys and len(value) > self.max_keys:
-- 
2.43.0


From 310bff36335670f50d643653f94afc10c8ba8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 18/54] fix: a default hook is not used when defaults are
 ignored

---
 pilo/fields.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index dfaef1a..0cbabc4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -569,8 +569,6 @@ class Field(CreatedCountMixin, ContextMixin):
                 else:
                     value = self._compute()
                 if value is NONE:
-                    if isinstance(self.default, Hook) and self.default:
-                        return self.default()
                     return self._default()
                 if value in IGNORE:
                     return value
-- 
2.43.0


From c4a00bf9ffd9227feea18b7bac229a16afd8c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 19/54] fix: an error raised while parsing is not reported a
 second time

---
 pilo/fields.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0cbabc4..c0e7086 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -149,11 +149,14 @@ class Errors(object):
 
 class RaiseErrors(list, Errors):
 
+    raised = None
+
     def __call__(self, *excs):
         self.extend(excs)
         field_errors = [e for e in self if isinstance(e, FieldError)]
         if field_errors:
-            raise FormError(*field_errors)
+            self.raised = FormError(*field_errors)
+            raise self.raised
         raise self[0]
 
 
@@ -482,6 +485,8 @@ class Field(CreatedCountMixin, ContextMixin):
                 value = self._parse(src_path)
             return value
         except (SourceError, ValueError) as ex:
+            if ex is getattr(self.ctx.errors, 'raised', None):
+                raise
             self.ctx.errors.invalid(str(ex))
             return ERROR
 
-- 
2.43.0


From aa206a2a3c83718c1aeafcd828f10636a4cf8554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 20/54] fix: Form.has of a field that is not mapped yet

---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index c0e7086..f25bb0b 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1691,14 +1691,14 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             name = field
             if name in self:
                 return True
-            field = getattr(self, name, None)
-            if field is None:
+            field = getattr(type(self), name, None)
+            if not isinstance(field, Field):
                 return False
         elif not isinstance(field, Field):
             raise TypeError('{0!r} is not string for Field'.format(field))
         try:
-            return field.__get__(self) is not None
-        except LookupError:
+            return field.__get__(self, type(self)) is not None
+        except (LookupError, AttributeError, FormError):
             return False
 
     def flatten(self):
-- 
2.43.0


From 72b343a7bb8e06eee894e62074d7988eadad41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 21/54] fix: options of a cloned field are its own

---
 pilo/fields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index f25bb0b..6611500 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -429,6 +429,9 @@ class Field(CreatedCountMixin, ContextMixin):
     def clone(self):
         other = copy.copy(self)
         other.parent = None
+        other.ignores = list(self.ignores)
+        other.translations = dict(self.translations)
+        other.tags = dict(self.tags)
         return other
 
     def from_context(self):
-- 
2.43.0


From 3ec87da1d27992f03276f5672234067ed08baca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 22/54] fix: values that cannot be hashed are not translated

---
 pilo/fields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6611500..50bb04d 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -530,8 +530,12 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         Possibly munges a value.
         """
-        if self.translations and value in self.translations:
-            value = self.translations[value]
+        if self.translations:
+            try:
+                value = self.translations.get(value, value)
+            except TypeError:
+                # unhashable, so not translated
+                pass
         return value
 
     def _default(self):
-- 
2.43.0


From 7c8c96c730a0c26687cbaf43bda3fcfa6aefe857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 23/54] fix: UnionSource leaves the caller's list of sources
 alone

---
 pilo/source/union.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8bba843..55d02e2 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -75,6 +75,7 @@ class UnionSource(Source):
         merge_depth=None,
     ):
         super(UnionSource, self).__init__()
+        srcs = list(srcs)
         for i, src in enumerate(srcs):
             if isinstance(src, Source):
                 continue
-- 
2.43.0


From e1c218195dde59ff8c4c8cd7f40d10b3970fd6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 24/54] fix: null in every united source is null

---
 pilo/source/union.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 55d02e2..33ad0c8 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -30,6 +30,8 @@ class UnionPath(Path):
     def is_null(self):
         if super(UnionPath, self).is_null:
             return True
+        if isinstance(self.value, Join):
+            return self.value.is_null
         if isinstance(self.value, Mapping):
             return len(self.value.mappings) == 0
         if isinstance(self.value, Sequence):
@@ -123,6 +125,10 @@ class Join(Source):
         self.src = src
         self.paths = paths
 
+    @property
+    def is_null(self):
+        return all(path.is_null for path in self.paths)
+
     def mapping(self):
         return Mapping(self.src, self.paths)
 
-- 
2.43.0


From 4de05a1c26b6169710f9d6a0723a9b0928586f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 25/54] fix: merge depth of united mappings is a depth, not a
 number of sources

---
 pilo/source/union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 33ad0c8..9987dbb 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -154,7 +154,7 @@ class Mapping(collections.Mapping):
         mappings = []
         if merge is None:
             merge = src.mapping_merge
-            if src.merge_depth is not None and src.merge_depth <= len(paths):
+            if src.merge_depth is not None and any(src.merge_depth <= len(path) for path in paths):
                 merge = 'first'
         if merge not in ('first', 'last', 'combine'):
             raise ValueError('merge="{0}" invalid'.format(merge))
@@ -221,7 +221,7 @@ class Sequence(collections.Sequence):
             elif merge == 'last':
                 sequences[0] = (path, length)
             else:
-                raise ValueError('merge="{1}" invalid'.format(merge))
+                raise ValueError('merge="{0}" invalid'.format(merge))
         self.src = src
         self.sequences = sequences
 
-- 
2.43.0


From db7b7f6bfcef20e77770e0b394c8b212725f9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 26/54] fix: Field.from_context does not depend on
 contextlib.nested

---
 pilo/fields.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 50bb04d..47bd088 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -41,7 +41,6 @@ This defines `Form` and the `Field`s use to build them. Use it like:
         print form.payload.sfield
 
 """
-import contextlib
 import copy
 import sys
 import datetime
@@ -437,10 +436,14 @@ class Field(CreatedCountMixin, ContextMixin):
     def from_context(self):
 
         def resolve(self):
-            return contextlib.nested(
-                self.ctx(src=DefaultSource(self.ctx)),
-                self.ctx(src=self.src),
-            )
+            outer = self.ctx(src=DefaultSource(self.ctx))
+            inner = self.ctx(src=self.src)
+
+            def close():
+                inner.func()
+                outer.func()
+
+            return Close(close)
 
         self.resolve.attach(self)(resolve)
         return self
-- 
2.43.0


From 274c44745c43fd76b99b1715f88af835b3703066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 27/54] fix: a form that inherits its type field does not take
 over its parent's identity

---
 pilo/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 1dddad3..0a964b0 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -47,12 +47,10 @@ class Types(dict):
 
         def _map(form_cls):
             if not inspect.isabstract(object):
-                try:
-                    instance = getattr(form_cls, field.name)
-                    for value in instance.choices or []:
+                instance = form_cls.__dict__.get(field.name)
+                if isinstance(instance, Field):
+                    for value in getattr(instance, 'choices', None) or []:
                         identities[value] = form_cls
-                except AttributeError:
-                    pass
             for sub_cls in form_cls.__subclasses__():
                 _map(sub_cls)
 
-- 
2.43.0


From 7d63ef3a72d87ad5ebcbedff0b3d2d9605f45014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:16 +0000
Subject: [PATCH 28/54] fix: Code fields run in-line code in the module they
 create

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 47bd088..a81c85e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1243,7 +1243,7 @@ class Code(Field):
     def compile(cls, name, code, **code_globals):
         module = imp.new_module('<{0}>'.format(name))
         module.__dict__.update(code_globals)
-        exec(code) in module.__dict__
+        exec(code, module.__dict__)
         return module
 
     def _parse(self, path):
-- 
2.43.0


From a8fd979ec7b20015e8a8913f048620111cbdd617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 29/54] fix: the path of an error stays where the error
 occurred

---
 pilo/fields.py          | 3 ++-
 pilo/source/__init__.py | 6 ++++++
 pilo/source/mount.py    | 8 ++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a81c85e..903ee09 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -114,7 +114,8 @@ class FieldError(ValueError):
     def __init__(self, message, field):
         super(FieldError, self).__init__(message)
         self.field = field
-        self.path = field.ctx.src_path
+        # the path of the context moves on, the one of the error must not
+        self.path = copy.copy(field.ctx.src_path)
 
 
 class Missing(FieldError):
diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index be9d68e..d3bf9b6 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -76,6 +76,12 @@ class Path(collections.MutableSequence):
         self.location = location
         self.parts = []
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.parts = list(self.parts)
+        return other
+
     def __str__(self):
         parts = []
         if self:
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index aabeaf4..d391e94 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import six
 
 from . import PathPart, Source, NONE, DefaultSource
@@ -14,6 +15,13 @@ class MountPath(collections.MutableSequence):
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.dne = copy.copy(self.dne)
+        other.paths = dict((key, copy.copy(path)) for key, path in six.iteritems(self.paths))
+        return other
+
     @property
     def path(self):
         return self.paths.get(self.part.key, self.dne) if self.part else None
-- 
2.43.0


From fd1f4447eb92bebad8253855aa3c8904b736788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:43 +0000
Subject: [PATCH 30/54] fix: a bare field of a group maps the member of its key

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 903ee09..445b58d 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1416,7 +1416,10 @@ class Group(Field):
                 raise ValueError(
                     'field{0}.src is not set'.format(_path(*path))
                 )
-            self.fields.append((obj.src, obj))
+            # the group resolves the key, so the field must not do so again
+            field = obj.clone()
+            field.src = NONE
+            self.fields.append((obj.src, field))
 
         def _add_tuple(obj, *path):
             if len(obj) != 2:
-- 
2.43.0


From 1a97629c567a378573ea690375de32d1d4690c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:18 +0000
Subject: [PATCH 31/54] fix: unmapped data in error are reported, not used

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 445b58d..45451c9 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1632,7 +1632,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                 if value not in IGNORE:
                     self[field.name] = value
         unmapped = self._unmapped(unmapped)
-        if unmapped is not None:
+        if unmapped is not None and unmapped not in IGNORE:
             self.update(unmapped)
 
     def _unmapped(self, directive):
-- 
2.43.0


From adb40eb7a5d982ecff31a63fb8e7c2b5fd9b2707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 32/54] fix: a hook that reads a field without a value gets an
 AttributeError

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 45451c9..cebf076 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -652,7 +652,7 @@ class Field(CreatedCountMixin, ContextMixin):
                     return getattr(frame, 'parent', None) is form
                 try:
                     with self.ctx.rewind(is_form):
-                        return self.map()
+                        value = self.map()
                 except self.ctx.RewindDidNotStop:
                     with self.ctx(form=form, parent=form, src=DefaultSource({})):
                         value = self.map()
-- 
2.43.0


From 2f1f5d54366b7271cfdd9d30d9cbfdeb6badf506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:47 +0000
Subject: [PATCH 33/54] fix: a key that calls what cannot be called does not
 exist

---
 pilo/source/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index e079c18..d8a3eb1 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -58,7 +58,7 @@ class DefaultPath(Path):
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part)
-            if value is NONE:
+            if value is NONE or not callable(value):
                 return NONE
             return value()
 
-- 
2.43.0


From 4c28f03825c49de969c62a50af256b7b007bdee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:51 +0000
Subject: [PATCH 34/54] fix: what is mounted exists and is null as it says
 itself

---
 pilo/source/mount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index d391e94..8be4dec 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -59,13 +59,13 @@ class MountPath(collections.MutableSequence):
     def exists(self):
         if self.part is None:
             return True
-        return self.value is not NONE
+        return self.path is not self.dne and self.path.exists
 
     @property
     def is_null(self):
         if self.part is None:
             return False
-        return self.value is None
+        return self.path.is_null
 
     def primitive(self, *types):
         if self.part is None:
-- 
2.43.0


From ebfdda8115674b85d45a15ce92dba1d60dcbc713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:07 +0000
Subject: [PATCH 35/54] fix: a null captures nothing

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index cebf076..ca5b9ba 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -726,6 +726,8 @@ class String(Field):
             pattern = re.compile(pattern)
 
         def munge(self, value):
+            if value is None:
+                return value
             match = pattern.match(value)
             if not match:
                 return NONE
-- 
2.43.0


From dff6d5a65839966d5aae17f23282180a733c018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:07 +0000
Subject: [PATCH 36/54] fix: a number that is no decimal is invalid

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ca5b9ba..2743f1e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -876,7 +876,10 @@ class Decimal(Number):
         if isinstance(path.value, decimal.Decimal):
             return path.value
         if isinstance(path.value, numbers.Number):
-            return decimal.Decimal(path.value)
+            try:
+                return decimal.Decimal(path.value)
+            except TypeError as ex:
+                raise ValueError(str(ex))
         value = path.primitive(six.string_types[0])
         try:
             return decimal.Decimal(value)
-- 
2.43.0


From a88d7ec2fa5a837d1ee347ce6a0b7ab0b0a8ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:07 +0000
Subject: [PATCH 37/54] fix: a signaling nan is not ignored, and does not raise

---
 pilo/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2743f1e..99a3099 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -886,6 +886,12 @@ class Decimal(Number):
         except decimal.InvalidOperation:
             raise ValueError('"{0}" is not a decimal'.format(value))
 
+    def _filter(self, value):
+        if isinstance(value, decimal.Decimal) and value.is_snan():
+            # comparing it to those ignored would raise
+            return True
+        return super(Decimal, self)._filter(value)
+
 
 class Boolean(Field):
 
-- 
2.43.0


From 4bb481ae8bbb97042ae6de246062b6a31914618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 38/54] fix: a moment that does not compare to its bounds is
 invalid

---
 pilo/fields.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 99a3099..ffd9bdb 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1008,10 +1008,17 @@ class Time(Field, RangeMixin):
         if not super(Time, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
+            try:
+                early = self.after_value is not None and value < self.after_value
+                late = self.before_value is not None and value > self.before_value
+            except TypeError as ex:
+                # e.g. one has a time zone and the other has none
+                self.ctx.errors.invalid(str(ex))
+                return False
+            if early:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
-            if self.before_value is not None and value > self.before_value:
+            if late:
                 self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                 return False
         return True
@@ -1052,10 +1059,17 @@ class Datetime(Field, RangeMixin):
         if not super(Datetime, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
+            try:
+                early = self.after_value is not None and value < self.after_value
+                late = self.before_value is not None and value > self.before_value
+            except TypeError as ex:
+                # e.g. one has a time zone and the other has none
+                self.ctx.errors.invalid(str(ex))
+                return False
+            if early:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
-            if self.before_value is not None and value > self.before_value:
+            if late:
                 self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                 return False
         return True
-- 
2.43.0


From bc31992f33a537e137a39fbc86886f3959d30fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:33 +0000
Subject: [PATCH 39/54] fix: a hook set on a clone is not one of the original

---
 pilo/fields.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index ffd9bdb..a3edafe 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -432,6 +432,14 @@ class Field(CreatedCountMixin, ContextMixin):
         other.ignores = list(self.ignores)
         other.translations = dict(self.translations)
         other.tags = dict(self.tags)
+        for name, hook in self.__dict__.items():
+            if isinstance(hook, Hook):
+                # hooks set on one must not be hooks of the other
+                hook = copy.copy(hook)
+                hook.parent = other
+                if hook.target is self:
+                    hook.target = other
+                setattr(other, name, hook)
         return other
 
     def from_context(self):
-- 
2.43.0


From 8b9d1d9c3d380a8c8d259cb32fd88bcd6e4e83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:54 +0000
Subject: [PATCH 40/54] fix: a clone is declared where it is, not where the
 original was

---
 pilo/fields.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index a3edafe..0411d29 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -428,6 +428,7 @@ class Field(CreatedCountMixin, ContextMixin):
 
     def clone(self):
         other = copy.copy(self)
+        CreatedCountMixin.__init__(other)
         other.parent = None
         other.ignores = list(self.ignores)
         other.translations = dict(self.translations)
-- 
2.43.0


From 38cb059299a2db65fe115069e39c1cb3bf87c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:39 +0000
Subject: [PATCH 41/54] fix: code of a module in a package is looked up in that
 module

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0411d29..db052c1 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1265,7 +1265,8 @@ class Code(Field):
 
     @classmethod
     def load(cls, name, attr):
-        module = __import__(name)
+        __import__(name)
+        module = sys.modules[name]
         try:
             obj = six.moves.reduce(getattr, attr.split('.'), module)
         except AttributeError:
-- 
2.43.0


From 6814165b6c2fdad20fdc0c43d8d32b22dd77dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:39 +0000
Subject: [PATCH 42/54] fix: a text that is more than a name is not the name it
 starts with

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index db052c1..ca9b132 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1250,7 +1250,7 @@ class Dict(Field):
 
 class Code(Field):
 
-    pattern = re.compile(r'(?:(?P<module>[\w\.]+):)?(?P<attr>[\w\.]+)')
+    pattern = re.compile(r'(?:(?P<module>[\w\.]+):)?(?P<attr>[\w\.]+)\Z')
 
     @classmethod
     def inline_match(cls, value):
-- 
2.43.0


From 6be9d16db454db6c7269c1d18f20e7fc18ade4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 43/54] fix: a path below a missing place that was read already
 was resolved in an internal constant

---
 pilo/source/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index d3bf9b6..723ca18 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -107,9 +107,9 @@ class Path(collections.MutableSequence):
             i, value = 0, self.root
 
         for part in self.parts[i:]:
-            value = part.value = self.resolve(value, part)
             if value is NONE:
                 break
+            value = part.value = self.resolve(value, part)
 
         return value
 
-- 
2.43.0


From a79176559b5715ad253e98f46806c379d4d9d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:35 +0000
Subject: [PATCH 44/54] fix: the tags option takes several tags or a map of
 them

---
 pilo/fields.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ca9b132..a2cc525 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -396,7 +396,12 @@ class Field(CreatedCountMixin, ContextMixin):
             self.attach_parent = attach_parent
 
         if tags is not NOT_SET:
-            self.tag(tags)
+            if isinstance(tags, dict):
+                self.tags.update(tags)
+            elif isinstance(tags, (list, tuple, set, frozenset)):
+                self.tag(*tags)
+            else:
+                self.tag(tags)
 
         return self
 
-- 
2.43.0


From c53173d933b40ecffa9ab172a8868ee958dab2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:06 +0000
Subject: [PATCH 45/54] fix: a dict of at most no keys accepted any number of
 them

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a2cc525..5d2c806 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1245,7 +1245,7 @@ class Dict(Field):
                         ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
-            if self.max_keys and len(value) > self.max_keys:
+            if self.max_keys is not None and len(value) > self.max_keys:
                 self.ctx.errors.invalid('Cannot have more than {0} key(s)'.format(
                     self.max_keys
                 ))
-- 
2.43.0


From d479e65084e6a7743a05994fc7630034d76de66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 46/54] fix: the exact length 0 of a string was ignored

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 5d2c806..068e7c7 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -695,7 +695,7 @@ class String(Field):
 
     def __init__(self, *args, **kwargs):
         length = kwargs.pop('length', None)
-        if length:
+        if length is not None:
             if isinstance(length, (list, tuple)):
                 self.min_length, self.max_length = length
             else:
-- 
2.43.0


From 4a9abba05f6d8473d4fbf911284b242a0a55a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 47/54] fix: attributes of a form with a field named src were
 not mapped

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 068e7c7..e2db688 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -653,10 +653,13 @@ class Field(CreatedCountMixin, ContextMixin):
         if self.name in form:
             return form[self.name]
         if getattr(self.ctx, 'form', None) is None:
+            src = DefaultSource({})
+            if not isinstance(getattr(type(form), 'src', None), Field):
+                src = getattr(form, 'src', src)
             with self.ctx(
                      form=form,
                      parent=form,
-                     src=getattr(form, 'src', DefaultSource({})),
+                     src=src,
                      errors=RaiseErrors()
                  ):
                 value = self.map()
-- 
2.43.0


From a6b99208dbe15e1af1ca9bb6ac9f94601a68d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:44 +0000
Subject: [PATCH 48/54] fix: items of a sequence did not reach fields whose key
 is not their name

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e2db688..238198e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1652,7 +1652,8 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return DefaultSource(
             obj,
             aliases=dict(
-                (field.name, i) for i, field in enumerate(self.fields)
+                (field.name if field.src is None else field.src, i)
+                for i, field in enumerate(self.fields)
             )
         )
 
-- 
2.43.0


From 08e760dbfa321ae21193a0ddeb3f631fcb198d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 49/54] fix: a value in a union kept the type it was first read
 as

---
 pilo/source/union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 9987dbb..de36cb4 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -115,7 +115,8 @@ class UnionSource(Source):
 
     def primitive(self, path, *types):
         if isinstance(path.value, Join):
-            path.value = path.value.primitive(*types)
+            # not kept, the value may be asked for as another type
+            return path.value.primitive(*types)
         return path.value
 
 
-- 
2.43.0


From 4e8299ade414a4ef53e8219e184e0beea57f165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 50/54] fix: native decimals, numbers, dates and times in a
 union were refused

---
 pilo/fields.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 238198e..f07d5d2 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -890,11 +890,12 @@ class Float(Number):
 class Decimal(Number):
 
     def _parse(self, path):
-        if isinstance(path.value, decimal.Decimal):
-            return path.value
-        if isinstance(path.value, numbers.Number):
+        value = path.primitive()
+        if isinstance(value, decimal.Decimal):
+            return value
+        if isinstance(value, numbers.Number):
             try:
-                return decimal.Decimal(path.value)
+                return decimal.Decimal(value)
             except TypeError as ex:
                 raise ValueError(str(ex))
         value = path.primitive(six.string_types[0])
@@ -952,10 +953,11 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value.date()
-        if isinstance(path.value, datetime.date):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.datetime):
+            return value.date()
+        if isinstance(value, datetime.date):
+            return value
         value = path.primitive(six.string_types[0])
         if not self._format:
             self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
@@ -1010,7 +1012,7 @@ class Time(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        value = path.value
+        value = path.primitive()
         if isinstance(value, (time.struct_time, datetime.time)):
             return value
         value = path.primitive(six.string_types[0])
@@ -1056,8 +1058,9 @@ class Datetime(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.datetime):
+            return value
         value = path.primitive(six.string_types[0])
         if self._format == 'iso8601':
             try:
-- 
2.43.0


From a260c2cdb06fec208773b438be8fbeb1c8baf7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:43 +0000
Subject: [PATCH 51/54] fix: a form that asks to know its parent failed on
 values that cannot

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f07d5d2..260e4aa 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -637,7 +637,7 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         with self.ctx(field=self, parent=self):
             value = self._map(value)
-        if self.attach_parent and value not in IGNORE:
+        if self.attach_parent and value not in IGNORE and hasattr(value, '__dict__'):
             if hasattr(self.ctx, 'parent'):
                 value.parent = weakref.proxy(self.ctx.parent)
             else:
-- 
2.43.0


From 4a80e2a9455558646414ac931fb9266f4b5d3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:56 +0000
Subject: [PATCH 52/54] fix: reading a value as a type derived from a readable
 one failed

---
 pilo/source/__init__.py | 2 +-
 pilo/source/json.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 723ca18..6bb9c0c 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -291,7 +291,7 @@ class ParserMixin(object):
 
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 81e4b0e..816cbc4 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -113,7 +113,7 @@ class JsonSource(Source):
                 return self.parsers[t]
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From ac6d594bfe89da9b04269538068e04d48be5abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:03 +0000
Subject: [PATCH 53/54] fix: preserve_whitespace gave the lines of another
 option, or none

The option was looked for by the beginning of its name and in the
section of the source alone, so an option of a whole file, an indexed
one, one inherited or one by default gave the wrong text or none, and
text on the line of the option was lost.
---
 pilo/source/configparser.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index e246cff..459c855 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -140,22 +140,34 @@ class ConfigSource(Source, ParserMixin):
         self.defaults = defaults
         self.preserve_whitespace = preserve_whitespace
 
-    def as_raw(self, path):
-        option = str(path[-1])
+    def as_raw(self, path, value):
+        keys = [str(part) for part in path]
+        section = self.section or keys.pop(0)
+        option = self.config.optionxform(''.join(keys[:1] + ['[{0}]'.format(key) for key in keys[1:]]))
         lines = []
         with open(self.location, 'r') as fo:
-            section_header = '[{0}]'.format(self.section)
+            section_header = '[{0}]'.format(section)
             for line in fo:
                 if line.strip() == section_header:
                     break
             for line in fo:
-                if line.strip().startswith(option):
+                m = re.match(r'(\S.*?)\s*[=:]\s*(.*)', line)
+                if m and self.config.optionxform(m.group(1)) == option:
                     break
+                if line[0] == '[':
+                    # inherited
+                    return value
+            else:
+                # a default
+                return value
             for line in fo:
-                if line and not line[0].isspace():
+                if line[0] in '#;':
+                    continue
+                if not line[0].isspace():
                     break
                 lines.append(line)
-        return textwrap.dedent(''.join(lines))
+        first = m.group(2).rstrip()
+        return (first + '\n' if first else '') + textwrap.dedent(''.join(lines))
 
     # Source
 
@@ -180,6 +192,6 @@ class ConfigSource(Source, ParserMixin):
 
         # preserve white-space for mulit-line strings
         if self.preserve_whitespace and isinstance(value, six.string_types) and value.count('\n') > 0:
-            value = self.as_raw(path)
+            value = self.as_raw(path, value)
 
         return value
-- 
2.43.0


From 8d5b9b3b0af789e9c8ea7a2f501526141a0f78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:02 +0000
Subject: [PATCH 54/54] fix: captured keys do not replace what a field has
 mapped

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 260e4aa..405fb75 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1680,7 +1680,8 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                     self[field.name] = value
         unmapped = self._unmapped(unmapped)
         if unmapped is not None and unmapped not in IGNORE:
-            self.update(unmapped)
+            for key, value in unmapped.items():
+                self.setdefault(key, value)
 
     def _unmapped(self, directive):
         if not directive:
-- 
2.43.0

