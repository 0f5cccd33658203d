From 31e0993f6dc7a55230fc0030bd05042c30468525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:13 +0000
Subject: [PATCH 01/77] fix: merging non-blocking issues no longer blocks
 processing

---
 src/error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index 18b5c1b..0201641 100644
--- a/src/error.py
+++ b/src/error.py
@@ -312,7 +312,8 @@ class ValidationIssues:
         for other_location, location_issues in issues._issues.items():
             new_location = location + other_location
             self._issues[new_location].extend(location_issues)
-            self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
+            if other_location in issues._stop_proceeding:
+                self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
 
     def add(
         self,
-- 
2.43.0


From 98c829866cb79e4c6598bd2bb57e549bbfc9740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 02/77] fix: sub-report returned by ValidationIssues.get is
 independent and mergeable

---
 src/error.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/error.py b/src/error.py
index 0201641..d7c82a4 100644
--- a/src/error.py
+++ b/src/error.py
@@ -327,17 +327,14 @@ class ValidationIssues:
             self._stop_proceeding[location].add(issue.code)
 
     def get(self, location: Collection[Union[str, int]]) -> "ValidationIssues":
+        location = tuple(location)
         copy = ValidationIssues()
-        copy._issues = {
-            location_[len(location) :]: errors
-            for location_, errors in self._issues.items()
-            if location_[: len(location)] == location
-        }
-        copy._stop_proceeding = {
-            location_[len(location) :]: codes
-            for location_, codes in self._stop_proceeding.items()
-            if location_[: len(location)] == location
-        }
+        for location_, errors in self._issues.items():
+            if location_[: len(location)] == location:
+                copy._issues[location_[len(location) :]].extend(errors)
+        for location_, codes in self._stop_proceeding.items():
+            if location_[: len(location)] == location:
+                copy._stop_proceeding[location_[len(location) :]].update(codes)
         return copy
 
     def pop(self, location: Collection[Union[str, int]], code: int) -> "ValidationIssues":
-- 
2.43.0


From a0df8888df5d053cef96eaf636c5668db33a484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:19 +0000
Subject: [PATCH 03/77] fix: ValidationIssues.pop removes and returns exactly
 the issues with the given code

---
 src/error.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/error.py b/src/error.py
index d7c82a4..9440878 100644
--- a/src/error.py
+++ b/src/error.py
@@ -343,19 +343,24 @@ class ValidationIssues:
         if location not in self._issues:
             return ValidationIssues()
 
-        popped = self.get(location)
-
+        popped = ValidationIssues()
+        remaining = []
         for issue in self._issues[location]:
             if issue.code == code:
-                self._issues[location].remove(issue)
-                if issue.code in self._stop_proceeding.get(location, set()):
-                    self._stop_proceeding[location].remove(issue.code)
+                blocking = code in self._stop_proceeding.get(location, set())
+                popped.add(issue=issue, proceed=not blocking)
+            else:
+                remaining.append(issue)
 
-        if len(self._issues[location]) == 0:
+        if remaining:
+            self._issues[location] = remaining
+        else:
             self._issues.pop(location)
 
-        if location in self._stop_proceeding and len(self._stop_proceeding[location]) == 0:
-            self._stop_proceeding.pop(location)
+        if location in self._stop_proceeding:
+            self._stop_proceeding[location].discard(code)
+            if len(self._stop_proceeding[location]) == 0:
+                self._stop_proceeding.pop(location)
 
         return popped
 
-- 
2.43.0


From ef1ca206f597b9cdfbd4a56bc3fd06ce04412cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 04/77] fix: re-assigning an attribute in another letter case
 leaves no stale entry

---
 src/data/container.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index eaab362..ed760fd 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -123,16 +123,14 @@ class SCIMDataContainer:
                 if not isinstance(key, str):
                     continue
 
-                self._lower_case_to_original[key.lower()] = key
                 if isinstance(value, Dict):
-                    self._data[key] = SCIMDataContainer(value)
+                    value = SCIMDataContainer(value)
                 elif isinstance(value, List):
-                    self._data[key] = [
+                    value = [
                         SCIMDataContainer(item) if isinstance(item, Dict) else item
                         for item in value
                     ]
-                else:
-                    self._data[key] = value
+                self._assign(key, value)
         elif isinstance(d, SCIMDataContainer):
             self._data = d._data
             self._lower_case_to_original = d._lower_case_to_original
@@ -173,8 +171,14 @@ class SCIMDataContainer:
             else:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
-            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
-            self._data[attr_rep.attr] = value
+            self._assign(attr_rep.attr, value)
+
+    def _assign(self, key: str, value: Any) -> None:
+        previous_key = self._lower_case_to_original.get(key.lower())
+        if previous_key is not None and previous_key != key:
+            self._data.pop(previous_key)
+        self._lower_case_to_original[key.lower()] = key
+        self._data[key] = value
 
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
-- 
2.43.0


From 78bb74863638c5a2b841bcff5b4e91b90e111216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:50 +0000
Subject: [PATCH 05/77] fix: extension attribute can be assigned whatever the
 letter case of its schema

---
 src/data/container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index ed760fd..47cb006 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -142,9 +142,10 @@ class SCIMDataContainer:
         if attr_rep.extension:
             extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
             if extension_key is None:
-                self._lower_case_to_original[attr_rep.schema.lower()] = attr_rep.schema
-                self._data[attr_rep.schema] = SCIMDataContainer()
-            self._data[attr_rep.schema][
+                extension_key = attr_rep.schema
+                self._lower_case_to_original[extension_key.lower()] = extension_key
+                self._data[extension_key] = SCIMDataContainer()
+            self._data[extension_key][
                 AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)
             ] = value
         elif attr_rep.sub_attr:
-- 
2.43.0


From aa11f6124e0bcdf869b830204e4a81372ba233ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:07 +0000
Subject: [PATCH 06/77] fix: extension attributes are looked up only in their
 own, well-formed namespace

---
 src/data/container.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 47cb006..1cf6d7d 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -185,9 +185,11 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
-            return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        namespace = self._get_namespace(attr_rep)
+        if namespace is not None:
+            return namespace[AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        if attr_rep.extension:
+            return Missing
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
@@ -206,9 +208,11 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
-            del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        namespace = self._get_namespace(attr_rep)
+        if namespace is not None:
+            del namespace[AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+            return
+        if attr_rep.extension:
             return
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
@@ -227,6 +231,13 @@ class SCIMDataContainer:
         self._data.pop(attr)
         self._lower_case_to_original.pop(attr_rep.attr.lower())
 
+    def _get_namespace(self, attr_rep: "AttrRep") -> Optional["SCIMDataContainer"]:
+        if not attr_rep.schema:
+            return None
+        key = self._lower_case_to_original.get(attr_rep.schema.lower())
+        namespace = self._data.get(key)
+        return namespace if isinstance(namespace, SCIMDataContainer) else None
+
     @staticmethod
     def _can_assign_to_complex(current_value, new_value) -> bool:
         if isinstance(current_value, SCIMDataContainer):
-- 
2.43.0


From 5105ae3e43e1595a20e8fef6f95a9faedfccefdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:11 +0000
Subject: [PATCH 07/77] fix: sub-attribute access tolerates list items that are
 not complex

---
 src/data/container.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 1cf6d7d..98f7fc9 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -200,7 +200,12 @@ class SCIMDataContainer:
             if isinstance(attr_value, SCIMDataContainer):
                 return attr_value[AttrRep(attr=attr_rep.sub_attr)]
             if isinstance(attr_value, List):
-                return [item[AttrRep(attr=attr_rep.sub_attr)] for item in attr_value]
+                return [
+                    item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer)
+                    else Missing
+                    for item in attr_value
+                ]
             return Missing
         return self._data[attr]
 
@@ -225,7 +230,8 @@ class SCIMDataContainer:
                 del attr_value[AttrRep(attr=attr_rep.sub_attr)]
             elif isinstance(attr_value, List):
                 for item in attr_value:
-                    del item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer):
+                        del item[AttrRep(attr=attr_rep.sub_attr)]
             return
 
         self._data.pop(attr)
-- 
2.43.0


From bc6b23d8f5b50e15c7c7946b8cb17a880f724027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:30 +0000
Subject: [PATCH 08/77] fix: container equality requires the same data on both
 sides

---
 src/data/container.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 98f7fc9..ec78161 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -293,8 +293,6 @@ class SCIMDataContainer:
         elif not isinstance(other, SCIMDataContainer):
             return False
 
-        for key, value in self._data.items():
-            if other[key] != value:
-                return False
-
-        return True
+        return {key.lower(): value for key, value in self._data.items()} == {
+            key.lower(): value for key, value in other._data.items()
+        }
-- 
2.43.0


From 19ad2636dff6e2643dd4a8787470910d2b2e0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:47 +0000
Subject: [PATCH 09/77] fix: $ref can be addressed as a sub-attribute;
 sub-attribute names are validated

---
 src/data/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index ec78161..90650ad 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -3,7 +3,9 @@ from typing import Any, Dict, List, Optional, Union
 
 _ATTR_NAME = re.compile(r"(\w+|\$ref)")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.\w+)?)")
+_ATTR_REP = re.compile(
+    rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.{_ATTR_NAME.pattern})?)"
+)
 
 
 class AttrRep:
@@ -19,7 +21,7 @@ class AttrRep:
         if sub_attr:
             attr_ += "." + sub_attr
 
-        if not _ATTR_REP.fullmatch(attr):
+        if not _ATTR_REP.fullmatch(attr_):
             raise ValueError(f"{attr_!r} is not valid attr / sub-attr name")
 
         if extension and not schema:
-- 
2.43.0


From ec9799111394570f3fb0af2f0e445d9cccd31105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 10/77] fix: infinite and not-a-number integers are reported
 instead of raising

---
 src/data/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index d2c831e..a70e818 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -98,13 +98,13 @@ class Integer(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().dump(value)
 
-- 
2.43.0


From cb5ce9fe9d7da05f626f52c33c08395fb3db03a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:16 +0000
Subject: [PATCH 11/77] fix: non-ASCII binary values are reported instead of
 raising

---
 src/data/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/type.py b/src/data/type.py
index a70e818..dd72a4a 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -149,7 +149,7 @@ class Binary(String):
                     issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                     proceed=False,
                 )
-        except binascii.Error:
+        except (binascii.Error, UnicodeEncodeError):
             issues.add(
                 issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                 proceed=False,
-- 
2.43.0


From 4e3ff4909bec7dd3aa4be0a5e0ae244b7a172985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:21 +0000
Subject: [PATCH 12/77] fix: booleans are not accepted as integers or decimals

---
 src/data/type.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index dd72a4a..2f303e3 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -9,6 +9,12 @@ from ..error import ValidationError, ValidationIssues
 from .container import Invalid, SCIMDataContainer
 
 
+def _is_instance(value: t.Any, type_: t.Type) -> bool:
+    if isinstance(value, bool):
+        return type_ is bool  # bool is a subclass of int, but not a SCIM number
+    return isinstance(value, type_)
+
+
 class AttributeType(abc.ABC):
     PARSE_TYPE: t.Type
     DUMP_TYPE: t.Type
@@ -19,7 +25,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.PARSE_TYPE):
+        if not _is_instance(value, cls.PARSE_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.PARSE_TYPE), provided=get_scim_type(type(value))
@@ -32,7 +38,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.DUMP_TYPE):
+        if not _is_instance(value, cls.DUMP_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.DUMP_TYPE), provided=get_scim_type(type(value))
@@ -73,7 +79,7 @@ class Decimal(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
-        if isinstance(value, int):
+        if _is_instance(value, int):
             value, issues = Integer.parse(value)
             if value is not Invalid:
                 value = float(value)
@@ -82,7 +88,7 @@ class Decimal(AttributeType):
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
-        if isinstance(value, int):
+        if _is_instance(value, int):
             value, issues = Integer.dump(value)
             if value is not Invalid:
                 value = float(value)
-- 
2.43.0


From 35914c3a6cb794af570964c5eb2101f6c33dfc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:23 +0000
Subject: [PATCH 13/77] fix: integers too large for a decimal are reported
 instead of raising

---
 src/data/type.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index 2f303e3..c58ce48 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -82,7 +82,7 @@ class Decimal(AttributeType):
         if _is_instance(value, int):
             value, issues = Integer.parse(value)
             if value is not Invalid:
-                value = float(value)
+                value = cls._to_float(value, issues)
             return value, issues
         return super().parse(value)
 
@@ -91,10 +91,18 @@ class Decimal(AttributeType):
         if _is_instance(value, int):
             value, issues = Integer.dump(value)
             if value is not Invalid:
-                value = float(value)
+                value = cls._to_float(value, issues)
             return value, issues
         return super().dump(value)
 
+    @staticmethod
+    def _to_float(value: int, issues: ValidationIssues) -> t.Any:
+        try:
+            return float(value)
+        except OverflowError:
+            issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+            return Invalid
+
 
 class Integer(AttributeType):
     SCIM_NAME = "integer"
-- 
2.43.0


From 3ac5a63fd3f6a75a28f810382b9e7e6b7fb3c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 14/77] fix: schemas enforce canonical values of attributes
 that ask for it

---
 src/data/attributes.py | 4 ++++
 src/data/schemas.py    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index c565fa8..f983e57 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -146,6 +146,10 @@ class Attribute:
     def canonical_values(self) -> Optional[list]:
         return self._canonical_values
 
+    @property
+    def validate_canonical_values(self) -> bool:
+        return self._validate_canonical_values
+
     @property
     def mutability(self) -> AttributeMutability:
         return self._mutability
diff --git a/src/data/schemas.py b/src/data/schemas.py
index 322f771..3d20121 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -187,6 +187,7 @@ class BaseSchema(abc.ABC):
             case_exact=attr.case_exact,
             multi_valued=attr.multi_valued,
             canonical_values=attr.canonical_values,
+            validate_canonical_values=attr.validate_canonical_values,
             mutability=attr.mutability,
             returned=attr.returned,
             uniqueness=attr.uniqueness,
-- 
2.43.0


From d526f35ff64408c14be32e3da45ae4c5e57c0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:49 +0000
Subject: [PATCH 15/77] fix: attribute descriptions survive binding to a schema

---
 src/data/schemas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 3d20121..ec83693 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -167,6 +167,7 @@ class BaseSchema(abc.ABC):
             return ComplexAttribute(
                 sub_attributes=list(attr.attrs),
                 name=attr_rep,
+                description=attr.description,
                 required=attr.required,
                 issuer=attr.issuer,
                 multi_valued=attr.multi_valued,
@@ -181,6 +182,7 @@ class BaseSchema(abc.ABC):
         return Attribute(
             name=attr_rep,
             type_=attr.type,
+            description=attr.description,
             reference_types=attr.reference_types,
             issuer=attr.issuer,
             required=attr.required,
-- 
2.43.0


From 76e796d5c4ad12faf18b0e386f500fa5049dece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 16/77] fix: malformed items in 'schemas' are reported instead
 of raising

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index ec83693..94749b5 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -241,7 +241,7 @@ class BaseSchema(abc.ABC):
         issues.merge(issues_)
 
         schemas_ = data[self._attrs.schemas.rep]
-        if issues.can_proceed(("schemas",)) and schemas_:
+        if not issues.has_issues(("schemas",)) and schemas_:
             issues.merge(
                 validate_schemas_field(
                     data=data,
-- 
2.43.0


From 12ee2d66b02ba840dbf2621467cc9a79d2a4ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:04 +0000
Subject: [PATCH 17/77] fix: the same extension can not be attached to a schema
 twice

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 94749b5..3cd92d4 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -379,7 +379,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
         return list(self._schema_extensions)
 
     def with_extension(self, extension: "SchemaExtension", required: bool = False) -> None:
-        if extension.schema in map(lambda x: x.lower(), self.schemas):
+        if extension.schema.lower() in map(lambda x: x.lower(), self.schemas):
             raise ValueError(f"extension {extension!r} already in {self!r} schema")
 
         self._schema_extensions[extension.schema] = required
-- 
2.43.0


From b3b237875fad7a9f455571f3eeb13e3ba3210a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:28 +0000
Subject: [PATCH 18/77] fix: schema representation lists only the schema's own
 attributes

---
 src/data/schemas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 3cd92d4..ef76a65 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -427,7 +427,9 @@ def get_schema_rep(schema: ResourceSchema) -> Dict[str, Any]:
         "schemas": ["urn:ietf:params:scim:schemas:core:2.0:Schema"],
         "name": schema.name,
         "description": schema.description,
-        "attributes": [attr.to_dict() for attr in schema.attrs.top_level],
+        "attributes": [
+            attr.to_dict() for attr in schema.attrs.top_level if not attr.rep.extension
+        ],
         "meta": {
             "resourceType": "Schema",
         },
-- 
2.43.0


From 298d350b1302ef1d06e0f9dc35b9c0c35907f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:32 +0000
Subject: [PATCH 19/77] fix: schema documents may contain decimal attributes

---
 src/assets/schemas/schema.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 31334bb..28fef45 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -46,7 +46,16 @@ _attributes__name = Attribute(
 _attributes__type = Attribute(
     name="type",
     type_=type_.String,
-    canonical_values=["string", "integer", "boolean", "reference", "dateTime", "binary", "complex"],
+    canonical_values=[
+        "string",
+        "integer",
+        "decimal",
+        "boolean",
+        "reference",
+        "dateTime",
+        "binary",
+        "complex",
+    ],
     validate_canonical_values=True,
     required=True,
     mutability=AttributeMutability.READ_ONLY,
-- 
2.43.0


From 179f536638546400e3d1accf6da8ccd6a1e99eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:36 +0000
Subject: [PATCH 20/77] fix: missing caseExact in a schema document is reported
 instead of raising

---
 src/assets/schemas/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 28fef45..e1b9f51 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -172,7 +172,7 @@ def dump_attributes(
             if item[_attributes__case_exact.rep] in [None, Missing]:
                 issues.add(
                     issue=ValidationError.missing(),
-                    location=(i, _attributes__case_exact.rep),
+                    location=(i, _attributes__case_exact.rep.attr),
                     proceed=False,
                 )
         else:
-- 
2.43.0


From d0e34fdc82546557f98536d5146029b6b339e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:40 +0000
Subject: [PATCH 21/77] fix: authentication schemes keep their documentationUri

---
 src/assets/schemas/service_provider_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/service_provider_config.py b/src/assets/schemas/service_provider_config.py
index 3b8880e..c95cefc 100644
--- a/src/assets/schemas/service_provider_config.py
+++ b/src/assets/schemas/service_provider_config.py
@@ -118,7 +118,7 @@ _authentication_schemes_spec_uri = Attribute(
 )
 
 _authentication_schemes_documentation_uri = Attribute(
-    name="specUri",
+    name="documentationUri",
     type_=type_.ExternalReference,
     mutability=AttributeMutability.READ_ONLY,
 )
-- 
2.43.0


From 62f1a75fefc8dabf00d95879bec0c11d3c49625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:35 +0000
Subject: [PATCH 22/77] fix: presence of multi-valued attributes can be
 evaluated on resource data

---
 src/data/operator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 205fa94..b285479 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -226,17 +226,19 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item.get("value") for item in value])
+                match = any([self._has_value(SCIMDataContainer(item)["value"]) for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-            match = any([bool(item) for item in value])
-        elif isinstance(value, str):
-            match = bool(value)
+            match = any([self._has_value(item) for item in value])
         else:
-            match = value not in [None, Missing, Invalid]
+            match = self._has_value(value)
         return MatchResult.passed() if match else MatchResult.failed()
 
+    @staticmethod
+    def _has_value(value: Any) -> bool:
+        return value not in [None, "", Missing, Invalid]
+
 
 T2 = TypeVar("T2")
 
-- 
2.43.0


From 28bcee2a0fcaa336a1c774be076ff597b90d440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:38 +0000
Subject: [PATCH 23/77] fix: 'and' does not match if one of its attributes is
 unknown

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index b285479..3d16fee 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -120,7 +120,7 @@ class And(MultiOperandLogicalOperator):
         value = value or {}
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
-            if match.status == MatchStatus.FAILED:
+            if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
                 return MatchResult.failed()
             if match.status == MatchStatus.MISSING_DATA:
                 missing_data = True
-- 
2.43.0


From b24073a2e7fe772e25db6e8dcb43a72bcf88efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:43 +0000
Subject: [PATCH 24/77] fix: logical filter operators can be evaluated on
 missing data

---
 src/data/operator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 3d16fee..b699eed 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -117,7 +117,7 @@ class And(MultiOperandLogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
             if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
@@ -138,7 +138,7 @@ class Or(MultiOperandLogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
             if match.status == MatchStatus.PASSED:
@@ -171,7 +171,7 @@ class Not(LogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         if isinstance(self._sub_operator, LogicalOperator):
             match = self._sub_operator.match(value, attrs, strict=True)
             if match.status == MatchStatus.MISSING_DATA:
-- 
2.43.0


From 501717c1c71ec8f1ec248745828b2f2578bfe97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:55 +0000
Subject: [PATCH 25/77] fix: filter comparisons of incomparable, multi-valued
 and date-time values no longer raise

---
 src/data/operator.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index b699eed..984485a 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -275,29 +275,47 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             if value_sub_attr is None:
                 return None
 
-            if not attr.multi_valued:
+            if not attr.multi_valued or not isinstance(value, List):
                 return None
 
-            value = [item["value"] for item in value]
+            return self._get_values_for_comparison(
+                value=[SCIMDataContainer(item)["value"] for item in value],
+                attr=value_sub_attr,
+            )
+
+        if not isinstance(value, List):
+            value = [value]
+        value = [item for item in value if item not in [None, Missing, Invalid]]
 
         if attr.type.SCIM_NAME == "dateTime":
-            try:
-                return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
-            except ValueError:
+            op_value = self._to_datetime(self.value)
+            if op_value is None:
                 return None
+            value = [self._to_datetime(item) for item in value]
+            return [(item, op_value) for item in value if item is not None]
 
         if isinstance(self.value, str):
             if not attr.case_exact:
                 op_value = self.value.lower()
-                if not isinstance(value, List):
-                    value = [value]
                 return [(item.lower(), op_value) for item in value if isinstance(item, str)]
 
-        if not isinstance(value, List):
-            value = [value]
-
         return [(item, self.value) for item in value]
 
+    @staticmethod
+    def _to_datetime(value: Any) -> Optional[datetime]:
+        if isinstance(value, datetime):
+            return value
+        try:
+            return datetime.fromisoformat(value)
+        except (TypeError, ValueError):
+            return None
+
+    def _compare(self, attr_value: Any, op_value: Any) -> bool:
+        try:
+            return self.OPERATOR(attr_value, op_value)
+        except (AttributeError, TypeError):
+            return False  # values of different types can not be compared
+
     def match(
         self,
         value: Any,
@@ -321,7 +339,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
-            if self.OPERATOR(attr_value, op_value):
+            if self._compare(attr_value, op_value):
                 return MatchResult.passed()
         return MatchResult.failed()
 
-- 
2.43.0


From 24ed9a51a2330b9dfdffaa6c4e5137d5b0709346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:41 +0000
Subject: [PATCH 26/77] fix: complex filters on missing or malformed
 multi-valued data

---
 src/data/operator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/operator.py b/src/data/operator.py
index 984485a..02045f1 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -510,6 +510,8 @@ class ComplexAttributeOperator:
         attr = attrs.get(self._attr_rep)
         if attr is None or not isinstance(attr, ComplexAttribute):
             return MatchResult.failed_no_attr()
+        if value in [None, Missing] and attr.multi_valued and not strict:
+            return MatchResult.passed()
         if (
             attr.multi_valued
             and not isinstance(value, List)
@@ -522,6 +524,7 @@ class ComplexAttributeOperator:
 
         if not isinstance(value, List):
             value = [value]
+        value = [SCIMDataContainer(item) for item in value]
 
         if isinstance(self._sub_operator, AttributeOperator):
             has_value = False
-- 
2.43.0


From ad53eaeea079b62f1fa0997b4845029aafb1caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:58 +0000
Subject: [PATCH 27/77] fix: schema URIs containing logical operator words or
 dashes can be used in filters

---
 src/filter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 313482b..2999d4c 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -17,9 +17,17 @@ from src.utils import (
 if TYPE_CHECKING:
     from src.data.schemas import BaseSchema
 
-OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL)
-AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL)
-NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\s*\bnot\b\s*(.*)", flags=re.DOTALL)
+# logical operators must not be found inside attribute names and schema URIs
+_LOGICAL_OPERATOR = r"(?<![\w:.$-]){}(?![\w:.$-])"
+OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
+    rf"\s*{_LOGICAL_OPERATOR.format('or')}\s*", flags=re.DOTALL
+)
+AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
+    rf"\s*{_LOGICAL_OPERATOR.format('and')}\s*", flags=re.DOTALL
+)
+NOT_LOGICAL_OPERATOR_REGEX = re.compile(
+    rf"\s*{_LOGICAL_OPERATOR.format('not')}\s*(.*)", flags=re.DOTALL
+)
 
 _UNARY_ATTR_OPERATORS = {
     "pr": op.Present,
@@ -104,7 +112,7 @@ class Filter:
             if ignore_processing:
                 continue
 
-            if (re.match(r"\w", char) or char in ":.") and bracket_open_index is None:
+            if (re.match(r"\w", char) or char in ":.-") and bracket_open_index is None:
                 complex_attr_rep += char
             elif char == "[":
                 if bracket_open_index is not None:
-- 
2.43.0


From b6acd0584676da371e68ebbc5f93492686ccd88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:01 +0000
Subject: [PATCH 28/77] fix: logical operators in filters are case-insensitive

---
 src/filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 2999d4c..b9262cb 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -20,13 +20,13 @@ if TYPE_CHECKING:
 # logical operators must not be found inside attribute names and schema URIs
 _LOGICAL_OPERATOR = r"(?<![\w:.$-]){}(?![\w:.$-])"
 OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
-    rf"\s*{_LOGICAL_OPERATOR.format('or')}\s*", flags=re.DOTALL
+    rf"\s*{_LOGICAL_OPERATOR.format('or')}\s*", flags=re.DOTALL | re.IGNORECASE
 )
 AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
-    rf"\s*{_LOGICAL_OPERATOR.format('and')}\s*", flags=re.DOTALL
+    rf"\s*{_LOGICAL_OPERATOR.format('and')}\s*", flags=re.DOTALL | re.IGNORECASE
 )
 NOT_LOGICAL_OPERATOR_REGEX = re.compile(
-    rf"\s*{_LOGICAL_OPERATOR.format('not')}\s*(.*)", flags=re.DOTALL
+    rf"\s*{_LOGICAL_OPERATOR.format('not')}\s*(.*)", flags=re.DOTALL | re.IGNORECASE
 )
 
 _UNARY_ATTR_OPERATORS = {
-- 
2.43.0


From 3267e1d6aa188faed605dabb75e66664c38a518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:34 +0000
Subject: [PATCH 29/77] fix: placeholders of strings, groups and complex
 filters can not be confused

---
 src/data/path.py |  9 +++------
 src/filter.py    | 33 ++++++++++++++++++++-------------
 src/utils.py     | 13 +++++++++++++
 3 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index 74d22a1..551bbd1 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -139,12 +139,9 @@ class PatchPath:
 
     @staticmethod
     def _encode_string_values(exp: str, string_values: Dict[int, str]):
-        encoded = exp
-        for match in PLACEHOLDER_REGEX.finditer(exp):
-            index = int(match.group(1))
-            if index in (string_values or {}):
-                encoded = encoded.replace(match.group(0), string_values[index])
-        return encoded
+        return PLACEHOLDER_REGEX.sub(
+            lambda match: string_values.get(int(match.group(1)), match.group(0)), exp
+        )
 
     def __eq__(self, other) -> bool:
         if not isinstance(other, PatchPath):
diff --git a/src/filter.py b/src/filter.py
index b9262cb..c5dda86 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -9,7 +9,10 @@ from src.utils import (
     OP_REGEX,
     PLACEHOLDER_REGEX,
     STRING_VALUES_REGEX,
+    get_complex_id,
+    get_group_id,
     get_placeholder,
+    get_string_id,
     parse_comparison_value,
     parse_placeholder,
 )
@@ -93,12 +96,16 @@ class Filter:
     def parse(cls, filter_exp: str) -> Tuple[Union[Invalid, "Filter"], ValidationIssues]:
         issues = ValidationIssues()
 
+        if PLACEHOLDER_REGEX.search(STRING_VALUES_REGEX.sub(" ", filter_exp)):
+            issues.add(issue=ValidationError.unknown_expression(filter_exp), proceed=False)
+            return Invalid, issues
+
         string_values = {}
         for match in STRING_VALUES_REGEX.finditer(filter_exp):
             start, stop = match.span()
             string_value = match.string[start:stop]
-            string_values[start] = string_value
-            filter_exp = filter_exp.replace(string_value, get_placeholder(start), 1)
+            string_values[get_string_id(start)] = string_value
+            filter_exp = filter_exp.replace(string_value, get_placeholder(get_string_id(start)), 1)
 
         bracket_open_index = None
         complex_attr_rep = ""
@@ -131,7 +138,7 @@ class Filter:
                     )
                 else:
                     sub_ops_exp = filter_exp_iter_copy[bracket_open_index + 1 : i]
-                    complex_attr_start = bracket_open_index - len(complex_attr_rep)
+                    complex_attr_start = get_complex_id(bracket_open_index - len(complex_attr_rep))
                     complex_attr_exp = f"{complex_attr_rep}[{sub_ops_exp}]"
                     if sub_ops_exp.strip() == "":
                         issues_.add(
@@ -191,7 +198,7 @@ class Filter:
                 issues.merge(issues=parsed.issues)
             return Invalid, issues
 
-        if bracket_open_index and bracket_open_index not in parsed_complex_ops:
+        if bracket_open_index is not None:
             issues.add(
                 issue=ValidationError.complex_attribute_bracket_not_opened_or_closed(),
                 proceed=False,
@@ -249,18 +256,18 @@ class Filter:
                     string_values=string_values,
                     parsed_complex_ops=parsed_complex_ops,
                 )
-                parsed_group_ops[bracket_open_index] = _ParsedGroupOperator(
+                parsed_group_ops[get_group_id(bracket_open_index)] = _ParsedGroupOperator(
                     operator=parsed_group_op,
                     issues=issues_,
                     expression=group_op_exp,
                 )
                 op_exp_preprocessed = op_exp_preprocessed.replace(
-                    group_op_exp, get_placeholder(bracket_open_index), 1
+                    group_op_exp, get_placeholder(get_group_id(bracket_open_index)), 1
                 )
                 bracket_open = False
                 bracket_open_index = None
 
-        if bracket_open and bracket_open_index not in parsed_group_ops:
+        if bracket_open:
             issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
 
         op_exp_preprocessed = op_exp_preprocessed.strip()
@@ -649,17 +656,17 @@ class Filter:
         parsed_group_ops: Optional[Dict[int, _ParsedGroupOperator]] = None,
         parsed_complex_ops: Optional[Dict[int, _ParsedComplexAttributeOperator]] = None,
     ):
-        encoded = exp
-        for match in PLACEHOLDER_REGEX.finditer(exp):
+        def encode(match: re.Match) -> str:
             index = int(match.group(1))
             if index in (string_values or {}):
-                encoded = encoded.replace(match.group(0), string_values[index])
+                return string_values[index]
             elif index in (parsed_group_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_group_ops[index].expression)
+                return parsed_group_ops[index].expression
             elif index in (parsed_complex_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_complex_ops[index].expression)
+                return parsed_complex_ops[index].expression
+            return match.group(0)
 
-        return encoded
+        return PLACEHOLDER_REGEX.sub(encode, exp)
 
     def __call__(
         self, data: SCIMDataContainer, schema: "BaseSchema", strict: bool = True
diff --git a/src/utils.py b/src/utils.py
index 030c99a..ab91ac8 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -6,6 +6,19 @@ PLACEHOLDER_REGEX = re.compile(r"\|&PLACE_HOLDER_(\d+)&\|")
 STRING_VALUES_REGEX = re.compile(r"'(.*?)'|\"(.*?)\"", flags=re.DOTALL)
 
 
+# string values, complex attributes and groups have separate ranges of placeholder identifiers
+def get_string_id(position: int) -> int:
+    return 3 * position
+
+
+def get_complex_id(position: int) -> int:
+    return 3 * position + 1
+
+
+def get_group_id(position: int) -> int:
+    return 3 * position + 2
+
+
 def get_placeholder(index: int) -> str:
     return f"|&PLACE_HOLDER_{index}&|"
 
-- 
2.43.0


From 2bb65231badc8297ca4c0089bad990c1f79e0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:15 +0000
Subject: [PATCH 30/77] fix: non-finite, oversized and unterminated comparison
 values

---
 src/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index ab91ac8..becbd30 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,4 +1,5 @@
 import re
+from math import isfinite
 from typing import Any, Optional
 
 OP_REGEX = re.compile(r"\s+", flags=re.DOTALL)
@@ -31,7 +32,7 @@ def parse_placeholder(exp: str) -> Optional[int]:
 
 
 def parse_comparison_value(value: str) -> Any:
-    if (
+    if len(value) > 1 and (
         value.startswith('"')
         and value.endswith('"')
         or value.startswith("'")
@@ -45,7 +46,13 @@ def parse_comparison_value(value: str) -> Any:
     elif value == "null":
         value = None
     else:
+        try:
+            return int(value)
+        except ValueError:
+            pass
         parsed = float(value)
+        if not isfinite(parsed):
+            raise ValueError(f"{value!r} is not a valid number")
         parsed_int = int(parsed)
         if parsed == parsed_int:
             value = parsed_int
-- 
2.43.0


From 3b7a8eb72ef5ce50bf53f9a4554ecdff96abd431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 31/77] fix: malformed patch paths with a filter are reported
 instead of raising or being ignored

---
 src/data/path.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index 551bbd1..80fc33a 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -53,6 +53,10 @@ class PatchPath:
     def parse(cls, path: str) -> Tuple[Union[Invalid, "PatchPath"], ValidationIssues]:
         issues = ValidationIssues()
 
+        if PLACEHOLDER_REGEX.search(STRING_VALUES_REGEX.sub(" ", path)):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
+
         string_values = {}
         for match in STRING_VALUES_REGEX.finditer(path):
             start, stop = match.span()
@@ -92,11 +96,17 @@ class PatchPath:
         if issues.has_issues():
             return Invalid, issues
 
+        if not isinstance(filter_.operator, ComplexAttributeOperator):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
+
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
         if value_sub_attr_rep_exp:
-            if value_sub_attr_rep_exp.startswith("."):
-                value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
+            if not value_sub_attr_rep_exp.startswith("."):
+                issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+                return Invalid, issues
+            value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
             value_sub_attr_rep = cls._get_sub_attr_rep(
                 issues=issues,
                 attr_rep=filter_.operator.attr_rep,
@@ -129,6 +139,8 @@ class PatchPath:
                     issue=ValidationError.complex_sub_attribute(attr_rep.attr, sub_attr_rep.attr),
                     proceed=False,
                 )
+        elif sub_attr_rep.schema:
+            issues.add(issue=ValidationError.bad_attribute_name(sub_attr_rep_exp), proceed=False)
         elif attr_rep is not None:
             sub_attr_rep = AttrRep(
                 schema=attr_rep.schema,
-- 
2.43.0


From 03c3515a74ca66f9cee9246ca0eef11477ca7acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:08 +0000
Subject: [PATCH 32/77] fix: sorting by zero/false values, sub-attributes,
 equal items of different schemas

---
 src/sorter.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 01306f6..b1e34a2 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -3,7 +3,7 @@ from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from src.data import type as at
 from src.data.attributes import Attribute, ComplexAttribute
-from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
+from src.data.container import AttrRep, Invalid, SCIMDataContainer
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
@@ -69,21 +69,22 @@ class Sorter:
         data: List[SCIMDataContainer],
         schema: Union[ResourceSchema, Sequence[ResourceSchema]],
     ) -> List[SCIMDataContainer]:
-        if not any(item[self._attr_rep] for item in data):
-            return data
+        if not data:
+            return []
 
         if not isinstance(schema, ResourceSchema) and len(set(schema)) == 1:
             schema = schema[0]
 
         if isinstance(schema, ResourceSchema):
             key = functools.partial(self._attr_key, schema=schema)
-        else:
-            key = self._attr_key_many_schemas(data, schema)
+            return sorted(data, key=key, reverse=not self._asc)
 
-        return sorted(data, key=key, reverse=not self._asc)
+        keys = [self._attr_key(item, schema_) for item, schema_ in zip(data, schema)]
+        order = sorted(range(len(data)), key=keys.__getitem__, reverse=not self._asc)
+        return [data[i] for i in order]
 
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if not value or attr is None:
+        if attr is None or not isinstance(value, (str, bool, int, float)) or value == "":
             return self._default_value
 
         if not isinstance(value, str):
@@ -94,21 +95,15 @@ class Sorter:
 
         return StringKey(value, attr)
 
-    def _attr_key_many_schemas(self, data: List[SCIMDataContainer], schemas: Sequence[BaseSchema]):
-        def attr_key(item):
-            schema = schemas[data.index(item)]
-            return self._attr_key(item, schema)
-
-        return attr_key
-
     def _attr_key(self, item: SCIMDataContainer, schema: BaseSchema):
         attr = schema.attrs.get(self._attr_rep)
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
-            if item_value is not Missing and attr.multi_valued:
+            if isinstance(item_value, List):
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
+                        v = SCIMDataContainer(v)
                         primary = v["primary"]
                         if primary is True:
                             for sub_attr in attr.attrs:
@@ -119,7 +114,7 @@ class Sorter:
                                 attr = None
                             value = v["value"]
                             break
-                else:
+                elif item_value:
                     value = item_value[0]
             else:
                 value = item_value
-- 
2.43.0


From 58103df7705d8cbec785dfa9f1c7f902afd322ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:03 +0000
Subject: [PATCH 33/77] fix: non-text attribute names are reported instead of
 raising

---
 src/attributes_presence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 16a8e16..6c1ceda 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -32,13 +32,13 @@ class AttributePresenceChecker:
         parsed_attr_reps = []
         all_parsed = True
         for attr_rep_ in attr_reps:
-            attr_rep = AttrRep.parse(attr_rep_)
+            attr_rep = AttrRep.parse(attr_rep_) if isinstance(attr_rep_, str) else Invalid
             if attr_rep:
                 attr_location = (
                     (attr_rep.attr, attr_rep.sub_attr) if attr_rep.sub_attr else (attr_rep.attr,)
                 )
             else:
-                attr_location = (attr_rep_,)
+                attr_location = (str(attr_rep_),)
             if attr_rep is Invalid:
                 issues.add(
                     issue=ValidationError.bad_attribute_name(attr_rep_),
-- 
2.43.0


From 97aae5f4656603d2f90dead2733b03b9f19b31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:06 +0000
Subject: [PATCH 34/77] fix: presence issues of extension attributes are
 located in their extension

---
 src/attributes_presence.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 6c1ceda..6b877a1 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -64,7 +64,12 @@ class AttributePresenceChecker:
         issues = ValidationIssues()
 
         for attr in attrs:
-            top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+            top_attr_rep = AttrRep(
+                schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+            )
+            location = (attr.rep.attr,)
+            if attr.rep.extension:
+                location = (attr.rep.schema,) + location
             top_attr = attrs.get(top_attr_rep)
 
             if attr.rep.sub_attr and top_attr.multi_valued:
@@ -80,7 +85,7 @@ class AttributePresenceChecker:
                             attr=attr,
                             attr_rep=attr.rep,
                         ),
-                        location=(attr.rep.attr, attr.rep.sub_attr),
+                        location=location + (attr.rep.sub_attr,),
                     )
                 else:
                     for i, item in enumerate(value):
@@ -95,16 +100,15 @@ class AttributePresenceChecker:
                                 attr=attr,
                                 attr_rep=attr.rep,
                             ),
-                            location=(attr.rep.attr, i, attr.rep.sub_attr),
+                            location=location + (i, attr.rep.sub_attr),
                         )
             else:
                 value = data[attr.rep]
                 if value is Invalid:
                     continue
 
-                attr_location = (
-                    (attr.rep.attr, attr.rep.sub_attr) if attr.rep.sub_attr else (attr.rep.attr,)
-                )
+                if attr.rep.sub_attr:
+                    location = location + (attr.rep.sub_attr,)
                 issues.merge(
                     issues=self._check_presence(
                         value=data[attr.rep],
@@ -112,7 +116,7 @@ class AttributePresenceChecker:
                         attr=attr,
                         attr_rep=attr.rep,
                     ),
-                    location=attr_location,
+                    location=location,
                 )
 
         return issues
-- 
2.43.0


From 83db961460c58f52c78b335bfd3802094f2f01f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:21 +0000
Subject: [PATCH 35/77] fix: excluded, never returned or orphaned attributes
 are not reported as missing

---
 src/attributes_presence.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 6b877a1..95a4e17 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -74,21 +74,11 @@ class AttributePresenceChecker:
 
             if attr.rep.sub_attr and top_attr.multi_valued:
                 value = data[top_attr_rep]
-                if value in [Invalid, Missing]:
-                    continue
-
-                if value in [None, Missing]:
-                    issues.merge(
-                        issues=self._check_presence(
-                            value=value,
-                            direction=direction,
-                            attr=attr,
-                            attr_rep=attr.rep,
-                        ),
-                        location=location + (attr.rep.sub_attr,),
-                    )
-                else:
+                if isinstance(value, List):
                     for i, item in enumerate(value):
+                        if not isinstance(item, SCIMDataContainer):
+                            continue
+
                         item_value = item[AttrRep(attr=attr.rep.sub_attr)]
                         if item_value is Invalid:
                             continue
@@ -106,6 +96,8 @@ class AttributePresenceChecker:
                 value = data[attr.rep]
                 if value is Invalid:
                     continue
+                if attr.rep.sub_attr and not isinstance(data[top_attr_rep], SCIMDataContainer):
+                    continue  # sub-attributes can not be provided without their parent
 
                 if attr.rep.sub_attr:
                     location = location + (attr.rep.sub_attr,)
@@ -155,8 +147,10 @@ class AttributePresenceChecker:
             if (
                 attr.required
                 and attr_rep not in self._ignore_required
+                and not (direction == "RESPONSE" and attr.returned == AttributeReturn.NEVER)
                 and (
-                    self._include is not True
+                    self._include is None
+                    or (attr_rep not in self._attr_reps and self._include is False)
                     or (attr_rep in self._attr_reps and self._include is True)
                     or (direction == "RESPONSE" and attr.returned == AttributeReturn.ALWAYS)
                 )
-- 
2.43.0


From 4f89b77fc18fdb682b29fcc59f03e9445869cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:24 +0000
Subject: [PATCH 36/77] fix: search request can exclude attributes

---
 src/assets/schemas/search_request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 092c0ff..9b7c1c6 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -130,7 +130,7 @@ class SearchRequest(BaseSchema):
                     proceed=False,
                     location=(self.attrs.excludeattributes.rep.attr,),
                 )
-            if to_include or to_include:
+            if to_include or to_exclude:
                 data[AttrRep(attr="presence_checker")] = AttributePresenceChecker(
                     attr_reps=to_include or to_exclude, include=bool(to_include)
                 )
-- 
2.43.0


From ca2322c942579eba16a1f211d332da748eb07281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:55 +0000
Subject: [PATCH 37/77] fix: search request respects the sort order

---
 src/assets/schemas/search_request.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 9b7c1c6..7470cd2 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -138,8 +138,10 @@ class SearchRequest(BaseSchema):
         if issues.can_proceed((self.attrs.sortby.rep.attr,)):
             sort_by_ = data[self.attrs.sortby.rep]
             if sort_by_:
+                sort_order_ = data[self.attrs.sortorder.rep]
                 data[AttrRep(attr="sorter")] = Sorter(
-                    attr_rep=sort_by_, asc=data[self.attrs.sortby.rep] == "ascending"
+                    attr_rep=sort_by_,
+                    asc=not isinstance(sort_order_, str) or sort_order_.lower() != "descending",
                 )
 
         return data, issues
-- 
2.43.0


From 02eb2221f23be006b3a1cdcf914c65e62c0e0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:59 +0000
Subject: [PATCH 38/77] fix: query sorts ascending unless descending order is
 requested

---
 src/request_validators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 9d0d316..00814b4 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -378,7 +378,8 @@ def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], V
     if sort_order not in ["ascending", "descending"]:
         pass  # TODO add warning here
 
-    return Sorter.parse(by=sort_by, asc=sort_order == "ascending")
+    descending = isinstance(sort_order, str) and sort_order.lower() == "descending"
+    return Sorter.parse(by=sort_by, asc=not descending)
 
 
 def parse_request_filtering(query_string: Dict) -> Tuple[Union[Invalid, Filter], ValidationIssues]:
-- 
2.43.0


From 01f32d8c57aa95ffff74b00b86384e299f084714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 39/77] fix: parsing a query string does not modify it

---
 src/request_validators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 00814b4..4c9e813 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -245,7 +245,7 @@ class ResourceObjectGET(Validator):
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-                query_string["presence_checker"] = checker
+                query_string = {**query_string, "presence_checker": checker}
         return RequestData(body=body, headers=headers, query_string=query_string), issues
 
     def dump_response(
@@ -280,7 +280,7 @@ class ResourceObjectPUT(Validator):
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-                query_string["presence_checker"] = checker
+                query_string = {**query_string, "presence_checker": checker}
 
         body, issues_ = _parse_body(schema=self._schema, body=body)
         issues.merge(issues=issues_)
@@ -326,7 +326,7 @@ class ResourcesPOST(Validator):
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-                query_string["presence_checker"] = checker
+                query_string = {**query_string, "presence_checker": checker}
 
         required_to_ignore = []
         for attr in self._schema.attrs:
@@ -571,6 +571,7 @@ def _parse_resources_get_request(
     if issues.has_issues():
         return RequestData(headers=headers, query_string=query_string, body=body), issues
 
+    query_string = dict(query_string)
     filter_, issues_ = parse_request_filtering(query_string)
     query_string["filter"] = filter_
     issues.merge(
@@ -825,7 +826,7 @@ class ResourceObjectPATCH(Validator):
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-                query_string["presence_checker"] = checker
+                query_string = {**query_string, "presence_checker": checker}
 
         body, issues_ = _parse_body(self._schema, body)
         issues.merge(issues_)
-- 
2.43.0


From ef1b6d3208b82a247f46eeb4ab03ed1d052e25ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:59 +0000
Subject: [PATCH 40/77] fix: absent filter and sorting parameters do not yield
 the invalid marker

---
 src/request_validators.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 4c9e813..87ada45 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -362,16 +362,19 @@ class ResourcesPOST(Validator):
         )
 
 
-def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], ValidationIssues]:
+def parse_request_sorting(
+    query_string: Dict,
+) -> Tuple[Union[None, Invalid, Sorter], ValidationIssues]:
     issues = ValidationIssues()
 
     sort_by = query_string.get("sortBy")
+    if sort_by is None:
+        return None, issues
     if not isinstance(sort_by, str):
-        if sort_by is not None:
-            issues.add(
-                issue=ValidationError.bad_type(get_scim_type(str), get_scim_type(type(sort_by))),
-                proceed=False,
-            )
+        issues.add(
+            issue=ValidationError.bad_type(get_scim_type(str), get_scim_type(type(sort_by))),
+            proceed=False,
+        )
         return Invalid, issues
 
     sort_order = query_string.get("sortOrder", "ascending")
@@ -382,15 +385,18 @@ def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], V
     return Sorter.parse(by=sort_by, asc=not descending)
 
 
-def parse_request_filtering(query_string: Dict) -> Tuple[Union[Invalid, Filter], ValidationIssues]:
+def parse_request_filtering(
+    query_string: Dict,
+) -> Tuple[Union[None, Invalid, Filter], ValidationIssues]:
     issues = ValidationIssues()
     filter_exp = query_string.get("filter")
+    if filter_exp is None:
+        return None, issues
     if not isinstance(filter_exp, str):
-        if filter_exp is not None:
-            issues.add(
-                issue=ValidationError.bad_type(get_scim_type(str), get_scim_type(type(filter_exp))),
-                proceed=False,
-            )
+        issues.add(
+            issue=ValidationError.bad_type(get_scim_type(str), get_scim_type(type(filter_exp))),
+            proceed=False,
+        )
         return Invalid, issues
     return Filter.parse(filter_exp)
 
@@ -583,7 +589,7 @@ def _parse_resources_get_request(
     query_string["sorter"] = sorter
     issues.merge(
         issues=issues_,
-        location=("query_string", "sortby"),
+        location=("query_string", "sortBy"),
     )
 
     checker, issues_ = parse_requested_attributes(query_string)
-- 
2.43.0


From d8ef9126f99c4c329309e6eecd109d3f6444e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:02 +0000
Subject: [PATCH 41/77] fix: malformed attribute selection in a query is
 reported

---
 src/request_validators.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 87ada45..f61daa2 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -401,18 +401,31 @@ def parse_request_filtering(
     return Filter.parse(filter_exp)
 
 
+def _parse_attributes_list(value: Any) -> Tuple[Union[Invalid, List], ValidationIssues]:
+    issues = ValidationIssues()
+    if not value and (value is None or isinstance(value, (str, List))):
+        return [], issues
+    if isinstance(value, str):
+        return value.split(","), issues
+    if not isinstance(value, List):
+        issues.add(
+            issue=ValidationError.bad_type(get_scim_type(list), get_scim_type(type(value))),
+            proceed=False,
+        )
+        return Invalid, issues
+    return value, issues
+
+
 def parse_requested_attributes(
     query_string: Dict[str, Any],
 ) -> Tuple[Union[None, Invalid, AttributePresenceChecker], ValidationIssues]:
     issues = ValidationIssues()
-    to_include = query_string.get("attributes", [])
-    if to_include and isinstance(to_include, str):
-        to_include = to_include.split(",")
-    to_exclude = query_string.get("excludeAttributes", [])
-    if to_exclude and isinstance(to_exclude, str):
-        to_exclude = to_exclude.split(",")
-
-    if not (isinstance(to_include, List) and isinstance(to_exclude, List)):
+    to_include, issues_ = _parse_attributes_list(query_string.get("attributes"))
+    issues.merge(issues=issues_, location=("attributes",))
+    to_exclude, issues_ = _parse_attributes_list(query_string.get("excludeAttributes"))
+    issues.merge(issues=issues_, location=("excludeAttributes",))
+
+    if issues.has_issues():
         return Invalid, issues
 
     if not (to_include or to_exclude):
-- 
2.43.0


From 2c2ebebed216cd6d1e73a7b22fed0fc123ed446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:41 +0000
Subject: [PATCH 42/77] fix: malformed integers in a query are reported instead
 of raising or being truncated

---
 src/request_validators.py | 47 ++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index f61daa2..31ab26e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -16,7 +16,7 @@ from src.data.attributes import (
 )
 from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
 from src.data.schemas import BaseSchema, ResourceSchema
-from src.data.type import get_scim_type
+from src.data.type import Integer, get_scim_type
 from src.error import ValidationError, ValidationIssues
 from src.filter import Filter
 from src.sorter import Sorter
@@ -569,6 +569,20 @@ def validate_resources_filtered(
     return issues
 
 
+def _parse_query_integer(value: Any) -> Tuple[Union[Invalid, int], ValidationIssues]:
+    issues = ValidationIssues()
+    if not isinstance(value, str):
+        return Integer.parse(value)
+    try:
+        return int(value), issues
+    except ValueError:
+        issues.add(
+            issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(str)),
+            proceed=False,
+        )
+    return Invalid, issues
+
+
 def _parse_resources_get_request(
     body: Any = None, headers: Any = None, query_string: Any = None
 ) -> Tuple[RequestData, ValidationIssues]:
@@ -582,7 +596,7 @@ def _parse_resources_get_request(
         )
     elif not isinstance(query_string, Dict):
         issues.add(
-            issue=ValidationError.bad_type(dict.__name__, type(query_string_location).__name__),
+            issue=ValidationError.bad_type(dict.__name__, type(query_string).__name__),
             proceed=False,
             location=query_string_location,
         )
@@ -613,29 +627,12 @@ def _parse_resources_get_request(
         location=("query_string",),
     )
 
-    count = query_string.get("count")
-    if count is not None:
-        try:
-            query_string["count"] = int(count)
-        except ValueError:
-            issues.add(
-                issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(type(count))),
-                location=("query_string", "count"),
-                proceed=False,
-            )
-
-    start_index = query_string.get("startIndex")
-    if start_index is not None:
-        try:
-            query_string["startIndex"] = int(start_index)
-        except ValueError:
-            issues.add(
-                issue=ValidationError.bad_type(
-                    get_scim_type(int), get_scim_type(type(start_index))
-                ),
-                location=("query_string", "startIndex"),
-                proceed=False,
-            )
+    for param in ["count", "startIndex"]:
+        if query_string.get(param) is not None:
+            value, issues_ = _parse_query_integer(query_string[param])
+            issues.merge(issues=issues_, location=("query_string", param))
+            if not issues_.has_issues():
+                query_string[param] = value
     return RequestData(headers=headers, query_string=query_string, body=body), issues
 
 
-- 
2.43.0


From c797bae74dd8eab073b38379a5fb1a6be3f72aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:44 +0000
Subject: [PATCH 43/77] fix: malformed schemas of a listed resource are
 reported instead of raising

---
 src/assets/schemas/list_response.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index 8f2db2e..faca143 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -105,9 +105,9 @@ class ListResponse(BaseSchema):
 
         schemas_value = data[self.attrs.schemas.rep]
         if isinstance(schemas_value, List) and len(schemas_value) > 0:
-            schemas_value = {
-                item.lower() if isinstance(item, str) else item for item in schemas_value
-            }
+            if not all(isinstance(item, str) for item in schemas_value):
+                return None
+            schemas_value = {item.lower() for item in schemas_value}
             for schema in self._schemas:
                 if not schemas_value.difference({s.lower() for s in schema.schemas}):
                     return schema
-- 
2.43.0


From 7a9761865827bbc046e572357f1843a7e7f8e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:48 +0000
Subject: [PATCH 44/77] fix: malformed response headers do not raise

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 31ab26e..0d8f69e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -207,7 +207,7 @@ def _dump_resource_output_body(
             location=body_location,
         )
     meta_location = schema.attrs.meta__location.rep
-    location_header = headers.get("Location")
+    location_header = headers.get("Location") if isinstance(headers, Dict) else None
     if (
         issues.can_proceed(body_location + _location(meta_location), ("headers", "Location"))
         and location_header is not None
-- 
2.43.0


From 0b5a1f49268aa27ca6a2a0aea08b719f83750c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:52 +0000
Subject: [PATCH 45/77] fix: success statuses are not accepted for error
 responses

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 0d8f69e..42bb47c 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -101,7 +101,7 @@ def validate_error_status_code_consistency(
 
 def validate_error_status_code(status_code: int) -> ValidationIssues:
     issues = ValidationIssues()
-    if not 200 <= status_code < 600:
+    if not 300 <= status_code < 600:
         issues.add(
             issue=ValidationError.bad_error_status(status_code),
             location=("status",),
-- 
2.43.0


From 3320cb964cc7dc2083b2c569c426fedd1a40c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:27 +0000
Subject: [PATCH 46/77] fix: patch operation names are case-insensitive and
 never become a removal

---
 src/assets/schemas/patch_op.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e8774d4..a9e6c48 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -7,12 +7,18 @@ from src.data.path import PatchPath
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
+
+def _normalize_op(value: str) -> Tuple[str, ValidationIssues]:
+    return value.lower(), ValidationIssues()
+
+
 _operations_op = Attribute(
     name="op",
     type_=at.String,
     canonical_values=["add", "remove", "replace"],
     validate_canonical_values=True,
     required=True,
+    parsers=[_normalize_op],
 )
 
 
-- 
2.43.0


From 55e8859b5fc84674ba0364fc89f2799faf226e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:10 +0000
Subject: [PATCH 47/77] fix: malformed patch operations are reported instead of
 raising or being delivered

---
 src/assets/schemas/patch_op.py |  6 +++++-
 src/request_validators.py      | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index a9e6c48..70094c9 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -92,6 +92,8 @@ class PatchOp(BaseSchema):
         data, issues = super().parse(data)
         if not issues.can_proceed((self.attrs.operations.rep.attr,)):
             return data, issues
+        if data[self.attrs.operations.rep] in [None, Missing]:
+            return data, issues
 
         parsed = []
         ops = data[self.attrs.operations__op.rep]
@@ -99,7 +101,7 @@ class PatchOp(BaseSchema):
         values = data[self.attrs.operations__value.rep]
 
         for i, (op, path, value) in enumerate(zip(ops, paths, values)):
-            if issues.has_issues((operations.rep.attr, i)):
+            if issues.has_issues((operations.rep.attr, i)) or op in [None, Missing]:
                 parsed_op = SCIMDataContainer(
                     {
                         "op": op,
@@ -192,6 +194,8 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=27)
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
+            if not issues.can_proceed():
+                return value, issues
             for attr in self._resource_schema.attrs:
                 if (
                     value[attr.rep] is not Missing
diff --git a/src/request_validators.py b/src/request_validators.py
index 42bb47c..d30650c 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -851,12 +851,15 @@ class ResourceObjectPATCH(Validator):
         if not issues.can_proceed(operations_location):
             return RequestData(body=None, headers=headers, query_string=query_string), issues
 
+        if body[self._schema.attrs.operations.rep] in [None, Missing]:
+            return RequestData(body=None, headers=headers, query_string=query_string), issues
+
         values = body[self._schema.attrs.operations__value.rep]
         paths = body[self._schema.attrs.operations__path.rep]
         ops = body[self._schema.attrs.operations__op.rep]
 
         for i, (op, value, path) in enumerate(zip(ops, values, paths)):
-            if op == "remove":
+            if op not in ["add", "replace"] or path is Invalid:
                 continue
 
             value_location = operations_location + (
@@ -864,6 +867,8 @@ class ResourceObjectPATCH(Validator):
                 self._schema.attrs.operations__value.rep.sub_attr,
             )
             if path in [None, Missing]:
+                if not isinstance(value, SCIMDataContainer):
+                    continue
                 for attr in self._resource_schema.attrs:
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
@@ -892,7 +897,11 @@ class ResourceObjectPATCH(Validator):
         value: Any,
         value_location,
     ) -> None:
-        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued) or value is Missing:
+        if not (
+            isinstance(attr, ComplexAttribute)
+            and attr.multi_valued
+            and isinstance(value, List)
+        ):
             return
 
         # checking if new item of complex attribute has all required fields
@@ -903,6 +912,8 @@ class ResourceObjectPATCH(Validator):
         presence_checker = AttributePresenceChecker(ignore_required=ignore_required)
         for j, item in enumerate(value):
             item_location = value_location + (j,)
+            if not isinstance(item, SCIMDataContainer):
+                continue
             if not issues.has_issues(item_location):
                 issues.merge(
                     issues=presence_checker(
-- 
2.43.0


From f1bc08f1c066ca35500dfaec44074adf037be993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:28 +0000
Subject: [PATCH 48/77] fix: required complex attributes can not be removed as
 a whole

---
 src/assets/schemas/patch_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 70094c9..440867c 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -141,7 +141,7 @@ class PatchOp(BaseSchema):
                     location=path_location,
                 )
             if attr.required:
-                if isinstance(attr, ComplexAttribute):
+                if isinstance(attr, ComplexAttribute) and path.complex_filter is not None:
                     pass  # TODO: add warning here
                 else:
                     issues.add(
-- 
2.43.0


From 3e16f3d4b36b6a49f8656c9479713ac43faae408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:09 +0000
Subject: [PATCH 49/77] fix: unknown target of a remove operation is located at
 its path

---
 src/assets/schemas/patch_op.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 440867c..f80ea69 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -127,12 +127,15 @@ class PatchOp(BaseSchema):
     def _parse_remove_operation(
         self, path: PatchPath
     ) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
-        issues = validate_operation_path(self._resource_schema, path)
+        issues = ValidationIssues()
+        path_location = (self.attrs.operations__path.rep.sub_attr,)
+        issues.merge(
+            validate_operation_path(self._resource_schema, path), location=path_location
+        )
         if issues.has_issues():
             return Invalid, issues
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
-        path_location = (self.attrs.operations__path.rep.sub_attr,)
         if path.complex_filter_attr_rep is None:
             if attr.mutability == AttributeMutability.READ_ONLY:
                 issues.add(
-- 
2.43.0


From 1a79acf6a3d61814e43eed44858ba94c3129cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:13 +0000
Subject: [PATCH 50/77] fix: sub-attributes of a read-only attribute can not be
 patched

---
 src/assets/schemas/patch_op.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index f80ea69..227802a 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -137,7 +137,7 @@ class PatchOp(BaseSchema):
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
         if path.complex_filter_attr_rep is None:
-            if attr.mutability == AttributeMutability.READ_ONLY:
+            if self._is_read_only(path.attr_rep):
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -234,7 +234,7 @@ class PatchOp(BaseSchema):
         if attr is None:
             return Invalid, issues
 
-        if attr.mutability == AttributeMutability.READ_ONLY:
+        if self._is_read_only(attr_rep):
             issues.add(
                 issue=ValidationError.attribute_can_not_be_modified(),
                 proceed=False,
@@ -259,6 +259,13 @@ class PatchOp(BaseSchema):
                     )
         return parsed_attr_value, issues
 
+    def _is_read_only(self, attr_rep: AttrRep) -> bool:
+        for attr_rep_ in [AttrRep(schema=attr_rep.schema, attr=attr_rep.attr), attr_rep]:
+            attr = self._resource_schema.attrs.get(attr_rep_)
+            if attr is not None and attr.mutability == AttributeMutability.READ_ONLY:
+                return True
+        return False
+
 
 def validate_operation_path(schema: ResourceSchema, path: PatchPath) -> ValidationIssues:
     issues = ValidationIssues()
-- 
2.43.0


From ad393ceb086bb0d6f85f1b8bc9a9971c21fb67b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:21 +0000
Subject: [PATCH 51/77] fix: read-only sub-attributes in items of a patch value
 are refused at their location

---
 src/assets/schemas/patch_op.py | 44 +++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 227802a..7a92d28 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -200,19 +200,23 @@ class PatchOp(BaseSchema):
             if not issues.can_proceed():
                 return value, issues
             for attr in self._resource_schema.attrs:
-                if (
-                    value[attr.rep] is not Missing
-                    and attr.mutability == AttributeMutability.READ_ONLY
-                ):
-                    location = (attr.rep.attr,)
-                    if attr.rep.sub_attr:
-                        location = location + (attr.rep.sub_attr,)
-                    if attr.rep.extension:
-                        location = (attr.rep.schema,) + location
+                if attr.mutability != AttributeMutability.READ_ONLY:
+                    continue
+                location = (attr.rep.attr,)
+                if attr.rep.extension:
+                    location = (attr.rep.schema,) + location
+                if attr.rep.sub_attr:
+                    top_attr_rep = AttrRep(
+                        schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+                    )
+                    locations = _get_sub_attr_locations(value[top_attr_rep], attr.rep.sub_attr)
+                else:
+                    locations = [()] if value[attr.rep] is not Missing else []
+                for location_ in locations:
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-                        location=location,
+                        location=location + location_,
                     )
             return value, issues
 
@@ -245,17 +249,16 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif isinstance(attr, ComplexAttribute) and not attr.multi_valued:
+        elif isinstance(attr, ComplexAttribute):
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
                     continue
-                v = parsed_attr_value[sub_attr.rep]
-                if v is not Missing:
+                for location in _get_sub_attr_locations(parsed_attr_value, sub_attr.rep.attr):
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-                        location=(sub_attr.rep.sub_attr,),
+                        location=location,
                     )
         return parsed_attr_value, issues
 
@@ -267,6 +270,19 @@ class PatchOp(BaseSchema):
         return False
 
 
+def _get_sub_attr_locations(value: Any, sub_attr: str) -> List[Tuple]:
+    """Locations, in the value of complex attribute, where the sub-attribute is provided."""
+    if isinstance(value, SCIMDataContainer):
+        return [(sub_attr,)] if value[sub_attr] is not Missing else []
+    if isinstance(value, List):
+        return [
+            (i, sub_attr)
+            for i, item in enumerate(value)
+            if isinstance(item, SCIMDataContainer) and item[sub_attr] is not Missing
+        ]
+    return []
+
+
 def validate_operation_path(schema: ResourceSchema, path: PatchPath) -> ValidationIssues:
     issues = ValidationIssues()
     if schema.attrs.get(path.attr_rep) is None or (
-- 
2.43.0


From 3df477aa455711fdd5e62657e6ec36c882aed6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:26 +0000
Subject: [PATCH 52/77] fix: missing sub-attributes in a patch value are
 located in their extension

---
 src/request_validators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index d30650c..15eaecd 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1225,7 +1225,8 @@ class ResourceTypesGET(_ServiceProviderConfig):
         super().__init__(config, resource_schema=ResourceType())
 
 
-def _location(attr_rep: AttrRep) -> Union[Tuple[str], Tuple[str, str]]:
+def _location(attr_rep: AttrRep) -> Tuple[str, ...]:
+    location = (attr_rep.schema,) if attr_rep.extension else ()
     if attr_rep.sub_attr:
-        return attr_rep.attr, attr_rep.sub_attr
-    return (attr_rep.attr,)
+        return location + (attr_rep.attr, attr_rep.sub_attr)
+    return location + (attr_rep.attr,)
-- 
2.43.0


From d42ff69860f3f2577d3d1794374d2d2376008cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:58 +0000
Subject: [PATCH 53/77] fix: malformed bulk requests and unknown targets of
 deletions are reported

---
 src/request_validators.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 15eaecd..480433e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1004,13 +1004,15 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._request_schema.parse(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
-        if not issues_.can_proceed(
-            body_location + _location(self._request_schema.attrs.operations.rep)
-        ):
+        if issues.can_proceed(body_location):
+            issues.merge(
+                issues=AttributePresenceChecker()(body, self._request_schema.attrs, "REQUEST"),
+                location=body_location,
+            )
+        operations_rep = self._request_schema.attrs.operations.rep
+        if not issues.can_proceed(body_location + _location(operations_rep)) or body[
+            operations_rep
+        ] in [None, Missing]:
             return RequestData(headers=headers, query_string=query_string, body=None), issues
 
         path_rep = self._request_schema.attrs.operations__path.rep
@@ -1025,11 +1027,8 @@ class BulkOperations(Validator):
             if issues.can_proceed(
                 path_location,
                 data_item_location,
-                (method_rep.attr, i, method_rep.sub_attr),
+                body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
-                if method == "DELETE":
-                    continue
-
                 if method == "POST":
                     resource_name = path.split("/", 1)[1]
                 else:
@@ -1042,17 +1041,20 @@ class BulkOperations(Validator):
                         location=path_location,
                     )
                     continue
+                if method in ["GET", "DELETE"]:
+                    continue
                 resource_data, issues_ = validator.parse_request(body=data_item)
                 issues.merge(issues_.get(("body",)), location=data_item_location)
                 body[self._request_schema.attrs.operations.rep][i][
                     data_rep.sub_attr
                 ] = resource_data.body
 
-        if len(body[self._request_schema.attrs.operations.rep]) > self.config.bulk.max_operations:
+        max_operations = self.config.bulk.max_operations
+        if max_operations is not None and len(body[operations_rep]) > max_operations:
             issues.add(
-                issue=ValidationError.too_many_operations(self.config.bulk.max_operations),
+                issue=ValidationError.too_many_operations(max_operations),
                 proceed=True,
-                location=body_location + _location(self._response_schema.attrs.operations.rep),
+                location=body_location + _location(operations_rep),
             )
 
         if issues.has_issues():
-- 
2.43.0


From 1701a5d99b022bf24422a7fb62a9d65cb176f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:02 +0000
Subject: [PATCH 54/77] fix: bulk operation methods are case-insensitive

---
 src/assets/schemas/bulk_ops.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 63670f9..7e2b0d3 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -76,12 +76,18 @@ def validate_request_operations(
     return operations_data, issues
 
 
+def _normalize_method(value: str) -> Tuple[str, ValidationIssues]:
+    return value.upper(), ValidationIssues()
+
+
 _operation__method = Attribute(
     name="method",
     type_=type_.String,
     required=True,
     canonical_values=["GET", "POST", "PATCH", "PUT", "DELETE"],
     validate_canonical_values=True,
+    parsers=[_normalize_method],
+    dumpers=[_normalize_method],
 )
 
 _operation__bulk_id = Attribute(
-- 
2.43.0


From 044cce0aea2c61da620cb6e7ec42496a02f54f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:52 +0000
Subject: [PATCH 55/77] fix: malformed bulk response body is reported instead
 of raising

---
 src/request_validators.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 480433e..4d7631c 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1073,20 +1073,19 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._response_schema.dump(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
+        if issues.can_proceed(body_location):
+            issues.merge(
+                issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
+                location=body_location,
+            )
         issues.merge(
             issues=validate_status_code(200, status_code),
             location=("status",),
         )
-        if not issues.can_proceed(
-            body_location + _location(self._response_schema.attrs.operations.rep)
-        ):
+        operations_location = body_location + _location(self._response_schema.attrs.operations.rep)
+        if not issues.can_proceed(operations_location):
             return ResponseData(headers=headers, body=None), issues
 
-        operations_location = body_location + _location(self._response_schema.attrs.operations.rep)
         status_rep = self._response_schema.attrs.operations__status.rep
         response_rep = self._response_schema.attrs.operations__response.rep
         location_rep = self._response_schema.attrs.operations__location.rep
-- 
2.43.0


From 91676d171e38fa5f413998052deb46ed1867e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:55 +0000
Subject: [PATCH 56/77] fix: bulk response of an unknown resource is not
 validated against another one

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 4d7631c..de02897 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1111,9 +1111,9 @@ class BulkOperations(Validator):
 
             resource_validator = None
             if location:
-                for resource_plural_name, resource_validator in self._validators[method].items():
+                for resource_plural_name, validator in self._validators[method].items():
                     if f"/{resource_plural_name}/" in location:
-                        resource_validator = resource_validator
+                        resource_validator = validator
                         break
                 else:
                     issues.add(
-- 
2.43.0


From faa9e24f68c1ec4fb1ef9507a6ae225ea0faa297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:14 +0000
Subject: [PATCH 57/77] fix: statuses and empty responses of bulk operations
 are validated

---
 src/request_validators.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index de02897..863b1b4 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1122,12 +1122,14 @@ class BulkOperations(Validator):
                         location=location_location,
                     )
 
-            if not (status and response):
+            if not status:
                 continue
 
             status = int(status)
             if status >= 300:
                 n_errors += 1
+                if response in [None, Missing]:
+                    continue
                 error_response, issues_ = error_validator.dump_response(
                     status_code=status,
                     body=response,
@@ -1143,7 +1145,13 @@ class BulkOperations(Validator):
                 body[self._request_schema.attrs.operations.rep][i][
                     response_rep.sub_attr
                 ] = error_response.body
-            elif all([location, method, resource_validator]):
+            elif method == "DELETE":
+                if resource_validator is None:
+                    continue
+                _, issues_ = resource_validator.dump_response(status_code=status)
+                issues.merge(issues_.get(("status",)), location=status_location)
+                del body[self._request_schema.attrs.operations.rep][i][response_rep.sub_attr]
+            elif location and resource_validator and response not in [None, Missing]:
                 resource_data, issues_ = resource_validator.dump_response(
                     body=response,
                     status_code=status,
@@ -1152,6 +1160,7 @@ class BulkOperations(Validator):
                 meta_location_missmatch = issues_.pop(("body", "meta", "location"), code=11)
                 header_location_mismatch = issues_.pop(("headers", "Location"), code=11)
                 issues.merge(issues_.get(("body",)), location=response_location)
+                issues.merge(issues_.get(("status",)), location=status_location)
                 if meta_location_missmatch.has_issues() and header_location_mismatch.has_issues():
                     issues.add(
                         issue=ValidationError.must_be_equal_to("operation's location"),
-- 
2.43.0


From ca8223b748c74e57abce7735651e30c5fe73a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:18 +0000
Subject: [PATCH 58/77] fix: status of a bulk operation must be a number

---
 src/assets/schemas/bulk_ops.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 7e2b0d3..3e4d791 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -195,9 +195,7 @@ _operation__response = Attribute(
 
 def _validate_status(value: Any) -> Tuple[Union[Invalid, str], ValidationIssues]:
     issues = ValidationIssues()
-    try:
-        int(value)
-    except ValueError:
+    if not re.fullmatch(r"[0-9]{3}", value):
         issues.add(
             issue=ValidationError.bad_value_syntax(),
             proceed=False,
-- 
2.43.0


From a1fe5f4df148d88bd5cef3d2ee9007d04dcf365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:57 +0000
Subject: [PATCH 59/77] fix: $ref can be addressed in any letter case

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 90650ad..33cb642 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -1,7 +1,7 @@
 import re
 from typing import Any, Dict, List, Optional, Union
 
-_ATTR_NAME = re.compile(r"(\w+|\$ref)")
+_ATTR_NAME = re.compile(r"(\w+|\$(?i:ref))")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
 _ATTR_REP = re.compile(
     rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.{_ATTR_NAME.pattern})?)"
-- 
2.43.0


From e32f0c68a6128beb8fb8a075f7f7a6205c7c1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:15 +0000
Subject: [PATCH 60/77] fix: brackets glued to quoted text are not a part of
 comparison value

---
 src/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter.py b/src/filter.py
index c5dda86..f6802c6 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -585,6 +585,9 @@ class Filter:
             )
 
             try:
+                for index in PLACEHOLDER_REGEX.findall(components[2]):
+                    if int(index) not in string_values:
+                        raise ValueError("brackets can not be a part of comparison value")
                 value = parse_comparison_value(value)
             except ValueError:
                 value = None
-- 
2.43.0


From d453458f5743e0969224d2c16b0b0564e0fb3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 61/77] fix: resources are sorted by the attribute the schema
 resolves the name to

---
 src/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorter.py b/src/sorter.py
index b1e34a2..4f9b21b 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -99,7 +99,7 @@ class Sorter:
         attr = schema.attrs.get(self._attr_rep)
         value = None
         if attr is not None:
-            item_value = item[self._attr_rep]
+            item_value = item[attr.rep]
             if isinstance(item_value, List):
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
-- 
2.43.0


From 89045fcc7d36dc4ab000f22505e351b6df37d3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 62/77] fix: filters read the attribute the schema resolves the
 name to

---
 src/data/operator.py | 16 +++++++++++++---
 src/filter.py        |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 02045f1..8166461 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -72,6 +72,12 @@ class MatchResult:
         raise ValueError("unable to determine result for missing data")
 
 
+def get_value(data: SCIMDataContainer, attr_rep: AttrRep, attrs: Attributes) -> Any:
+    """Returns value of the attribute the name stands for in the schema."""
+    attr = attrs.get(attr_rep)
+    return data[attr_rep if attr is None else attr.rep]
+
+
 class LogicalOperator(abc.ABC):
     SCIM_OP = None
 
@@ -105,7 +111,9 @@ class MultiOperandLogicalOperator(LogicalOperator, abc.ABC):
             if isinstance(sub_operator, LogicalOperator):
                 yield sub_operator.match(value, attrs, strict)
             else:
-                yield sub_operator.match(value[sub_operator.attr_rep], attrs, strict)
+                yield sub_operator.match(
+                    get_value(value, sub_operator.attr_rep, attrs), attrs, strict
+                )
 
 
 class And(MultiOperandLogicalOperator):
@@ -181,7 +189,9 @@ class Not(LogicalOperator):
             if match.status == MatchStatus.FAILED:
                 return MatchResult.passed()
             return MatchResult.failed()
-        match = self._sub_operator.match(value[self._sub_operator.attr_rep], attrs, strict=True)
+        match = self._sub_operator.match(
+            get_value(value, self._sub_operator.attr_rep, attrs), attrs, strict=True
+        )
         if (
             match.status == MatchStatus.FAILED
             or not strict
@@ -529,7 +539,7 @@ class ComplexAttributeOperator:
         if isinstance(self._sub_operator, AttributeOperator):
             has_value = False
             for item in value:
-                item_value = item[self._sub_operator.attr_rep]
+                item_value = get_value(item, self._sub_operator.attr_rep, attr.attrs)
                 if item_value not in [None, Missing]:
                     has_value = True
                 match = self._sub_operator.match(item_value, attr.attrs, strict)
diff --git a/src/filter.py b/src/filter.py
index f6802c6..1a45170 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -675,7 +675,7 @@ class Filter:
         self, data: SCIMDataContainer, schema: "BaseSchema", strict: bool = True
     ) -> op.MatchResult:
         if not isinstance(self._operator, op.LogicalOperator):
-            data = data[self._operator.attr_rep]
+            data = op.get_value(data, self._operator.attr_rep, schema.attrs)
         return self._operator.match(data, schema.attrs, strict)
 
     def __eq__(self, other) -> bool:
-- 
2.43.0


From 49e942e16e9c7fc3389936f36611312800cd753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:34 +0000
Subject: [PATCH 63/77] fix: items which are not objects stay invalid instead
 of becoming empty items

---
 src/data/attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index f983e57..cbc78b6 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -349,6 +349,9 @@ class ComplexAttribute(Attribute):
         if self.multi_valued:
             parsed = []
             for i, item in enumerate(value):
+                if item is Invalid:
+                    parsed.append(item)
+                    continue
                 item = SCIMDataContainer(item)
                 parsed_item = SCIMDataContainer()
                 for sub_attr in self._sub_attributes:
-- 
2.43.0


From 452799ba239e99ca0b9f75d59083461b1ecbcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:11 +0000
Subject: [PATCH 64/77] fix: removal without a path next to a malformed
 operation is reported, not raised

---
 src/assets/schemas/patch_op.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 7a92d28..7593de5 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -129,6 +129,10 @@ class PatchOp(BaseSchema):
     ) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
         issues = ValidationIssues()
         path_location = (self.attrs.operations__path.rep.sub_attr,)
+        if path in [None, Missing]:
+            issues.add(issue=ValidationError.missing(), proceed=False, location=path_location)
+            return Invalid, issues
+
         issues.merge(
             validate_operation_path(self._resource_schema, path), location=path_location
         )
-- 
2.43.0


From c2447a6f9de473cc075ab5166d804bcbef7aec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:20 +0000
Subject: [PATCH 65/77] fix: items per page must be zero when a list response
 carries no resources

---
 src/assets/schemas/list_response.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index faca143..cd59576 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -48,9 +48,6 @@ class ListResponse(BaseSchema):
             return data, issues
 
         resources_ = data[self.attrs.resources.rep]
-        if resources_ is Missing:
-            return data, issues
-
         if not (resources_ is Missing or isinstance(resources_, List)):
             issues.add(
                 issue=ValidationError.bad_type(
@@ -65,11 +62,14 @@ class ListResponse(BaseSchema):
             items_per_page_ = data[self.attrs.itemsperpage.rep]
             issues.merge(
                 validate_items_per_page_consistency(
-                    resources_=resources_,
+                    resources_=[] if resources_ is Missing else resources_,
                     items_per_page_=items_per_page_,
                 )
             )
 
+        if resources_ is Missing:
+            return data, issues
+
         schemas_ = self.get_schemas_for_resources(resources_)
 
         dumped_resources = []
-- 
2.43.0


From f9134a26ab179baa500873276b65c8a4bad54f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:44 +0000
Subject: [PATCH 66/77] fix: paths without a slash next to another malformed
 part of a bulk request are reported, not raised

---
 src/request_validators.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 863b1b4..399e4a0 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1029,10 +1029,9 @@ class BulkOperations(Validator):
                 data_item_location,
                 body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
-                if method == "POST":
-                    resource_name = path.split("/", 1)[1]
-                else:
-                    resource_name = path.split("/", 2)[1]
+                resource_name = path.partition("/")[2]
+                if method != "POST":
+                    resource_name = resource_name.partition("/")[0]
                 validator = self._validators[method].get(resource_name)
                 if validator is None:
                     issues.add(
-- 
2.43.0


From 23d1033f2e2f0415657b7519b3bc187fa0e9c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:34 +0000
Subject: [PATCH 67/77] fix: representations of attributes are independent of
 the attributes themselves

---
 src/data/attributes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index cbc78b6..252affa 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -278,9 +278,9 @@ class Attribute:
             "uniqueness": self.uniqueness.value,
         }
         if self.canonical_values:
-            output["canonicalValues"] = self.canonical_values
+            output["canonicalValues"] = list(self.canonical_values)
         if self.reference_types:
-            output["referenceTypes"] = self.reference_types
+            output["referenceTypes"] = list(self.reference_types)
         return output
 
 
-- 
2.43.0


From 1cd7c0ab03268946490d3e18fc8204be3a078fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 68/77] fix: reported issues do not expose the canonical values
 of an attribute

---
 src/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index 9440878..bf0ffcd 100644
--- a/src/error.py
+++ b/src/error.py
@@ -118,7 +118,7 @@ class ValidationError:
 
     @classmethod
     def must_be_one_of(cls, expected_values: Collection[Any], provided: Any):
-        return cls(code=14, expected_values=expected_values, provided=provided)
+        return cls(code=14, expected_values=list(expected_values), provided=provided)
 
     @classmethod
     def missing(cls):
-- 
2.43.0


From e2cac6b16a4fc2c19b3267f527aba3888751ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:00 +0000
Subject: [PATCH 69/77] fix: building a complex attribute leaves the processors
 it was given as they are

---
 src/data/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index 252affa..e0b4922 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -319,7 +319,7 @@ class ComplexAttribute(Attribute):
         )
         self._sub_attributes = Attributes(sub_attributes)
 
-        complex_parsers, complex_dumpers = complex_parsers or [], complex_dumpers or []
+        complex_parsers, complex_dumpers = list(complex_parsers or []), list(complex_dumpers or [])
         if multi_valued:
             if validate_single_primary_value not in complex_parsers:
                 complex_parsers.append(validate_single_primary_value)
-- 
2.43.0


From e80b7c786ed4c35efcd93e4a83e826a43e4a86a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:08 +0000
Subject: [PATCH 70/77] fix: a value refused by a processor is not passed to
 the processors after it

---
 src/data/attributes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index e0b4922..54fa1fa 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -240,6 +240,8 @@ class Attribute:
             for postprocessor in postprocessors:
                 parsed, issues_ = postprocessor(parsed)
                 issues.merge(issues=issues_)
+                if not issues.can_proceed():
+                    break
         return parsed, issues
 
     def _is_canonical(self, value: Any) -> bool:
@@ -380,6 +382,8 @@ class ComplexAttribute(Attribute):
             for postprocessor in postprocessors:
                 parsed, issues_ = postprocessor(parsed)
                 issues.merge(issues=issues_)
+                if not issues.can_proceed():
+                    break
 
         return parsed, issues
 
-- 
2.43.0


From b91cf92802ecb574af28665fa6f73d4b597f92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:20 +0000
Subject: [PATCH 71/77] fix: filters comparing with a boolean and with a number
 are not equal

---
 src/filter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/filter.py b/src/filter.py
index 1a45170..bbda5b5 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -681,7 +681,17 @@ class Filter:
     def __eq__(self, other) -> bool:
         if not isinstance(other, Filter):
             return False
-        return SCIMDataContainer(self.to_dict()) == SCIMDataContainer(other.to_dict())
+        return self._with_distinct_booleans(self.to_dict()) == self._with_distinct_booleans(
+            other.to_dict()
+        )
+
+    @staticmethod
+    def _with_distinct_booleans(exp):
+        if isinstance(exp, dict):
+            return {k: Filter._with_distinct_booleans(v) for k, v in exp.items()}
+        if isinstance(exp, list):
+            return [Filter._with_distinct_booleans(item) for item in exp]
+        return isinstance(exp, bool), exp
 
     def to_dict(self):
         return self._to_dict(self._operator)
-- 
2.43.0


From bce39419ffb29fca50b451d4e83e1aaa00459079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:24 +0000
Subject: [PATCH 72/77] fix: complex attributes with different sub-attributes
 are not equal

---
 src/data/attributes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index 54fa1fa..dc782b8 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -342,6 +342,15 @@ class ComplexAttribute(Attribute):
     def complex_dumpers(self) -> List[_ComplexAttributeProcessor]:
         return self._complex_dumpers
 
+    def __eq__(self, other):
+        return (
+            isinstance(other, ComplexAttribute)
+            and super().__eq__(other)
+            and list(self.attrs) == list(other.attrs)
+            and self._complex_parsers == other._complex_parsers
+            and self._complex_dumpers == other._complex_dumpers
+        )
+
     def _process_complex(
         self, value: Any, method: str, postprocessors
     ) -> Tuple[Any, ValidationIssues]:
-- 
2.43.0


From ad497de563166e4c92001d824128a7294a1de902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:34 +0000
Subject: [PATCH 73/77] fix: type of an attribute in a schema document is
 recognized in any letter case

---
 src/assets/schemas/schema.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index e1b9f51..067160f 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -157,6 +157,8 @@ def dump_attributes(
     issues = ValidationIssues()
     for i, item in enumerate(value):
         attr_type = item[_attributes__type.rep]
+        if isinstance(attr_type, str):
+            attr_type = attr_type.lower()
         sub_attributes = item[_attributes__sub_attributes.rep]
         if sub_attributes not in [Missing, None]:
             if attr_type != "complex":
-- 
2.43.0


From a8ba4a9dd2c3da241e408780f8ae616303f53188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:07 +0000
Subject: [PATCH 74/77] fix: filters find the value of a complex attribute's
 items in any spelling of the sub-attribute

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 8166461..085b63d 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -279,7 +279,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
         if isinstance(attr, ComplexAttribute):
             value_sub_attr = None
             for sub_attr in attr.attrs:
-                if sub_attr.rep.attr == "value":
+                if sub_attr.rep.attr.lower() == "value":
                     value_sub_attr = sub_attr
                     break
             if value_sub_attr is None:
-- 
2.43.0


From 55446caa83b983ff982ac85fb35d004bc929f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:41 +0000
Subject: [PATCH 75/77] fix: issues about a filter show its text, not the
 parser's placeholders

---
 src/filter.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index bbda5b5..b86711a 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -360,6 +360,8 @@ class Filter:
                             expression=Filter._encode_placeholders(
                                 exp=and_operand,
                                 string_values=string_values,
+                                parsed_group_ops=parsed_group_ops,
+                                parsed_complex_ops=parsed_complex_ops,
                             ),
                         ),
                         proceed=False,
@@ -449,6 +451,8 @@ class Filter:
                         expression=Filter._encode_placeholders(
                             exp=invalid_expression,
                             string_values=string_values,
+                            parsed_group_ops=parsed_group_ops,
+                            parsed_complex_ops=parsed_complex_ops,
                         ),
                     ),
                     proceed=False,
@@ -664,10 +668,16 @@ class Filter:
             if index in (string_values or {}):
                 return string_values[index]
             elif index in (parsed_group_ops or {}):
-                return parsed_group_ops[index].expression
+                inner_exp = parsed_group_ops[index].expression
             elif index in (parsed_complex_ops or {}):
-                return parsed_complex_ops[index].expression
-            return match.group(0)
+                inner_exp = parsed_complex_ops[index].expression
+            else:
+                return match.group(0)
+            return Filter._encode_placeholders(
+                exp=inner_exp,
+                string_values=string_values,
+                parsed_complex_ops=parsed_complex_ops,
+            )
 
         return PLACEHOLDER_REGEX.sub(encode, exp)
 
-- 
2.43.0


From ef025b44cfeb422b604ebe86563140fdc1d3b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:57 +0000
Subject: [PATCH 76/77] fix: a list can be assigned to a sub-attribute of a
 complex attribute that already has a value

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 33cb642..0ca0f88 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -164,7 +164,7 @@ class SCIMDataContainer:
                     f"can not assign ({attr_rep.sub_attr}, {value}) to '{attr_rep.attr}'"
                 )
 
-            if isinstance(value, List):
+            if isinstance(self._data[initial_key], List):
                 to_create = len(value) - len(self._data[initial_key])
                 if to_create > 0:
                     self._data[initial_key].extend([SCIMDataContainer() for _ in range(to_create)])
-- 
2.43.0


From fbeb1af7566a2339266c0090af0e504a40ffeaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:29 +0000
Subject: [PATCH 77/77] fix: parsed dates sort by time

Only text, numbers and booleans were given a sort key, so resources with parsed dates counted as having no value; dates are compared again, those without a time zone as UTC.
---
 src/sorter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sorter.py b/src/sorter.py
index 4f9b21b..e6e5c62 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -1,4 +1,5 @@
 import functools
+from datetime import datetime, timezone
 from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from src.data import type as at
@@ -84,7 +85,13 @@ class Sorter:
         return [data[i] for i in order]
 
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if attr is None or not isinstance(value, (str, bool, int, float)) or value == "":
+        if attr is None:
+            return self._default_value
+
+        if isinstance(value, datetime):
+            return value if value.tzinfo else value.replace(tzinfo=timezone.utc)
+
+        if not isinstance(value, (str, bool, int, float)) or value == "":
             return self._default_value
 
         if not isinstance(value, str):
-- 
2.43.0

